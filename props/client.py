"""Client side: fetch, subscriptions, synchronised receiving, discovery."""
import asyncio
import streamtasks.client, streamtasks.services.discovery, streamtasks.net.utils     # loaded before the proxies are injected
from symx.harness import harness, meta
from props.net import stub_hash, _mods, make_link_class


def _system(ctx, n):
  """a real switch with n real clients; returns loop, switch, clients"""
  net, msgs, ser = _mods()
  from streamtasks.client import Client
  loop = ctx.loop()
  sw = loop.call(net.Switch)
  clients = []
  for i in range(n):
    link = loop.run_until_complete(sw.add_local_connection())
    c = loop.call(Client, link)
    c.start()
    clients.append(c)
  return loop, sw, clients


def _yields(k):
  async def f():
    for _ in range(k): await asyncio.sleep(0)
  return f()


# ---------------------------------------------------------------- C13 fetch
meta("C13", bounds="up to 2 (quick) / 3 (thorough) requests with every combination of 7 handler behaviours, from one or two clients, plus stray and malformed messages on the ports involved; two overlapping requests of one client at every relative offset of 0..30 scheduling steps and every server delay of 0..3, to the same and to different servers answering in either order; symbolic request bodies",
     outside="lost links during a request")
BEHAVIOURS = ["respond", "respond_error", "nothing", "raise", "respond_raise", "slow", "respond_invalid"]


@harness("C13", "one_response_per_request",
         shards=lambda tier: [dict(n=2 if tier == "quick" else 3, first=b, same=s) for b in BEHAVIOURS for s in (True, False)],
         must=["the caller gets the response to its own request", "exactly one response is sent", "an error reaches the caller", "the server survives"], model_patch=True, fmt="realize")
def c13(ctx, n, first, same):
  net, msgs, ser = _mods()
  from streamtasks.client.fetch import FetchServer, FetchError, FetchRequestMessage
  from pydantic import ValidationError, TypeAdapter
  loop, sw, (server, *callers) = _system(ctx, 2 if same else 3)
  loop.run_until_complete(server.set_address(100))
  for i, c in enumerate(callers): loop.run_until_complete(c.set_address(200 + i))
  bodies = [ctx.int(f"body{i}", 0, 1000) for i in range(n)]
  beh = [first] + [ctx.pick(f"behaviour{i}", BEHAVIOURS) for i in range(1, n)]
  handled = []
  fs = loop.call(FetchServer, server)
  sent = []
  orig = server._link._send
  async def rec(m):
    if isinstance(m, msgs.AddressedMessage): sent.append((m.address, m.port))
    await orig(m)
  server._link._send = rec

  async def handler(req):
    k = req.body[0]
    handled.append(k)
    b = beh[k] if k < n else "respond"
    if b == "slow": await asyncio.sleep(2)
    if b in ("respond", "slow", "respond_raise", "respond_invalid"): await req.respond([req.body[1], k])
    if b == "respond_error": await req.respond_error(["bad_request", req.body[1]])
    if b in ("raise", "respond_raise"): raise RuntimeError("no")
    if b == "respond_invalid": TypeAdapter(int).validate_python("x")
  fs.add_route("job", handler)
  st = loop.spawn(fs.run())
  loop.drain()
  tasks = []
  stray = ctx.choice("stray", 3)
  for i in range(n):
    c = callers[0] if same else callers[i % 2]
    tasks.append(loop.spawn(c.fetch(100, "job", [i, bodies[i]])))
    if stray == 1: loop.spawn(server.send_to((200, 10000 + i), ser.RawData({"unrelated": 1})))      # not a response
    if stray == 2: loop.spawn(callers[0].send_to((100, 100), ser.RawData({"descriptor": "job", "body": 1})))   # not a request
    if ctx.flag(f"gap{i}"): loop.advance(1)
  loop.advance(20)
  ctx.check(all(t.done() for t in tasks), "every request is answered")
  ctx.check(sorted(handled) == list(range(n)), "every request is handled once", len(handled))
  for i, t in enumerate(tasks):
    b, e = beh[i], t.exception()
    if b in ("respond", "slow", "respond_raise", "respond_invalid"):
      ctx.check(e is None, "the caller gets the response to its own request", repr(e))
      r = t.result()
      ctx.check(isinstance(r, list) and ctx.And(r[0] == bodies[i], r[1] == i), "the caller gets the response to its own request", r)
    elif b == "nothing":
      ctx.check(e is None and t.result() is None, "the caller gets the response to its own request", repr(e))
    else:
      ctx.check(isinstance(e, FetchError), "an error reaches the caller", repr(e))
      if b == "respond_error": ctx.check(e.body[0] == "bad_request" and e.body[1] == bodies[i], "an error reaches the caller", (i, e.body, beh))
      else: ctx.check(e.body[0] == "general", "an error reaches the caller", (i, e.body, beh))
  ports = [p for a, p in sent if a >= 200 and p >= 10000]
  if stray != 1: ctx.check(len(ports) == n, "exactly one response is sent", len(ports))
  ctx.check(not st.done(), "the server survives")
  t = loop.spawn(callers[0].fetch(100, "job", [n, 5]))
  loop.advance(5)
  ctx.check(t.done() and t.exception() is None and t.result()[0] == 5, "the server survives")


@harness("C13", "different_servers", shards=[dict(n=n) for n in (2, 3)], must=["overlapping requests both complete"], model_patch=True)
def c13_servers(ctx, n):
  """requests of one client to servers that answer in any order"""
  net, msgs, ser = _mods()
  from streamtasks.client.fetch import FetchServer, FetchError
  loop, sw, (caller, *servers) = _system(ctx, n + 1)
  loop.run_until_complete(caller.set_address(200))
  delays = [ctx.choice(f"delay{i}", n) for i in range(n)]
  errors = [ctx.flag(f"error{i}") for i in range(n)]
  def serve(i, c):
    loop.run_until_complete(c.set_address(100 + i))
    fs = loop.call(FetchServer, c)
    async def handler(req):
      await asyncio.sleep(1 + delays[i])
      await (req.respond_error if errors[i] else req.respond)(["general", i, req.body])
    fs.add_route("job", handler)
    loop.spawn(fs.run())
  for i, c in enumerate(servers): serve(i, c)
  loop.drain()
  vs = [ctx.int(f"v{i}", 0, 100) for i in range(n)]
  ts = [loop.spawn(caller.fetch(100 + i, "job", v)) for i, v in enumerate(vs)]
  loop.advance(20)
  for i, (t, v) in enumerate(zip(ts, vs)):
    ctx.check(t.done() and isinstance(t.exception(), FetchError if errors[i] else type(None)), "overlapping requests both complete", (i, delays, errors))
    r = t.exception().body if errors[i] else t.result()
    ctx.check(r[1] == i and r[2] == v, "a response is the one to its request", (i, r))


@harness("C13", "overlapping_requests", shards=[dict(delay=d, bg=b) for d in range(3) for b in (False, True)], must=["overlapping requests both complete"], model_patch=True)
def c13_overlap(ctx, delay, bg):
  net, msgs, ser = _mods()
  from streamtasks.client.fetch import FetchServer
  loop, sw, (server, caller) = _system(ctx, 2)
  loop.run_until_complete(server.set_address(100))
  loop.run_until_complete(caller.set_address(200))
  fs = loop.call(FetchServer, server)
  async def handler(req):
    for _ in range(delay): await asyncio.sleep(0)
    await req.respond(req.body)
  fs.add_route("job", handler)
  loop.spawn(fs.run())
  loop.drain()
  a, b = ctx.int("a", 0, 100), ctx.int("b", 0, 100)
  off = ctx.choice("offset", 31)
  async def second():
    for _ in range(off): await asyncio.sleep(0)
    return await caller.fetch(100, "job", b)
  if bg:    # an unrelated receiver starts and stops in between
    from streamtasks.client.receiver import TopicsReceiver
    r = loop.call(TopicsReceiver, caller, [5])
    async def other():
      for _ in range(ctx.choice("offset2", 6) * 3): await asyncio.sleep(0)
      async with r: await asyncio.sleep(0)
    loop.spawn(other())
  t1 = loop.spawn(caller.fetch(100, "job", a))
  t2 = loop.spawn(second())
  loop.advance(60)
  ctx.check(t1.done() and t2.done(), "overlapping requests both complete", (off, t1.done(), t2.done()))
  ctx.check(ctx.And(t1.result() == a, t2.result() == b), "overlapping requests both complete")


# ---------------------------------------------------------------- C14 ledger and receiving
meta("C14", bounds="histories of 4 (quick) / 6 (thorough) register/unregister calls over 3 topics with overlapping sets; histories of 4 / 5 events (start/stop of two receivers with overlapping topics, data, pause, demand changes) with symbolic topic ids and payloads",
     outside="connection loss of the client's link")
TS = (1, 2, 3)


@harness("C14", "ledger", shards=lambda tier: [dict(kind=k, first=f, n=4 if tier == "quick" else 5) for k in ("in", "out") for f in range(8)],
         must=["registered exactly while somebody needs it"])
def c14(ctx, kind, first, n):
  net, msgs, ser = _mods()
  from streamtasks.client import Client
  loop = ctx.loop()
  peer = loop.call(make_link_class(), "P")
  c = loop.call(Client, peer)
  count = {t: 0 for t in TS}
  SETS = [(1,), (2,), (1, 2), (2, 3)]
  sent, prev = 0, set()
  table = peer.upstream if kind == "in" else peer.told
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 9)
    ts = SETS[op % 4]
    add = op < 4
    if op == 8:     # drop everything held
      for t in (1, 2): count[t] = 0
      loop.run_until_complete((c.unregister_in_topics if kind == "in" else c.unregister_out_topics)([1, 2], force=True))
    elif add:
      for t in ts: count[t] += 1
      loop.run_until_complete((c.register_in_topics if kind == "in" else c.register_out_topics)(list(ts)))
    else:
      for t in ts: count[t] = max(0, count[t] - 1)
      loop.run_until_complete((c.unregister_in_topics if kind == "in" else c.unregister_out_topics)(list(ts)))
    want = {t for t in TS if count[t] > 0}
    ctx.check(set(table) == want, "registered exactly while somebody needs it", (op, set(table), want))
    for m in peer.sent[sent:]:
      a = {x if kind == "in" else x.id for x in m.add}
      ctx.check(len(a) + len(m.remove) > 0 and not (a & prev) and m.remove <= prev, "no redundant announcements", (a, m.remove, prev))
    sent, prev = len(peer.sent), set(want)
  ctx.observe("final", sorted(table))


@harness("C14", "receiving", shards=lambda tier: [dict(pre=p, first=f, n=3 if tier == "quick" else 4) for p in range(4) for f in range(7) if not (f == 1 and p in (0, 2))],
         must=["a receiver gets the messages of its topics in order", "nothing arrives for a topic nobody registered", "demand is reported", "the pause state is reported"])
def c14_recv(ctx, pre, first, n):
  net, msgs, ser = _mods()
  from streamtasks.client import Client
  from streamtasks.client.receiver import TopicsReceiver
  loop = ctx.loop()
  peer = loop.call(make_link_class(), "P")
  c = loop.call(Client, peer)
  c.start()
  rs = [loop.call(TopicsReceiver, c, [1, 2]), loop.call(TopicsReceiver, c, [2, 3])]
  topics = [(1, 2), (2, 3)]
  out = loop.call(c.out_topic, 1)
  inn = loop.call(c.in_topic, 2)
  on, exp = [0, 0], [[], []]
  inn_on, inn_exp = False, []
  loop.run_until_complete(out.start())
  requested = False
  if pre & 1:
    loop.run_until_complete(rs[0].start_recv()); on[0] += 1
  if pre & 2:
    loop.run_until_complete(inn.start()); loop.run_until_complete(inn.set_registered(True))
    inn_on = True
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 7)
    if op == 0:
      i = ctx.choice(f"who{k}", 2)
      loop.run_until_complete(rs[i].start_recv()); on[i] += 1
    elif op == 1:
      i = ctx.choice(f"who{k}", 2)
      if on[i] == 0: ctx.assume(False)
      loop.run_until_complete(rs[i].stop_recv()); on[i] -= 1
    elif op == 2:
      t, v = (0, 2, 3)[ctx.choice(f"topic{k}", 3)], ctx.int(f"value{k}", 0, 100)
      peer.inbox.put_nowait(msgs.TopicDataMessage(t, ser.RawData({"v": v})))
      for i in range(2):
        if on[i] and t in topics[i]: exp[i].append((t, v))
      if inn_on and t == 2: inn_exp.append(v)
    elif op == 3:
      t, v = (0, 2, 3)[ctx.choice(f"topic{k}", 3)], ctx.flag(f"paused{k}")
      peer.inbox.put_nowait(msgs.TopicControlMessage(t, v))
      for i in range(2):
        if on[i] and t in topics[i]: exp[i].append((t, v))
      if inn_on and t == 2: inn_exp.append(v)
    elif op == 4:
      requested = ctx.flag(f"add{k}")
      peer.inbox.put_nowait(msgs.InTopicsChangedMessage({1}, set()) if requested else msgs.InTopicsChangedMessage(set(), {1}))
    elif op == 5:
      if inn_on: loop.run_until_complete(inn.set_registered(False)); loop.run_until_complete(inn.stop())
      else: loop.run_until_complete(inn.start()); loop.run_until_complete(inn.set_registered(True))
      inn_on = not inn_on
    else:
      peer.inbox.put_nowait(msgs.AddressedMessage(0, 0, ser.RawData({"v": 1})))
    loop.drain()
    ctx.check(out.is_requested == requested, "demand is reported", (k, op))
    want = set()
    for i in range(2):
      if on[i]: want |= set(topics[i])
    if inn_on: want.add(2)
    ctx.check(peer.upstream == want, "subscribed exactly while a receiver wants it", (peer.upstream, want))
  for i in range(2):
    got = []
    while not rs[i].empty(): got.append(loop.run_until_complete(rs[i].get()))
    ctx.check(len(got) == len(exp[i]), "a receiver gets the messages of its topics in order", (got, exp[i]))
    for (t, d), (et, ev) in zip(got, exp[i]):
      ctx.check(t == et, "a receiver gets the messages of its topics in order")
      ctx.check((d.data["v"] == ev) if isinstance(d, ser.RawData) else d.paused == ev, "a receiver gets the messages of its topics in order")
    ctx.check(all(t in topics[i] for t, _ in got), "nothing arrives for a topic nobody registered")
  last = False
  if ctx.flag("data only"):
    for ev in inn_exp:
      if not isinstance(ev, bool):
        d = loop.run_until_complete(asyncio.wait_for(inn.recv_data(), 5))
        ctx.check(isinstance(d, ser.RawData) and d.data["v"] == ev, "a receiver gets the messages of its topics in order")
    inn_exp = []
    t = loop.spawn(inn.recv_data())
    loop.drain()
    return ctx.check(not t.done(), "a receiver gets the messages of its topics in order")
  for ev in inn_exp:
    d = loop.run_until_complete(inn.recv_data_control())
    if isinstance(d, ser.RawData): ctx.check(d.data["v"] == ev, "a receiver gets the messages of its topics in order")
    else:
      last = ev
      ctx.check(d.paused == ev and inn.is_paused == ev, "the pause state is reported")
  t = loop.spawn(inn.recv_data_control())
  loop.drain()
  ctx.check(not t.done(), "a receiver gets the messages of its topics in order")


@harness("C14", "input_cost", shards=[dict(n=3)], must=["the cost of an input is the announced one"])
def c14_cost(ctx, n):
  net, msgs, ser = _mods()
  from streamtasks.client import Client
  stub_hash(ctx)
  loop = ctx.loop()
  lc = ctx.int("linkcost", 1, 5)
  peer = loop.call(make_link_class(), "P", lc)
  c = loop.call(Client, peer)
  c.start()
  inn = loop.call(c.in_topic, 2)
  loop.run_until_complete(inn.start())
  loop.spawn(inn.recv_data())
  cost = None
  for k in range(n):
    op = ctx.choice(f"op{k}", 4)
    v = ctx.int(f"cost{k}", 0, 9)
    if op == 0:
      peer.inbox.put_nowait(msgs.OutTopicsChangedMessage({msgs.PricedId(2, v)}, set())); cost = v + lc
    elif op == 1:
      peer.inbox.put_nowait(msgs.OutTopicsChangedMessage(set(), {2})); cost = None
    elif op == 2: peer.inbox.put_nowait(msgs.OutTopicsChangedMessage({msgs.PricedId(3, v)}, {4}))
    else:
      peer.inbox.put_nowait(msgs.OutTopicsChangedMessage({msgs.PricedId(2, v)}, {2})); cost = v + lc
    loop.drain()
    ctx.check((inn.cost is None) == (cost is None), "the cost of an input is the announced one", (op, inn.cost))
    if cost is not None: ctx.check(inn.cost == cost, "the cost of an input is the announced one")


# ---------------------------------------------------------------- C15 synchronised receiving
meta("C15", bounds="2 inputs with 2+2 messages and 3 inputs with up to 4 messages (thorough: 3+2 and 5), every symbolic integer timestamp, every arrival interleaving, consumers that take time or not, one pause/resume of an input at any position; priorities 0..2 on every input",
     outside="an input whose consumer stops asking for messages")


class _Sync:
  """n synchronised inputs with consumers that record what they are given"""
  def __init__(self, ctx, n, sync, busy):
    net, self.msgs, self.ser = _mods()
    from streamtasks.client import Client
    self.loop = ctx.loop()
    self.peer = self.loop.call(make_link_class(), "P")
    c = self.loop.call(Client, self.peer)
    c.start()
    self.log = []       # ("got"|"done", topic, timestamp)
    self.ctl = [0] * n
    self.busy = busy
    for i in range(n):
      self.loop.spawn(self.consume(c.sync_in_topic(i, sync), i))
      self.loop.drain()
  async def consume(self, topic, i):
    async with topic, topic.RegisterContext():
      while True:
        d = await topic.recv_data_control()
        if not isinstance(d, self.ser.RawData):
          self.ctl[i] += 1
          continue
        self.log.append(("got", i, d.data["timestamp"], d.data["k"]))
        if self.busy: await asyncio.sleep(1)
        self.log.append(("done", i, d.data["timestamp"], d.data["k"]))
  def data(self, i, ts, k): self.peer.inbox.put_nowait(self.msgs.TopicDataMessage(i, self.ser.RawData({"timestamp": ts, "k": k})))
  def control(self, i, paused): self.peer.inbox.put_nowait(self.msgs.TopicControlMessage(i, paused))


def _orders(counts):
  """all interleavings of counts[i] messages of input i"""
  if not any(counts): return [[]]
  return [[i] + r for i, c in enumerate(counts) if c for r in _orders([x - (j == i) for j, x in enumerate(counts)])]


@harness("C15", "ordered_release",
         shards=lambda tier: [dict(order=o, busy=b) for cs in ([(2, 2), (1, 2, 1)] if tier == "quick" else [(3, 2), (2, 2, 1)]) for o in _orders(list(cs)) for b in (0, 1, 2)],
         must=["released in timestamp order", "a message waits only for an older input", "each input keeps its order"])
def c15(ctx, order, busy):
  from streamtasks.client.topic import SequentialInTopicSynchronizer, PrioritizedSequentialInTopicSynchronizer
  n = max(order) + 1
  s = _Sync(ctx, n, ctx.loop().call(SequentialInTopicSynchronizer if busy < 2 else PrioritizedSequentialInTopicSynchronizer), busy == 1)
  sent = [[] for _ in range(n)]
  marks = []
  for k, i in enumerate(order):
    ts = ctx.int(f"ts{k}", 0, 1000)
    sent[i].append((k, ts))
    s.data(i, ts, k)
    s.loop.drain()
    marks.append(len(s.log))
    if busy == 1 and ctx.flag(f"gap{k}"): s.loop.advance(5)
  s.loop.advance(60)
  ctx.check(not s.loop.errors, "no error")
  rel = [e[1:] for e in s.log if e[0] == "got"]
  _check_release(ctx, sent, rel)
  ctx.observe("released", rel)


def _check_release(ctx, sent, rel, live=None):
  n = len(sent)
  # per input: accepted = not older than an earlier accepted message; released in order, prefix of the accepted ones
  acc = []
  for i in range(n):
    a, last = [], None
    for k, ts in sent[i]:
      if last is None or not ts < last:
        a.append((k, ts)); last = ts
    acc.append(a)
    got = [k for j, _, k in rel if j == i]
    ctx.check(got == [k for k, _ in a][:len(got)], "each input keeps its order", (i, got, [k for k, _ in a]))
  # cross input
  first_seen = {}
  for pos, (i, ts, k) in enumerate(rel):
    for j, t2, k2 in rel[pos + 1:]:
      started = any(k3 < k for k3, _ in sent[j]) if j != i else True     # j took part before this message arrived
      if started: ctx.check(ts <= t2, "released in timestamp order", ((i, ts, k), (j, t2, k2)))
  # liveness: what is still waiting waits for another input whose newest accepted message is older
  pending = [len([1 for j, _, _ in rel if j == i]) for i in range(n)]
  newest = []
  for i in range(n):
    if not acc[i]: newest.append(None)
    else: newest.append(acc[i][min(pending[i], len(acc[i]) - 1)][1])
  for i in range(n):
    if pending[i] < len(acc[i]):
      ts = acc[i][pending[i]][1]
      ctx.check(ctx.Or(*[newest[j] < ts for j in range(n) if j != i and newest[j] is not None]), "a message waits only for an older input", (i, ts))
    else: ctx.reach("a message waits only for an older input")


@harness("C15", "pausing", shards=[dict(at=a, who=w, order=o) for a in range(4) for w in (0, 1) for o in _orders([2, 1])], must=["a paused input holds up nobody"])
def c15_pause(ctx, at, who, order):
  from streamtasks.client.topic import SequentialInTopicSynchronizer
  s = _Sync(ctx, 2, ctx.loop().call(SequentialInTopicSynchronizer), False)
  sent = [[], []]
  paused = False
  for k, i in enumerate(order):
    if k == at:
      s.control(who, True)
      s.loop.drain()
      paused = True
    ts = ctx.int(f"ts{k}", 0, 1000)
    if paused and i == who:
      s.control(who, False)        # it resumes before sending again
      s.loop.drain()
      paused = False
    s.data(i, ts, k)
    s.loop.drain()
    sent[i].append((k, ts))
  if at == 3:
    s.control(who, True)
    s.loop.drain()
    paused = True
  if not paused: return
  # while `who` is paused and has nothing queued, everything the other one got is delivered (except late messages)
  other = 1 - who
  acc, last = [], None
  for k, ts in sent[other]:
    if last is None or not ts < last: acc.append(k); last = ts
  got = [e[3] for e in s.log if e[0] == "got" and e[1] == other]
  waiting = [e[3] for e in s.log if e[0] == "got" and e[1] == who]
  if len(waiting) == len([1 for k, ts in sent[who]]):
    ctx.check(got == acc, "a paused input holds up nobody", (got, acc))


@harness("C15", "priority", shards=[dict(prios=p, order=o, late=l) for p in ((1, 0), (0, 2), (1, 1)) for o in _orders([2, 2]) for l in (False, True)],
         must=["the input with the higher priority goes first"], extra=None)
def c15_prio(ctx, prios, order, late):
  from streamtasks.client.topic import PrioritizedSequentialInTopicSynchronizer
  sync = ctx.loop().call(PrioritizedSequentialInTopicSynchronizer)
  for i, p in enumerate(prios): sync.set_priority(i, p)
  s = _Sync(ctx, 2, sync, True)
  sent = [[], []]
  arrived = {}
  for k, i in enumerate(order):
    ts = ctx.int(f"ts{k}", 0, 1000)
    sent[i].append((k, ts))
    arrived[k] = len(s.log)
    s.data(i, ts, k)
    s.loop.drain()
    if late: s.loop.advance(10)
  s.loop.advance(60)
  rel = [e[1:] for e in s.log if e[0] == "got"]
  _check_release(ctx, sent, rel)
  lo = 0 if prios[0] < prios[1] else 1
  if prios[0] == prios[1]:
    ctx.reach("the input with the higher priority goes first")
    return
  hi = 1 - lo
  gots = {e[3]: p for p, e in enumerate(s.log) if e[0] == "got"}
  dones = {e[3]: p for p, e in enumerate(s.log) if e[0] == "done"}
  for k, ts in sent[lo]:
    for k2, t2 in sent[hi]:
      if k in gots and k2 in gots and arrived[k2] <= gots[k] and t2 == ts:
        ctx.check(dones[k2] < gots[k], "the input with the higher priority goes first", (k, k2, [e[:2] + e[3:] for e in s.log]))


# ---------------------------------------------------------------- C16 discovery
meta("C16", bounds="histories of 3 (quick) / 4 (thorough) requests with counts -1..2 over 2 clients (with and without an address); histories of 4 / 5 register, leave, resolve, wait events over 2 symbolic names of up to 2 letters and 2 addresses; topic spaces over 2 symbolic topic ids with translation, listing and deletion",
     outside="restarts of the discovery service; clients that cache a name another client gave up")


class _Disc:
  def __init__(self, ctx, n):
    from streamtasks.services.discovery import DiscoveryWorker
    self.ctx, self.loop = ctx, ctx.loop()
    self.w = self.loop.call(DiscoveryWorker)
    self.task = self.loop.spawn(self.w.run())
    self.loop.drain()
    self.clients = [self.client() for _ in range(n)]
  def client(self, address=None):
    c = self.loop.run_until_complete(self.w.create_client())
    c.start()
    if address is not None: self.loop.run_until_complete(c.set_address(address))
    return c
  def go(self, coro, steps=3):
    """(result, exception) or None while not finished"""
    t = self.loop.spawn(coro)
    self.loop.advance(steps)
    if not t.done(): return None
    return (t.result(), None) if t.exception() is None else (None, t.exception())


@harness("C16", "unique_ids", shards=lambda tier: [dict(first=f, n=3 if tier == "quick" else 4) for f in range(4)],
         must=["ids are unique", "as many ids as asked for"], model_patch=True)
def c16_ids(ctx, first, n):
  from streamtasks.client.discovery import request_addresses, register_topic_space
  d = _Disc(ctx, 2)
  d.loop.run_until_complete(d.clients[0].set_address(500))
  topics, addresses = [], []
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 4)
    cnt = ctx.choice(f"count{k}", 4) - 1
    if op == 0: r = d.go(d.clients[0].request_topic_ids(cnt))
    elif op == 1: r = d.go(request_addresses(d.clients[0], cnt))
    elif op == 2: r = d.go(request_addresses(d.clients[1], cnt))
    else: r = d.go(register_topic_space(d.clients[0], set(range(cnt))))
    if cnt < 0:
      if op != 3: ctx.check(r is None or r[1] is not None, "a negative count yields nothing")
      continue
    ctx.check(r is not None and r[1] is None, "as many ids as asked for", (op, cnt, r))
    got = list(r[0][1].values()) if op == 3 else list(r[0])
    ctx.check(len(got) == cnt, "as many ids as asked for", (op, cnt, got))
    (topics if op in (0, 3) else addresses).extend(got)
  ctx.check(len(set(topics)) == len(topics) and len(set(addresses)) == len(addresses), "ids are unique", (topics, addresses))
  ctx.check(500 not in addresses and 0 not in addresses and all(t > 1 for t in topics), "ids do not collide with the reserved ones")
  ctx.check(not d.task.done(), "the service survives")


@harness("C16", "address_names", shards=lambda tier: [dict(first=f, len0=l, n=4 if tier == "quick" else 5) for f in range(2) for l in ((1, 2) if tier == "thorough" else (1,))],
         must=["a name resolves to the address that holds it", "an unknown name is unknown", "waiting for a name ends when it is registered", "nobody waits for a name that is registered"], model_patch=True, strings=True)
def c16_names(ctx, first, len0, n):
  from streamtasks.client.discovery import address_name_context, wait_for_address_name
  d = _Disc(ctx, 0)
  a, b = d.client(501), d.client(502)
  names = [ctx.str("name0", len0, alphabet="xyz"), ctx.str("name1", 1, alphabet="xyz")]
  held = {}          # slot -> (context manager)
  table = []         # (name, address) in order of registration; the last one counts
  waits = []         # (name, task)
  askers, told = {}, {}
  def lookup(nm):
    r = None
    for x, ad in table:
      if x == nm: r = ad
    return r
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 4)
    i = ctx.choice(f"who{k}", 2)
    nm = names[i]
    if op == 0:
      if i in held or lookup(nm) is not None: ctx.assume(False)
      cm = address_name_context((a, b)[i], nm)
      r = d.go(cm.__aenter__())
      ctx.check(r is not None and r[1] is None, "a name can be registered", r)
      held[i] = cm
      table.append((nm, 501 + i))
    elif op == 1:
      t = d.loop.spawn(wait_for_address_name(d.client(600 + k), nm))
      d.loop.advance(2)
      waits.append((nm, t, lookup(nm)))
    elif op == 2:
      if i not in held: ctx.assume(False)
      cm = held.pop(i)
      r = d.go(cm.__aexit__(None, None, None))
      ctx.check(r is not None and r[1] is None, "a name can be given up", r)
      table = [x for x in table if not x[0] == nm]
      own = d.go((a, b)[i].resolve_address_name(nm))
      ctx.check(own is not None and own[1] is None and own[0] is None, "a name that was given up is unknown to its former holder", own)
    else:
      if 1 not in askers or ctx.flag(f"asker{k}"): askers[ctx.flag(f"keep{k}")] = asker = d.client(700 + k)
      else: asker = askers[1]
      want = lookup(nm)
      if asker in told:     # a client remembers what a name resolved to (outside the property when it was given up since)
        for x, ad in told[asker]:
          if x == nm and ad is not None and not (want is not None and ad == want): ctx.assume(False)
      r = d.go(asker.resolve_address_name(nm))
      told.setdefault(asker, []).append((nm, want))
      ctx.check(r is not None and r[1] is None, "resolving answers")
      if want is None: ctx.check(r[0] is None, "an unknown name is unknown", r)
      else: ctx.check(r[0] == want, "a name resolves to the address that holds it", (r, want))
    d.loop.advance(2)
    for w, (nm, t, res) in enumerate(waits):
      cur = lookup(nm)
      if res is None and cur is not None: waits[w] = (nm, t, cur); res = cur
      ctx.check(t.done() == (res is not None), "waiting for a name ends when it is registered" if res is not None else "nobody is told a name that is not registered", (k, res))
      if t.done(): ctx.check(t.exception() is None and t.result() == res, "waiting for a name ends when it is registered")
      if res is None: ctx.reach("nobody waits for a name that is registered")


@harness("C16", "topic_spaces", shards=[dict(delete=x, other=o) for x in (False, True) for o in (False, True)],
         must=["a topic translates to its own id in the space", "what is not in a space is not found", "spaces do not mix"], model_patch=True)
def c16_spaces(ctx, delete, other):
  from streamtasks.client.discovery import register_topic_space, get_topic_space, get_topic_space_translation, delete_topic_space
  from streamtasks.client.fetch import FetchError
  d = _Disc(ctx, 0)
  c = d.client(501)
  ids = [ctx.int("t0", 0, 50), ctx.int("t1", 0, 50)]
  q = ctx.int("query", 0, 50)
  sid, m = d.go(register_topic_space(c, set(ids)))[0]
  sid2, m2 = d.go(register_topic_space(c, {ids[0]}))[0] if other else (None, {})
  if other: ctx.check(sid2 != sid and not (set(m.values()) & set(m2.values())), "spaces do not mix")
  else: ctx.reach("spaces do not mix")
  distinct = 1 if ids[0] == ids[1] else 2
  ctx.check(len(m) == distinct and len(set(m.values())) == distinct, "a topic translates to its own id in the space", m)
  if delete:
    r = d.go(delete_topic_space(c, sid))
    ctx.check(r is not None and r[1] is None, "a space can be deleted")
  for cid, mm, ks in ((sid, m, ids), (sid2, m2, ids[:1])):
    if cid is None: continue
    r = d.go(get_topic_space_translation(c, cid, q))
    ctx.check(r is not None, "translation answers")
    g = d.go(get_topic_space(c, cid))
    if delete and cid == sid:
      ctx.check(isinstance(r[1], FetchError) and r[1].body[0] == "not_found", "what is not in a space is not found", r)
      ctx.check(isinstance(g[1], FetchError), "what is not in a space is not found")
      continue
    ctx.check(g[1] is None and len(g[0]) == len(mm), "a space lists its topics")
    hit = None
    for k, v in mm.items():
      if k == q: hit = v
    known = any(k == q for k in ks)
    if known: ctx.check(hit is not None and r[1] is None and r[0] == hit, "a topic translates to its own id in the space", (r, hit))
    else: ctx.check(isinstance(r[1], FetchError) and r[1].body[0] == "not_found", "what is not in a space is not found", r)
  ctx.check(not d.task.done(), "the service survives")


# ---------------------------------------------------------------- C11 signals and broadcasts
meta("C11", bounds="4 (quick) / 5 (thorough) signals from 2 clients over known, unknown and malformed kinds with handlers that succeed, take time or fail; histories of 4 / 5 start, stop and broadcast events of 2 receivers over 3 namespaces; symbolic payloads",
     outside="lost links")


@harness("C11", "signals", shards=lambda tier: [dict(first=f, n=3 if tier == "quick" else 4) for f in range(6)], must=["every signal is handled once, in order"], model_patch=True)
def c11_signal(ctx, first, n):
  net, msgs, ser = _mods()
  from streamtasks.client.signal import SignalServer, send_signal
  loop, sw, (server, *cs) = _system(ctx, 3)
  loop.run_until_complete(server.set_address(100))
  ss = loop.call(SignalServer, server)
  log = []
  async def ok(x): log.append(("ok", x))
  async def slow(x):
    await asyncio.sleep(1)
    log.append(("slow", x))
  async def bad(x):
    log.append(("bad", x))
    raise RuntimeError("no")
  for f in (ok, slow, bad): ss.add_route(f.__name__, f)
  st = loop.spawn(ss.run())
  loop.drain()
  exp = []
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 6)
    v, c = ctx.int(f"v{k}", 0, 9), cs[ctx.choice(f"who{k}", 2)]
    if op < 4:
      name = ["ok", "slow", "bad", "other"][op]
      loop.run_until_complete(send_signal(c, 100, name, [v, k]))
      if op < 3: exp.append((name, [v, k]))
    elif op == 4: loop.run_until_complete(c.send_to((100, 103), ser.RawData({"body": 1})))
    else: loop.run_until_complete(c.send_to((100, 104), ser.RawData({"descriptor": "ok", "body": 1})))
    if ctx.flag(f"gap{k}"): loop.advance(2)
  loop.advance(20)
  ctx.check(len(log) == len(exp), "every signal is handled once, in order", (log, exp))
  for (f, x), (g, y) in zip(log, exp): ctx.check(f == g and x[1] == y[1] and x[0] == y[0], "every signal is handled once, in order")
  if not exp: ctx.reach("every signal is handled once, in order")
  ctx.check(not st.done(), "the server survives")


@harness("C11", "broadcasts", shards=lambda tier: [dict(first=f, n=4 if tier == "quick" else 5) for f in range(2)], must=["a broadcast reaches exactly the receivers of its namespace"], model_patch=True)
def c11_broadcast(ctx, first, n):
  net, msgs, ser = _mods()
  from streamtasks.client.broadcast import BroadcastingServer, BroadcastReceiver
  d = _Disc(ctx, 0)
  server, *cs = d.client(101), d.client(501), d.client(502)
  bs = d.loop.call(BroadcastingServer, server)
  st = d.loop.spawn(bs.run())
  d.loop.drain()
  NS = ["a", "b", "c"]
  want = [{"a", "b"}, {"b", "c"}]
  rs = [d.loop.call(BroadcastReceiver, c, w, 101) for c, w in zip(cs, want)]
  on, exp = [False, False], [[], []]
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 2)
    if op == 0:
      i = ctx.choice(f"who{k}", 2)
      r = d.go(rs[i].stop_recv() if on[i] else rs[i].start_recv())
      ctx.check(r is not None and r[1] is None, "receivers start and stop", r)
      on[i] = not on[i]
    else:
      ns, v = NS[ctx.choice(f"ns{k}", 3)], ctx.int(f"v{k}", 0, 9)
      r = d.go(bs.broadcast(ns, ser.RawData({"v": v})))
      for i in range(2):
        if on[i] and ns in want[i]: exp[i].append((ns, v))
    d.loop.advance(2)
  for i in range(2):
    got = []
    while not rs[i].empty(): got.append(d.loop.run_until_complete(rs[i].get()))
    L = "a broadcast reaches exactly the receivers of its namespace"
    ctx.check(len(got) == len(exp[i]), L, (got, exp[i]))
    for (ns, data), (en, ev) in zip(got, exp[i]): ctx.check(ns == en and data.data["v"] == ev, L)
  ctx.check(len(set(bs.namespaces.values())) == len(bs.namespaces), "namespaces have their own topics")
  ctx.check(not st.done(), "the server survives")
