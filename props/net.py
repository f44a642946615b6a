"""Switch / link routing properties."""
import asyncio
from symx.harness import harness, meta

T0, T1 = 0, 9          # topic ids / addresses used by the harnesses; 0 is a valid id


def _mods():
  import streamtasks.net as net
  import streamtasks.net.messages as msgs
  import streamtasks.net.serialization as ser
  return net, msgs, ser


def stub_hash(ctx):
  """symbolic costs inside hashed PricedId: constant hash, equality decided by the solver"""
  net, msgs, ser = _mods()
  ctx.inject(msgs.PricedId, "__hash__", lambda self: 1)


def make_link_class():
  net, msgs, ser = _mods()

  class Peer(net.Link):
    """a link whose other end is the harness: records what is sent, delivers what is injected"""
    def __init__(self, name, cost=1):
      super().__init__(cost)
      self.name = name
      self.inbox = asyncio.Queue()
      self.sent = []
      self.told = {}        # id -> cost: announcements the neighbour holds
      self.told_addr = {}
      self.upstream = set() # topics this switch asked the neighbour for
      self.fail_send = False
    def __del__(self): pass
    async def _recv(self):
      m = await self.inbox.get()
      if isinstance(m, BaseException): raise m
      return m
    async def _send(self, message):
      await asyncio.sleep(0)     # a send on a real connection may have to wait
      if self.fail_send: raise net.ConnectionClosedError()
      self.sent.append(message)
      if isinstance(message, msgs.OutTopicsChangedMessage): _apply(self.told, message)
      elif isinstance(message, msgs.AddressesChangedMessage): _apply(self.told_addr, message)
      elif isinstance(message, msgs.InTopicsChangedMessage):
        for t in message.remove: self.upstream.discard(t)
        for t in message.add: self.upstream.add(t)
    def data(self): return [m for m in self.sent if isinstance(m, (msgs.DataMessage, msgs.TopicControlMessage))]
  return Peer


def _apply(table, message):
  for i in message.remove: table.pop(i, None)
  for p in message.add: table[p.id] = p.cost


class Net:
  """one real Switch with n harness links, plus the reference model"""
  def __init__(self, ctx, n, cost_hi=6):
    net, self.msgs, self.ser = _mods()
    stub_hash(ctx)
    self.ctx, self.n = ctx, n
    self.loop = ctx.loop()
    Peer = make_link_class()
    self.sw = self.loop.call(net.Switch)
    self.link_cost = [ctx.int(f"linkcost{i}", 1, cost_hi) for i in range(n)]
    self.links = [self.loop.call(Peer, f"L{i}", self.link_cost[i]) for i in range(n)]
    self.prov = [dict() for _ in range(n)]      # topic -> cost at this switch
    self.addr = [dict() for _ in range(n)]
    self.subs = [set() for _ in range(n)]
    self.alive = [True] * n
    self.last_control = {}
    self.broken = set()
    self.L = {t: t for t in (T0, T1)}
    self.offered = [set() for _ in range(n)]     # ids a link ever announced
    for l in self.links: self.loop.run_until_complete(self.sw.add_link(l))
    self.loop.drain()
  def join(self):
    """another link is attached"""
    i = self.n
    self.n += 1
    self.link_cost.append(self.ctx.int(f"linkcost{i}", 1, 6))
    self.links.append(self.loop.call(make_link_class(), f"L{i}", self.link_cost[i]))
    for l in (self.prov, self.addr): l.append({})
    self.subs.append(set())
    self.offered.append(set())
    self.alive.append(True)
    self.loop.run_until_complete(self.sw.add_link(self.links[i]))
    self.loop.drain()
  def deliver(self, i, message):
    self.links[i].inbox.put_nowait(message)
    self.loop.drain()
  def announce(self, i, t, c):
    m = self.msgs
    self.prov[i][t] = c + self.link_cost[i]
    self.offered[i].add(t)
    self.deliver(i, m.OutTopicsChangedMessage({m.PricedId(self.L[t], c)}, set()))
  def withdraw(self, i, t):
    self.prov[i].pop(t, None)
    self.deliver(i, self.msgs.OutTopicsChangedMessage(set(), {self.L[t]}))
  def announce_addr(self, i, t, c):
    m = self.msgs
    self.addr[i][t] = c + self.link_cost[i]
    self.offered[i].add(t)
    self.deliver(i, m.AddressesChangedMessage({m.PricedId(self.L[t], c)}, set()))
  def withdraw_addr(self, i, t):
    self.addr[i].pop(t, None)
    self.deliver(i, self.msgs.AddressesChangedMessage(set(), {self.L[t]}))
  def subscribe(self, i, t):
    self.subs[i].add(t)
    marks = self.marks()
    self.deliver(i, self.msgs.InTopicsChangedMessage({self.L[t]}, set()))
    for j, got in enumerate(self.news(marks)):
      if j == i and t in self.last_control and i in self.receiving():
        self.ctx.check(len(got) == 1 and isinstance(got[0], self.msgs.TopicControlMessage), "a new subscriber is told the pause state", (t, len(got)))
        self.ctx.check(int(got[0].topic) == t and got[0].paused == self.last_control[t], "the pause state is the last one")
      else: self.ctx.check(len(got) == 0, "subscribing delivers nothing else")
  def unsubscribe(self, i, t):
    self.subs[i].discard(t)
    self.deliver(i, self.msgs.InTopicsChangedMessage(set(), {self.L[t]}))
  def change_subs(self, i, add, remove):
    self.subs[i].add(add)
    self.subs[i].discard(remove)
    self.deliver(i, self.msgs.InTopicsChangedMessage({add}, {remove}))
  def announce2(self, i, ts, cs):
    m = self.msgs
    for t, c in zip(ts, cs):
      self.prov[i][t] = c + self.link_cost[i]
      self.offered[i].add(t)
    self.deliver(i, m.OutTopicsChangedMessage({m.PricedId(t, c) for t, c in zip(ts, cs)}, set()))
  def exchange(self, i, t, c, u):
    m = self.msgs
    self.prov[i][t] = c + self.link_cost[i]
    self.offered[i].add(t)
    self.prov[i].pop(u)
    self.deliver(i, m.OutTopicsChangedMessage({m.PricedId(t, c)}, {u}))
  def disconnect(self, i):
    self.alive[i] = False
    self.prov[i].clear(); self.subs[i].clear(); self.addr[i].clear()
    self.loop.call(self.links[i].close)
    self.loop.drain()
  def lose(self, i):
    """the connection drops: the next receive reports it"""
    self.alive[i] = False
    self.prov[i].clear(); self.subs[i].clear(); self.addr[i].clear()
    self.links[i].fail_send = True
    self.deliver(i, _mods()[0].ConnectionClosedError())
    self.ctx.check(self.links[i].closed, "a lost link is closed")
  def break_send(self, i):
    """half-broken connection: sends fail, the loss is not noticed yet"""
    self.broken.add(i)
    self.links[i].fail_send = True
  def marks(self): return [len(l.data()) for l in self.links]
  def news(self, marks): return [l.data()[m:] for l, m in zip(self.links, marks)]
  def receiving(self): return [i for i in self.live() if i not in self.broken]
  def send_data(self, i, t, step):
    v = self.ctx.int(f"payload{step}")
    marks = self.marks()
    self.deliver(i, self.msgs.TopicDataMessage(self.L[t], self.ser.RawData({"v": v})))
    self.expect_topic(i, t, marks, self.msgs.TopicDataMessage, lambda m: m.data.data["v"] == v)
  def send_control(self, i, t, paused):
    marks = self.marks()
    self.last_control[t] = paused
    self.deliver(i, self.msgs.TopicControlMessage(self.L[t], paused))
    self.expect_topic(i, t, marks, self.msgs.TopicControlMessage, lambda m: m.paused == paused)
  def expect_topic(self, i, t, marks, cls, same):
    ctx = self.ctx
    for j, got in enumerate(self.news(marks)):
      if j in self.receiving() and j != i and t in self.subs[j]:
        ctx.check(len(got) == 1, "every other subscriber receives it exactly once", (i, t, j, len(got)))
        ctx.check(type(got[0]) is cls and int(got[0].topic) == t, "same kind and topic")
        ctx.check(same(got[0]), "payload unchanged")
      else: ctx.check(len(got) == 0, "nobody else receives it", (i, t, j))
  def send_addressed(self, i, a, port, step):
    ctx = self.ctx
    v = ctx.int(f"payload{step}")
    marks = self.marks()
    self.deliver(i, self.msgs.AddressedMessage(self.L[a], port, self.ser.RawData({"v": v})))
    news = self.news(marks)
    got = [j for j, n in enumerate(news) for _ in n]
    provs = [j for j in self.live() if a in self.addr[j]]
    if not provs: ctx.check(got == [], "an unknown address is delivered to nobody", got)
    else:
      ctx.check(len(got) == 1, "delivered to exactly one link", (got, provs))
      j = got[0]
      ctx.check(j in provs, "delivered to a link that announced the address", (got, provs))
      for p in provs: ctx.check(self.addr[j][a] <= self.addr[p][a], "delivered along the cheapest link", (j, p))
      m = news[j][0]
      ctx.check(int(m.address) == a and m.port == port and m.data.data["v"] == v, "address, port and payload unchanged")
  def live(self): return [i for i in range(self.n) if self.alive[i]]
  def mincost(self, table, t):
    best = None
    for i in range(self.n):
      if t in table[i]: best = table[i][t] if best is None else self.ctx.Ite(table[i][t] < best, table[i][t], best)
    return best

  # ---- oracles
  def links_alive(self):
    for i in self.live():
      self.ctx.check(self.sw.link_manager.has_link(self.links[i]) and not self.links[i].closed, "link stays attached")
    for i in range(self.n):
      if not self.alive[i]: self.ctx.check(not self.sw.link_manager.has_link(self.links[i]), "closed link detached")
  def check_upstream(self, topics):
    ctx = self.ctx
    for t in topics:
      ups = [i for i in self.live() if t in {x for x in _ids(ctx, self.links[i].upstream)}]
      demand = any(t in s for s in self.subs)
      provs = [i for i in self.live() if t in self.prov[i]]
      if not demand: ctx.check(ups == [], "no upstream subscription without demand", (t, ups))
      elif not provs: ctx.check(ups == [], "no upstream subscription at a non-provider", (t, ups))
      else:
        ctx.check(len(ups) == 1, "exactly one upstream subscription", (t, ups, provs))
        u = ups[0]
        ctx.check(u in provs, "upstream is a provider", (t, u, provs))
        for p in provs: ctx.check(self.prov[u][t] <= self.prov[p][t], "upstream is the cheapest provider", (t, u, p))
  def check_told(self, topics, addresses=False):
    ctx = self.ctx
    table = self.addr if addresses else self.prov
    for t in topics:
      best = self.mincost(table, t)
      for i in self.live():
        told = {int(k): v for k, v in (self.links[i].told_addr if addresses else self.links[i].told).items()}
        if best is None: ctx.check(t not in told, "nothing announced that nobody provides", (t, i))
        elif t not in self.offered[i]:
          ctx.check(t in told, "announced to every neighbour that never provided it", (t, i))
          ctx.check(told[t] == best, "announced at the lowest available cost", (t, i, told[t], best))


def _ids(ctx, s): return [int(x) for x in s]


OPS = ["announce", "withdraw", "subscribe", "unsubscribe", "disconnect"]


def run_history(ctx, net, k, topics, ops, after, first=None, cost_hi=4, second=None, spread=0, strays=False):
  """k environment events; the kinds, links, topics and costs are symbolic inputs.  Links are interchangeable, so the
  first event is on link 0 and the second on link 0 or 1."""
  for step in range(k):
    if step < spread: op, i = first, step     # `spread` first events: the same kind on links 0, 1, 2 ...
    elif step == 0 and first is not None: op = first
    elif step == 1 and second is not None: op = second
    else: op = ctx.pick(f"op{step}", ops)
    if step < spread: pass
    elif step == 0: i = 0
    elif step == 1: i = ctx.choice(f"link{step}", min(2, net.n))
    else: i = ctx.choice(f"link{step}", net.n)
    if op == "join":
      if net.n > 3 or i != 0: ctx.assume(False)
      net.join()
      after()
      continue
    if not net.alive[i]: ctx.assume(False)
    if op == "disconnect": net.disconnect(i)
    elif op == "lose": net.lose(i)
    else:
      t = topics[ctx.choice(f"topic{step}", len(topics))] if step else topics[0]
      if op == "announce":
        if t in net.prov[i]: ctx.assume(False)      # a changed price needs a withdrawal first (see K1)
        net.announce(i, t, ctx.int(f"cost{step}", 0, cost_hi))
      elif op == "withdraw":
        if t not in net.prov[i] and not strays: ctx.assume(False)
        net.withdraw(i, t)
      elif op == "subscribe":
        if t in net.subs[i] and not strays: ctx.assume(False)
        net.subscribe(i, t)
      elif op == "unsubscribe":
        if t not in net.subs[i] and not strays: ctx.assume(False)
        net.unsubscribe(i, t)
      elif op == "announce_addr":
        if t in net.addr[i]: ctx.assume(False)
        net.announce_addr(i, t, ctx.int(f"cost{step}", 0, cost_hi))
      elif op == "withdraw_addr":
        if t not in net.addr[i]: ctx.assume(False)
        net.withdraw_addr(i, t)
      elif op == "change_subs":      # one message that subscribes to one topic and unsubscribes from the other
        u = topics[1 - topics.index(t)]
        ctx.assume(u in net.subs[i] and t not in net.subs[i])
        net.change_subs(i, t, u)
      elif op == "announce2":        # both topics in one message
        ctx.assume(not (set(topics) & set(net.prov[i])))
        net.announce2(i, topics, [ctx.int(f"cost{step}", 0, cost_hi), ctx.int(f"cost{step}b", 0, cost_hi)])
      elif op == "exchange":         # announce one topic and withdraw the other in one message
        u = topics[1 - topics.index(t)]
        ctx.assume(u in net.prov[i] and t not in net.prov[i])
        net.exchange(i, t, ctx.int(f"cost{step}", 0, cost_hi), u)
      elif op == "break": net.break_send(i)
      elif op == "send": net.send_data(i, t, step)
      elif op == "pause": net.send_control(i, t, ctx.flag(f"paused{step}"))
      elif op == "message": net.send_addressed(i, t, ctx.int(f"port{step}", 0, 10 ** 6), step)
    after()


def firsts(tier_k, ops, **kw): return [dict(k=tier_k, first=f, second=s, **kw) for f in ops[0] for s in ops[1]]


# ---------------------------------------------------------------- C01
meta("C01", bounds="one switch, 3 links, 2 topics, every history of 4 (1 topic) / 3 (2 topics) events (quick; one more in thorough) among subscribe, unsubscribe, data, pause/resume, disconnect, followed by a message from any link; every payload integer",
     outside="switches connected to each other (C05); sends that never complete; payloads are opaque to the switch and represented by one integer")


@harness("C01", "topic_delivery",
         shards=lambda tier: [dict(k=(4 if nt == 1 else 3) + (tier != "quick"), first=f, second=s, nt=nt) for nt in (1, 2)
                              for f in ("subscribe", "pause") for s in ("subscribe", "send", "pause", "disconnect")],
         must=["every other subscriber receives it exactly once", "payload unchanged", "nobody else receives it", "the pause state is the last one"])
def c01(ctx, k, first, second, nt):
  net = Net(ctx, 3)
  topics = [T0, T1][:nt]
  run_history(ctx, net, k, topics, ["subscribe", "unsubscribe", "send", "pause", "disconnect"] + (["change_subs"] if nt == 2 else []), lambda: None, first, second=second)
  net.links_alive()
  # whatever happened, a final message reaches exactly the current subscribers
  i = ctx.choice("last", 3)
  ctx.assume(net.alive[i])
  net.send_data(i, T0, k)
  ctx.observe("rx", [len(l.data()) for l in net.links])


# ---------------------------------------------------------------- C02
meta("C02", bounds="one switch, 3 links with symbolic link costs 1..6 and announced costs 0..4, 1 topic x every history of 4 (quick) / 5 (thorough) events, 2 topics x 4 / 5 events including messages that change both topics at once; redundant (repeated) announcements, withdrawals and subscriptions; sends may suspend",
     outside="a provider that changes its price without withdrawing first (known finding K1 under C03)")


@harness("C02", "subscription_follows_demand",
         shards=lambda tier: [dict(k=4 if tier == "quick" else 5, first=f, second=s, nt=1) for f in ("announce", "subscribe") for s in OPS if (f, s) not in (("announce", "unsubscribe"), ("subscribe", "withdraw"))]
                           + [dict(k=4 if tier == "quick" else 5, first=f, second=s, nt=2) for f in ("announce2", "subscribe") for s in (("subscribe", "announce", "announce2") if f == "subscribe" else ("subscribe", "exchange", "disconnect"))] + [dict(k=5 if tier == "quick" else 6, first="announce", second=None, nt=1, spread=3)],
         must=["exactly one upstream subscription", "upstream is the cheapest provider", "no upstream subscription without demand"])
def c02(ctx, k, first, second, nt, spread=0):
  net = Net(ctx, 3)
  topics = [T0, T1][:nt]
  ops = OPS + ["lose"] if nt == 1 else ["exchange", "withdraw", "subscribe", "change_subs"]
  run_history(ctx, net, k, topics, ops, lambda: (net.links_alive(), net.check_upstream(topics)), first, second=second, spread=spread)
  ctx.observe("up", [sorted(_ids(ctx, l.upstream)) for l in net.links])


@harness("C02", "redundant messages", shards=lambda tier: [dict(k=4 if tier == "quick" else 5, second=s) for s in ("announce", "subscribe", "unsubscribe", "withdraw")], must=["exactly one upstream subscription"])
def c02_redundant(ctx, k, second):
  """subscribing twice, unsubscribing or withdrawing what was not there: nobody else is affected"""
  net = Net(ctx, 3)
  run_history(ctx, net, k, [T0], ["announce", "withdraw", "subscribe", "unsubscribe"], lambda: (net.links_alive(), net.check_upstream([T0]), net.check_told([T0])), "announce", second=second, strays=True)


# ---------------------------------------------------------------- C03
meta("C03", bounds="one switch, 3 links (plus a link joining at any later point) with symbolic link costs 1..6 and announced costs 0..4, every history of 4 (quick) / 5 (thorough) announce/withdraw/disconnect/lose/join events, for topics and for addresses; 3 / 4 events over two topics changed in one message",
     outside="what a neighbour is told about an id it announced itself at some point (the switch does not tell it about remaining providers), networks with cycles, prices changed without withdrawing (K1)")


@harness("C03", "announcements_mirror_reachability",
         shards=lambda tier: [dict(k=4 if tier == "quick" else 5, nt=1, addr=a, second=s) for a in (0, 1) for s in ("announce", "withdraw", "disconnect", "join")]
                           + [dict(k=3 if tier == "quick" else 4, nt=2, addr=0, second=s) for s in ("announce2", "exchange", "disconnect")]
                           + [dict(k=5 if tier == "quick" else 6, nt=1, addr=a, second=None, spread=3) for a in (0, 1)],
         must=["announced at the lowest available cost", "nothing announced that nobody provides"])
def c03(ctx, k, nt, addr, second, spread=0):
  net = Net(ctx, 4 if spread else 3)
  topics = [T0, T1][:nt]
  sfx = "_addr" if addr else ""
  ops = ["announce" + sfx, "withdraw" + sfx, "disconnect", "lose", "join"]
  if spread: ops = ops[:3]
  if nt == 2: ops = ["announce2", "exchange", "withdraw", "disconnect", "join"]
  if second in ("announce", "withdraw"): second += sfx
  run_history(ctx, net, k, topics, ops, lambda: (net.links_alive(), net.check_told(topics, bool(addr))), ops[0], second=second, spread=spread)
  ctx.observe("told", [l.told_addr if addr else l.told for l in net.links])


@harness("C03", "repriced_announcement", known=True, shards=[dict(addr=0), dict(addr=1)])
def c03_k1(ctx, addr):
  """K1: an id announced again at another price and then withdrawn stays announced"""
  net = Net(ctx, 2)
  f, w = (net.announce_addr, net.withdraw_addr) if addr else (net.announce, net.withdraw)
  c0, c1 = ctx.int("cost0", 0, 5), ctx.int("cost1", 0, 5)
  f(0, T0, c0)
  f(0, T0, c1)
  w(0, T0)
  net.check_told([T0], bool(addr))


# ---------------------------------------------------------------- C04
meta("C04", bounds="one switch, 3 links with symbolic costs, every history of 4 (1 address) / 3 (2 addresses) events (quick; one more in thorough) among address announcements, withdrawals, disconnects, losses and messages, every port and payload integer, then a final message from every link",
     outside="prices changed without withdrawing (K1 under C03)")


@harness("C04", "addressed_routing",
         shards=lambda tier: [dict(k=(4 if nt == 1 else 3) + (tier != "quick"), nt=nt, second=s) for nt in (1, 2) for s in ("announce_addr", "withdraw_addr", "disconnect", "message", "lose")]
                           + [dict(k=5 if tier == "quick" else 6, nt=1, second=None, spread=3, order=o) for o in range(4)],
         must=["delivered along the cheapest link", "an unknown address is delivered to nobody", "address, port and payload unchanged"])
def c04(ctx, k, nt, second, spread=0, order=None):
  net = Net(ctx, 4 if spread else 3)
  run_history(ctx, net, k, [T0, T1][:nt], ["withdraw_addr", "announce_addr", "disconnect"] if spread else ["announce_addr", "withdraw_addr", "disconnect", "lose", "message"], lambda: None, "announce_addr", second=second, spread=spread)
  net.links_alive()
  i = order if order is not None else ctx.choice("last", net.n)
  ctx.assume(net.alive[i])
  net.send_addressed(i, T0, ctx.int("portlast", 0, 10 ** 6), k)
  ctx.observe("rx", [len(l.data()) for l in net.links])


# ---------------------------------------------------------------- C05
meta("C05", bounds="2 or 3 real switches in a line joined by the in-process queue connection, one endpoint per switch, 1 topic or address with one provider at a time, every history of 5 (2 switches) / 4 (3 switches) events (one more in thorough) among announce, withdraw, subscribe, unsubscribe, cut, reconnect, followed by a message",
     outside="networks with cycles, several simultaneous providers of one id (C02, C03 treat them at one switch), real sockets")


class Line:
  def __init__(self, ctx, n):
    self.netm, self.msgs, self.ser = _mods()
    stub_hash(ctx)
    self.ctx, self.n = ctx, n
    self.loop = ctx.loop()
    Peer = make_link_class()
    self.sw = [self.loop.call(self.netm.Switch) for _ in range(n)]
    self.peers = [self.loop.call(Peer, f"P{i}", ctx.int(f"cost{i}", 1, 3)) for i in range(n)]
    self.conn = [None] * (n - 1)
    self.provider = None
    self.subs = set()
    for i in range(n): self.loop.run_until_complete(self.sw[i].add_link(self.peers[i]))
    for i in range(n - 1): self.connect(i)
  def connect(self, i):
    async def go():
      a, b = self.netm.create_queue_connection()
      await self.sw[i].add_link(a)
      await self.sw[i + 1].add_link(b)
      return a, b
    self.conn[i] = self.loop.run_until_complete(go())
    self.loop.drain()
  def cut(self, i):
    self.loop.call(self.conn[i][0].close)
    self.conn[i] = None
    self.loop.drain()
  def reachable(self, a, b): return all(self.conn[k] is not None for k in range(min(a, b), max(a, b)))
  def deliver(self, i, m):
    self.peers[i].inbox.put_nowait(m)
    self.loop.drain()


@harness("C05", "end_to_end_topics", shards=lambda tier: [dict(n=n, k=(5 if n == 2 else 4) + (tier != "quick"), second=s) for n in (2, 3) for s in ("announce", "subscribe", "cut")],
         must=["every reachable subscriber receives it exactly once", "nobody else receives it", "the provider is asked for the topic exactly while a reachable subscriber wants it"])
def c05(ctx, n, k, second):
  net = Line(ctx, n)
  m = net.msgs
  for step in range(k):
    op = second if step == 0 else ctx.pick(f"op{step}", ["announce", "withdraw", "subscribe", "unsubscribe", "cut", "connect"])
    if op in ("cut", "connect"):
      c = ctx.choice(f"conn{step}", n - 1)
      ctx.assume((net.conn[c] is None) == (op == "connect"))
      (net.cut if op == "cut" else net.connect)(c)
    elif op == "announce":
      ctx.assume(net.provider is None)
      net.provider = ctx.choice(f"peer{step}", n)
      net.deliver(net.provider, m.OutTopicsChangedMessage({m.PricedId(T0, ctx.int(f"price{step}", 0, 3))}, set()))
    elif op == "withdraw":
      ctx.assume(net.provider is not None)
      net.deliver(net.provider, m.OutTopicsChangedMessage(set(), {T0}))
      net.provider = None
    else:
      i = ctx.choice(f"peer{step}", n)
      ctx.assume((i in net.subs) == (op == "unsubscribe") and i != net.provider)
      if op == "subscribe":
        net.subs.add(i)
        net.deliver(i, m.InTopicsChangedMessage({T0}, set()))
      else:
        net.subs.discard(i)
        net.deliver(i, m.InTopicsChangedMessage(set(), {T0}))
  p = net.provider
  ctx.assume(p is not None and p not in net.subs)
  want = {i for i in net.subs if net.reachable(i, p)}
  ctx.check((T0 in net.peers[p].upstream) == bool(want), "the provider is asked for the topic exactly while a reachable subscriber wants it", (p, want))
  v = ctx.int("payload")
  paused = ctx.flag("control")
  marks = [len(x.data()) for x in net.peers]
  net.deliver(p, m.TopicControlMessage(T0, True) if paused else m.TopicDataMessage(T0, net.ser.RawData({"v": v})))
  for i, x in enumerate(net.peers):
    got = x.data()[marks[i]:]
    if i in want:
      ctx.check(len(got) == 1, "every reachable subscriber receives it exactly once", (i, len(got)))
      ctx.check(got[0].paused is True if paused else got[0].data.data["v"] == v, "payload unchanged")
    else: ctx.check(len(got) == 0, "nobody else receives it", i)
  for i, x in enumerate(net.peers):
    if i != p: ctx.check((T0 in x.told) == net.reachable(i, p), "a topic is announced exactly where it can be reached", i)
  ctx.observe("rx", [len(x.data()) for x in net.peers])


@harness("C05", "end_to_end_addresses", shards=lambda tier: [dict(n=n, k=(5 if n == 2 else 4) + (tier != "quick")) for n in (2, 3)],
         must=["an addressed message reaches the owner of the address exactly once", "a message to an unreachable address is dropped"])
def c05_addr(ctx, n, k):
  net = Line(ctx, n)
  m = net.msgs
  for step in range(k):
    op = ctx.pick(f"op{step}", ["announce", "withdraw", "cut", "connect"])
    if op in ("cut", "connect"):
      c = ctx.choice(f"conn{step}", n - 1)
      ctx.assume((net.conn[c] is None) == (op == "connect"))
      (net.cut if op == "cut" else net.connect)(c)
    elif op == "announce":
      ctx.assume(net.provider is None)
      net.provider = ctx.choice(f"peer{step}", n)
      net.deliver(net.provider, m.AddressesChangedMessage({m.PricedId(T0, ctx.int(f"price{step}", 0, 3))}, set()))
    elif op == "withdraw":
      ctx.assume(net.provider is not None)
      net.deliver(net.provider, m.AddressesChangedMessage(set(), {T0}))
      net.provider = None
  s = ctx.choice("sender", n)
  ctx.assume(s != net.provider)
  v, port = ctx.int("payload"), ctx.int("port", 0, 10 ** 6)
  marks = [len(x.data()) for x in net.peers]
  net.deliver(s, m.AddressedMessage(T0, port, net.ser.RawData({"v": v})))
  ok = net.provider is not None and net.reachable(s, net.provider)
  for i, x in enumerate(net.peers):
    got = x.data()[marks[i]:]
    if ok and i == net.provider:
      ctx.check(len(got) == 1, "an addressed message reaches the owner of the address exactly once", (i, len(got)))
      ctx.check(got[0].port == port and got[0].data.data["v"] == v, "port and payload unchanged")
    else: ctx.check(len(got) == 0, "a message to an unreachable address is dropped" if not ok else "an addressed message reaches nobody else", i)
  ctx.observe("rx", [len(x.data()) for x in net.peers])


# ---------------------------------------------------------------- C06
meta("C06", bounds="one switch, 3 links, 1 topic; every history of 4 (quick) / 5 (thorough) events among announce, subscribe, data, half-broken link (sends fail from now on), lost link, closed link, then a message from every surviving link and, once every broken link is noticed, the subscription and announcement state",
     outside="sends that hang forever")


@harness("C06", "failure_isolation",
         shards=lambda tier: [dict(k=4 if tier == "quick" else 5, first=f, second=s) for f in ("announce", "subscribe") for s in ("announce", "subscribe", "break", "lose")],
         must=["every other subscriber receives it exactly once", "link stays attached", "upstream is a provider", "closed link detached"])
def c06(ctx, k, first, second):
  net = Net(ctx, 3)
  run_history(ctx, net, k, [T0], ["announce", "subscribe", "send", "break", "lose", "disconnect"], net.links_alive, first, second=second)
  i = ctx.choice("last", 3)
  ctx.assume(net.alive[i])
  net.send_data(i, T0, k)
  net.links_alive()
  for j in sorted(net.broken):
    if net.alive[j]: net.lose(j)
  net.links_alive()
  net.check_upstream([T0])
  net.check_told([T0])
  ctx.observe("rx", [len(l.data()) for l in net.links])


# ---------------------------------------------------------------- C07
meta("C07", bounds="topic maps of 2 entries with symbolic distinct internal and external ids, message ids that are mapped or do not occur in the map at all, every kind of message, sets of 2 ids, symbolic costs and payloads",
     outside="maps that are not one-to-one")


@harness("C07", "topic_remapping",
         shards=[dict(kind=k, out=o) for k in ("data", "control", "in", "outt", "addr", "addressed") for o in (0, 1)],
         must=["mapped both ways"])
def c07(ctx, kind, out):
  net, msgs, ser = _mods()
  stub_hash(ctx)
  loop = ctx.loop()
  ints = [ctx.int(f"internal{i}", 0, 50) for i in range(2)]
  exts = [ctx.int(f"external{i}", 100, 150) for i in range(2)]
  ctx.assume(ints[0] != ints[1])
  ctx.assume(exts[0] != exts[1])
  other = ctx.int("unmapped", 200, 250)
  inner = loop.call(make_link_class(), "inner", 2)
  link = loop.call(net.TopicRemappingLink, inner, dict(zip(ints, exts)))
  src, dst = (ints, exts) if out else (exts, ints)
  sel = [ctx.choice(f"sel{i}", 3) for i in range(2)]
  ctx.assume(sel[0] != sel[1])
  pool_src, pool_dst = [*src, other], [*dst, other]
  a, b = (pool_src[s] for s in sel)
  ea, eb = (pool_dst[s] for s in sel)
  v, cost = ctx.int("payload"), ctx.int("cost", 0, 9)
  flag = ctx.flag("paused")
  held = [ctx.flag("held"), True]
  m = {"data": lambda: msgs.TopicDataMessage(a, ser.RawData({"v": v})), "control": lambda: msgs.TopicControlMessage(a, flag),
       "in": lambda: msgs.InTopicsChangedMessage({a}, {b}), "outt": lambda: msgs.OutTopicsChangedMessage({msgs.PricedId(a, cost)}, {b}),
       "addr": lambda: msgs.AddressesChangedMessage({msgs.PricedId(a, cost)}, {b}), "addressed": lambda: msgs.AddressedMessage(a, v, ser.RawData({"v": v}))}[kind]()
  if not out and kind in ("in", "outt"):
    # b must be known before it can be withdrawn
    inner.inbox.put_nowait(msgs.InTopicsChangedMessage({b}, set()) if kind == "in" else msgs.OutTopicsChangedMessage({msgs.PricedId(b, cost)}, set()))
    loop.run_until_complete(link.recv())
  if out:
    loop.run_until_complete(link.send(m))
    got = inner.sent[-1]
  else:
    inner.inbox.put_nowait(m)
    got = loop.run_until_complete(link.recv())
  one = lambda s: next(iter(s))
  L = "mapped both ways"
  if kind == "data": ctx.check(ctx.And(got.topic == ea, got.data.data["v"] == v), L)
  elif kind == "control": ctx.check(ctx.And(got.topic == ea, got.paused == flag), L)
  elif kind == "in": ctx.check(len(got.add) == 1 and len(got.remove) == 1 and ctx.And(one(got.add) == ea, one(got.remove) == eb), L)
  elif kind == "outt":
    ctx.check(len(got.add) == 1 and len(got.remove) == 1, "one id added and one removed")
    r = one(got.remove)
    ctx.check(ctx.And(one(got.add).id == ea, (r if out else r.id) == eb, one(got.add).cost == (cost if out else cost + 2)), L)
  elif kind == "addr": ctx.check(one(got.add).id == a, L)      # addresses are not topics
  else: ctx.check(ctx.And(got.address == a, got.port == v), L)
