"""Services behind the web interface: named topics, ASGI, stores, task life cycle."""
import asyncio
import json
import streamtasks.client, streamtasks.utils
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.system import named_topic_manager, secret_manager
from streamtasks.services.constants import NetworkAddressNames
from uuid import UUID
from streamtasks.system.tasks import namedinput, namedoutput
from symx.harness import harness, meta
from props.net import _mods


class FakeDB:
  """contract of PydanticDB without the file"""
  def __init__(self, model=None, filename=None): self._e, self.saved = [], []
  @property
  def entries(self): return list(self._e)
  def update(self, entries): self._e = list(entries)
  def save(self): self.saved = list(self._e)
  def load(self): self._e = list(self.saved)


class Net:
  """discovery and clients on one switch; connections that serialise what they carry"""
  def __init__(self, ctx, raw=True):
    from symx.modelpatch import stub_msgpack
    net, self.msgs, self.ser = _mods()
    self.ctx, self.net, self.raw, self.loop = ctx, net, raw, ctx.loop()
    stub_msgpack(ctx)
    self.d = self.loop.call(DiscoveryWorker)
    self.sw = self.loop.call(net.Switch)
    self.attach(self.d.switch)
    self.loop.spawn(self.d.run())
    self.loop.advance(1)
  def attach(self, switch):
    async def f():
      a, b = self.net.create_queue_connection(raw=self.raw)
      await self.sw.add_link(a)
      await switch.add_link(b)
    self.loop.run_until_complete(f())
  def link(self):
    async def f():
      a, b = self.net.create_queue_connection(raw=self.raw)
      await self.sw.add_link(a)
      return b
    return self.loop.run_until_complete(f())
  def client(self, address=True):
    from streamtasks.client import Client
    c = self.loop.call(Client, self.link())
    if address:
      c.start()
      self.loop.run_until_complete(c.request_address())
    return c


# ---------------------------------------------------------------- C41 named topics
meta("C41", bounds="1 to 3 named inputs and outputs over two names in every order of starting, manager and nodes on connections that serialise, 2 messages and a pause with symbolic payloads; every history of up to 3 (quick) / 4 (thorough) list, get, put, delete and resolve requests over two names",
     outside="restarts of the manager; the file behind it (C31)")


@harness("C41", "transfer", shards=lambda tier: [dict(nodes=n) for n in (["ox", "ix"], ["ix", "ox"], ["ox", "iy"], ["ox", "ix", "iy"], ["iy", "ox", "ix"], ["ox", "ix", "ix"], ["ox", "oy", "iy", "ix"])], must=["what goes into a name comes out at that name"], model_patch=True)
def c41(ctx, nodes):
  n = Net(ctx)
  ctx.stub(named_topic_manager, "PydanticDB", FakeDB)
  ctx.stub(named_topic_manager, "get_data_sub_dir", lambda *a: "/nowhere")
  m = n.loop.call(named_topic_manager.NamedTopicManager)
  m.client = n.client()
  async def serve():
    async with named_topic_manager.address_name_context(m.client, named_topic_manager.NetworkAddressNames.NAMED_TOPIC_MANAGER): await m.run_fetch_server()
  n.loop.spawn(serve())
  n.loop.advance(1)
  from streamtasks.client import Client
  jobs, ins, outs = [], [], []
  for k, x in enumerate(nodes):
    c = n.client(address=False)
    if x[0] == "o":
      t = n.loop.call(namedoutput.NamedOutputTask, c, namedoutput.NamedOutputConfig(name=x[1], metadata={"k": k}, in_topic=10 + k))
      outs.append((x[1], 10 + k))
    else:
      t = n.loop.call(namedinput.NamedInputTask, c, namedinput.NamedInputConfig(name=x[1], out_topic=10 + k))
      ins.append((x[1], 10 + k))
    jobs.append(n.loop.spawn(t.run()))
    n.loop.advance(1)
  probe = n.client()
  got = {t: [] for _, t in ins}
  async def listen(t):
    it = probe.in_topic(t)
    async with it, it.RegisterContext():
      while True:
        d = await it.recv_data_control()
        got[t].append(d.paused if isinstance(d, n.msgs.TopicControlData) else d.data)
  for t in got: n.loop.spawn(listen(t))
  send = {}
  async def register(t):
    ot = probe.out_topic(t)
    send[t] = ot
    async with ot, ot.RegisterContext(): await asyncio.Future()
  for _, t in outs: n.loop.spawn(register(t))
  n.loop.advance(1)
  for k, (name, t) in enumerate(outs):
    p = ctx.int(f"payload{k}", 0, 100)
    n.loop.run_until_complete(send[t].send(n.ser.RawData({"p": p})))
    n.loop.advance(1)
    n.loop.run_until_complete(send[t].set_paused(True))
    n.loop.advance(1)
    for iname, it in ins:
      r = got[it]
      if iname == name:
        ctx.check(len(r) == 2 and r[1] is True, "what goes into a name comes out at that name", (name, r, [j.done() for j in jobs]))
        ctx.check(r[0]["p"] == p, "what goes into a name comes out at that name")
      else: ctx.check(not r, "nothing comes out at another name", (iname, r))
      r.clear()
  ctx.check(not any(j.done() for j in jobs), "the nodes keep running")


OPS41 = ["list", "get", "put", "delete", "resolve"]


@harness("C41", "requests", shards=lambda tier: [dict(first=f, second=s, n=3 if tier == "quick" else 4) for f in OPS41 for s in OPS41], must=["a name keeps its topic", "different names have different topics", "listing and getting tell what was put"], model_patch=True)
def c41_requests(ctx, first, second, n):
  net = Net(ctx)
  ctx.stub(named_topic_manager, "PydanticDB", FakeDB)
  ctx.stub(named_topic_manager, "get_data_sub_dir", lambda *a: "/nowhere")
  from streamtasks.client.fetch import FetchError
  m = net.loop.call(named_topic_manager.NamedTopicManager)
  m.client = net.client()
  async def serve():
    async with named_topic_manager.address_name_context(m.client, named_topic_manager.NetworkAddressNames.NAMED_TOPIC_MANAGER): await m.run_fetch_server()
  net.loop.spawn(serve())
  net.loop.advance(1)
  c = net.client()
  def fetch(desc, body):
    async def f():
      try: return await c.fetch(named_topic_manager.NetworkAddressNames.NAMED_TOPIC_MANAGER, desc, body)
      except FetchError as e: return e
    return net.loop.run_until_complete(asyncio.wait_for(f(), 5))
  model, topics = {}, {}
  names = (("a", "b"), ("a", "A"))[ctx.choice("names", 2)]
  for k in range(n):
    op = (first, second)[k] if k < 2 else ctx.pick(f"op{k}", OPS41)
    name = names[ctx.choice(f"name{k}", 2)] if op != "list" else None
    if op == "list":
      r = fetch("list_named_topics", None)
      ctx.check({e["name"]: e["metadata"] for e in r} == model and len(r) == len(model), "listing and getting tell what was put", (r, model))
    elif op == "get":
      r = fetch("get_named_topic", {"name": name})
      if name in model: ctx.check(r == {"name": name, "metadata": model[name]}, "listing and getting tell what was put", (r, model))
      else: ctx.check(isinstance(r, FetchError), "listing and getting tell what was put", r)
    elif op == "put":
      md = {"v": k}
      fetch("put_named_topic", {"name": name, "metadata": md})
      model[name] = md
    elif op == "delete":
      fetch("delete_named_topic", {"name": name})
      model.pop(name, None)
    else:
      r = fetch("resolve_named_topic", {"name": name})
      t = r["topic"]
      if name in topics: ctx.check(t == topics[name], "a name keeps its topic", (r, topics))
      topics[name] = t
      model.setdefault(name, {})
      if len(topics) == 2: ctx.check(len(set(topics.values())) == 2, "different names have different topics", topics)
    if op in ("put", "delete"): ctx.check({e.name for e in m.db.saved} == set(model), "changes are saved", (m.db.saved, model))
  for name in list(topics): ctx.check(fetch("resolve_named_topic", {"name": name})["topic"] == topics[name], "a name keeps its topic")


# ---------------------------------------------------------------- C42 secrets
meta("C42", bounds="every history of up to 3 (quick) / 4 (thorough) put, resolve and delete requests over two ids with symbolic one-character values, on connections that serialise, with the named topic manager running beside the secret manager in both orders of starting",
     outside="the file behind it (C31), the web interface of the manager")
IDS = [UUID("6a3f1b60-1c2d-4e3f-8a9b-0c1d2e3f4a5b"), UUID("7b4f1b60-1c2d-4e3f-8a9b-0c1d2e3f4a5c")]


def _manager(ctx, n, mod, cls, name):
  ctx.stub(mod, "PydanticDB", FakeDB)
  ctx.stub(mod, "get_data_sub_dir", lambda *a: "/nowhere")
  m = n.loop.call(cls)
  m.client = n.client()
  async def idle(): await asyncio.Future()
  m.run_web_server = idle
  n.loop.spawn(m.run_inner())
  n.loop.advance(1)
  return m


@harness("C42", "requests", shards=lambda tier: [dict(order=o, first=f, n=3 if tier == "quick" else 4) for o in (0, 1) for f in range(3)], must=["a secret is what was last put", "an unknown secret is reported as such", "named topics keep working"], model_patch=True)
def c42(ctx, order, first, n):
  from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
  net = Net(ctx)
  kinds = [(named_topic_manager, named_topic_manager.NamedTopicManager, "n"), (secret_manager, secret_manager.SecretManager, "s")]
  ms = {k: _manager(ctx, net, mod, cls, k) for mod, cls, k in (kinds if order == 0 else kinds[::-1])}
  c = net.client()
  sc = net.loop.call(secret_manager.SecretManagerClient, c)
  def do(coro):
    async def f():
      try: return await asyncio.wait_for(coro, 5)
      except (FetchError, TimeoutError) as e: return e
    return net.loop.run_until_complete(f())
  model = {}
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 3)
    i = ctx.choice(f"id{k}", 2)
    if op == 0:
      v = ctx.str(f"value{k}", 1)
      r = do(sc.put_secret(IDS[i], v))
      ctx.check(r is None, "a secret is what was last put", r)
      model[i] = v
    elif op == 1:
      ctx.check(do(sc.delete_secret(IDS[i])) is None, "deleting succeeds")
      model.pop(i, None)
    if op != 2: ctx.check(len(ms["s"].db.saved) == len(model), "changes are saved")
    for j in range(2):
      r = do(sc.resolve_secret(IDS[j]))
      if j in model: ctx.check(isinstance(r, str) and r == model[j], "a secret is what was last put", (r, model))
      else: ctx.check(isinstance(r, FetchError) and r.status_code == FetchErrorStatusCode.NOT_FOUND, "an unknown secret is reported as such", r)
  r = do(c.fetch(NetworkAddressNames.NAMED_TOPIC_MANAGER, "resolve_named_topic", {"name": "x"}))
  ctx.check(isinstance(r, dict) and "topic" in r, "named topics keep working", r)


# ---------------------------------------------------------------- C30 life cycle of tasks
meta("C30", bounds="one manager, one or two hosts and a watching client on connections that serialise; a task whose start, end, failure or cancellation falls at every step (callback of the event loop) of the exchange the start takes; every history of up to 4 (quick) / 5 (thorough) operations over two tasks; tasks whose construction or set-up fails or takes too long; hosts shutting down with 0 to 2 running tasks",
     outside="processes that die, connections that break (C05), threads of synchronous tasks")
from streamtasks.system import task as task_module
from types import SimpleNamespace


class ScriptTask(task_module.Task):
  def __init__(self, client, host, config):
    super().__init__(client)
    self.host, self.config, self.gate, self.stage = host, config, asyncio.Event(), "made"
    self.error = None
  async def setup(self):
    if self.config in ("setup-raises", {"v": "setup-raises"}): raise ValueError("setup failed")
    if self.config == "setup-hangs": await asyncio.sleep(100)
    return {"made": "yes"}
  async def run(self):
    self.stage = "running"
    try:
      if self.config != "instant" and self.config != "instant-fail": await self.gate.wait()
      if self.config == "instant-fail": raise ValueError("it failed")
      if self.error: raise ValueError(self.error)
      self.stage = "ended"
    except asyncio.CancelledError:
      self.stage = "stopped"
      raise
    except ValueError:
      self.stage = "failed"
      raise


class ScriptHost(task_module.TaskHost):
  def __init__(self, eps):
    super().__init__(eps)
    self.made = []
  async def create_task(self, config, topic_space_id):
    if config == "create-raises": raise ValueError("create failed")
    t = ScriptTask(await self.create_client(topic_space_id), self, config)
    self.made.append(t)
    return t


class Tasks:
  def __init__(self, ctx, hosts=1):
    self.ctx, self.n = ctx, Net(ctx)
    ctx.stub(task_module, "gc", SimpleNamespace(collect=lambda: 0))
    ids = iter(range(1, 99))
    ctx.stub(task_module, "uuid4", lambda: UUID(int=(4 << 76) | (8 << 60) | next(ids)))
    n = self.n
    self.tm = n.loop.call(task_module.TaskManager)
    n.attach(self.tm.switch)
    self.tmjob = n.loop.spawn(self.tm.run())
    n.loop.advance(1)
    self.hosts, self.hostjobs = [], []
    for k in range(hosts): self.add_host(k)
    self.c = n.client()
    self.tc = n.loop.call(task_module.TaskManagerClient, self.c)
    self.heard, self.forgotten = {}, set()
  def add_host(self, k):
    h = self.n.loop.call(ScriptHost, [NetworkAddressNames.TASK_MANAGER])
    h.id = f"host{k}"
    self.n.attach(h.switch)
    self.hosts.append(h)
    self.hostjobs.append(self.n.loop.spawn(h.run()))
    self.n.loop.advance(1)
  def do(self, coro):
    from streamtasks.client.fetch import FetchError
    async def f():
      try: return await asyncio.wait_for(coro, 20)
      except (FetchError, TimeoutError, task_module.TaskNotFoundError) as e: return e
    return self.n.loop.run_until_complete(f())
  def job(self, coro):
    from streamtasks.client.fetch import FetchError
    async def f():
      try: return await asyncio.wait_for(coro, 20)
      except (FetchError, TimeoutError, task_module.TaskNotFoundError) as e: return e
    return self.n.loop.spawn(f())
  def watch(self, tid):
    self.heard[tid] = []
    async def listen():
      async with self.tc.task_receiver([tid]) as r:
        while True: self.heard[tid].append(await r.get())
    self.n.loop.spawn(listen())
    self.n.loop.advance(1)
  def schedule(self, k=0):
    t = self.do(self.tc.schedule_task(f"host{k}"))
    self.watch(t.id)
    return t.id
  def status(self, tid):
    from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
    r = self.do(self.tc.get_task(tid))
    if isinstance(r, FetchError): return "unknown" if r.status_code == FetchErrorStatusCode.NOT_FOUND else r
    return r if isinstance(r, BaseException) else r.status.value
  def settled(self, tid, task, started=True):
    """what everyone knows about a task agrees with what it does"""
    ctx = self.ctx
    st = self.status(tid)
    stage = None if task is None else task.stage
    finals = [x for x in self.heard[tid] if not x.status.is_active]
    if stage == "running":
      ctx.check(st == "running", "a running task is listed as running", st)
      ctx.check(not finals, "no end is told before the end", finals)
      ctx.check(any(tid in h.tasks for h in self.hosts), "a running task can be cancelled")
    elif stage in ("ended", "failed", "stopped"):
      ctx.check(st == "unknown", "a task that ended is no longer listed", (st, stage))
      ctx.check([x.status.value for x in finals] == [stage], "the end is told once, with how it ended", (finals, stage))
      ctx.check((finals[0].error is None) == (stage != "failed"), "a failure comes with its error", finals)
      ctx.check(not any(tid in h.tasks for h in self.hosts), "nothing is left of a task that ended")


@harness("C30", "moments", shards=lambda tier: [dict(what=w, lo=lo, hi=lo + 24) for w in ("end", "fail", "cancel", "cancel_wait") for lo in range(0, 120, 25)], must=["settled"], model_patch=True)
def c30_moments(ctx, what, lo, hi):
  s = Tasks(ctx)
  tid = s.schedule()
  start = s.job(s.tc.start_task(tid, "wait"))
  at = ctx.int("step", lo, hi)
  s.n.loop.steps_(int(at))
  act = None
  if what in ("end", "fail"):
    if not s.hosts[0].made: return
    t = s.hosts[0].made[0]
    if what == "fail": t.error = "it failed"
    t.gate.set()
  elif what == "cancel": act = s.job(s.tc.cancel_task(tid))
  else: act = s.job(s.tc.cancel_task_wait(tid))
  s.n.loop.advance(30)
  ctx.reach("settled")
  ctx.check(start.done() and isinstance(start.result(), task_module.TaskInstance), "starting is answered", start.result() if start.done() else None)
  t = s.hosts[0].made[0] if s.hosts[0].made else None
  if act is not None:
    r = act.result()
    ctx.check(not isinstance(r, TimeoutError), "cancelling is answered", r)
    if what == "cancel" and r is None: ctx.check(t.stage in ("stopped", "made"), "a cancelled task stops", t.stage)
    if what == "cancel_wait" and not isinstance(r, BaseException): ctx.check(r.status.value == "stopped", "waiting for the cancellation returns the stopped task", r)
  s.settled(tid, t)


@harness("C30", "failing", shards=lambda tier: [dict(kind=k) for k in ("setup-raises", "setup-hangs", "create-raises", "instant", "instant-fail", "no host", "gone host", "unknown", "twice", "scheduled only")], must=["settled"], model_patch=True)
def c30_failing(ctx, kind):
  from streamtasks.client.fetch import FetchError
  s = Tasks(ctx)
  if kind == "unknown":
    for r in (s.do(s.tc.get_task(IDS[0])), s.do(s.tc.start_task(IDS[0], "wait")), s.do(s.tc.cancel_task(IDS[0])), s.do(s.tc.get_task_host("nobody"))):
      ctx.check(isinstance(r, FetchError), "an unknown task is reported as such", r)
    ctx.check(isinstance(s.do(s.tc.cancel_task_wait(IDS[0])), task_module.TaskNotFoundError), "an unknown task is reported as such")
    n = ctx.choice("stray", 2)
    if n: s.do(task_module.send_signal(s.c, NetworkAddressNames.TASK_MANAGER, task_module.TaskConstants.SD_TM_TASK_REPORT, task_module.TaskReport(id=IDS[0], error=None, status=task_module.TaskStatus.ended).model_dump()))
    s.n.loop.advance(1)
    kind = "wait"
  tid = s.schedule(5 if kind == "no host" else 0)
  if kind == "twice":
    r1 = s.do(s.tc.start_task(tid, "wait"))
    r2 = s.do(s.tc.start_task(tid, "wait"))
    ctx.check(isinstance(r1, task_module.TaskInstance) and isinstance(r2, FetchError) and len(s.hosts[0].made) == 1, "a task is started once", (r1, r2))
    s.settled(tid, s.hosts[0].made[0])
    s.do(s.tc.cancel_task_wait(tid))
    s.n.loop.advance(1)
    s.settled(tid, s.hosts[0].made[0])
    return ctx.reach("settled")
  if kind == "scheduled only":
    r = s.do(s.tc.cancel_task_wait(tid))
    ctx.check(isinstance(r, task_module.TaskInstance) and r.status.value == "stopped" and s.status(tid) == "unknown", "a scheduled task can be cancelled", r)
    r = s.do(s.tc.start_task(tid, "wait"))
    ctx.check(isinstance(r, FetchError) and not s.hosts[0].made, "a cancelled task is not started", r)
    return ctx.reach("settled")
  if kind == "gone host":
    s.do(s.hosts[0].unregister())
    s.n.loop.advance(1)
  other = s.schedule() if kind not in ("no host", "gone host") else None
  r = s.do(s.tc.start_task(tid, kind))
  s.n.loop.advance(10)
  if kind in ("setup-raises", "setup-hangs", "create-raises"):
    ctx.check(isinstance(r, task_module.TaskInstance) and r.status.value == "failed" and r.error is not None, "a task that cannot be set up is answered as failed", r)
    ctx.check(s.status(tid) == "unknown" and not any(t.stage == "running" for t in s.hosts[0].made) and not s.hosts[0].tasks, "a task that cannot be set up does not run")
  elif kind in ("instant", "instant-fail"):
    ctx.check(isinstance(r, task_module.TaskInstance), "starting is answered", r)
    s.settled(tid, s.hosts[0].made[0])
    ctx.check(isinstance(s.do(s.tc.cancel_task(tid)), FetchError), "cancelling a task that ended is refused")
  elif kind in ("no host", "gone host"): ctx.check(isinstance(r, FetchError), "a task of an unknown host is not started", r)
  else:
    ctx.check(isinstance(r, task_module.TaskInstance) and r.status.value == "running" and r.metadata == {"made": "yes"}, "starting is answered", r)
    s.settled(tid, s.hosts[0].made[0])
  # the manager and the host keep working
  if other:
    n = len(s.hosts[0].made)
    r = s.do(s.tc.start_task(other, "wait"))
    ctx.check(isinstance(r, task_module.TaskInstance) and r.status.value == "running", "others can be started afterwards", r)
    s.settled(other, s.hosts[0].made[n])
    r = s.do(s.tc.cancel_task_wait(other))
    ctx.check(isinstance(r, task_module.TaskInstance) and r.status.value == "stopped", "waiting for the cancellation returns the stopped task", r)
    s.n.loop.advance(1)
    s.settled(other, s.hosts[0].made[n])
  ctx.check(not s.tmjob.done() and not s.hostjobs[0].done(), "the manager and the host keep running")
  ctx.reach("settled")


@harness("C30", "histories", shards=lambda tier: [dict(first=f, second=g, n=4 if tier == "quick" else 5) for f in range(5) for g in range(6)], must=["settled"], model_patch=True)
def c30_histories(ctx, first, second, n):
  from streamtasks.client.fetch import FetchError
  s = Tasks(ctx, hosts=2)
  runs = {}     # tid -> (host, task)
  tids = []
  def start(k):
    tid = s.schedule(k)
    r = s.do(s.tc.start_task(tid, "wait"))
    ctx.check(isinstance(r, task_module.TaskInstance) and r.status.value == "running" and r.host_id == f"host{k}" and r.id == tid, "starting is answered", r)
    tids.append(tid)
    runs[tid] = (k, s.hosts[k].made[-1])
  gone = set()
  for i in range(n):
    op = first if i == 0 else second if i == 1 else ctx.choice(f"op{i}", 6)
    if op < 2:
      if op in gone:
        s.do(s.hosts[op].register())
        gone.discard(op)
      start(op)
    elif op == 5:
      k = ctx.choice(f"host{i}", 2)
      if k in gone: continue
      s.do(s.hosts[k].unregister())
      gone.add(k)
    else:
      alive = [t for t in tids if runs[t][1].stage == "running"]
      if not alive: return
      tid = ctx.pick(f"task{i}", alive)
      k, t = runs[tid]
      if op == 4:
        r = s.do(s.tc.cancel_task_wait(tid))
        if tid in s.forgotten: ctx.check(isinstance(r, BaseException), "tasks of a host that left are forgotten", r)
        else: ctx.check(isinstance(r, task_module.TaskInstance) and r.status.value == "stopped" and r.id == tid, "waiting for the cancellation returns the stopped task", r)
      else:
        if op == 3: t.error = "it failed"
        t.gate.set()
    s.n.loop.advance(1)
    for k in gone:
      for tid in tids:
        if runs[tid][0] == k and tid not in s.forgotten: s.forgotten.add(tid)
    for tid in tids:
      if tid in s.forgotten: ctx.check(s.status(tid) == "unknown", "tasks of a host that left are forgotten")
      else: s.settled(tid, runs[tid][1])
    r = s.do(s.tc.list_task_hosts())
    ctx.check(sorted(h.id for h in r) == [f"host{k}" for k in range(2) if k not in gone], "the registered hosts are listed", r)
  ctx.check(not s.tmjob.done() and not any(j.done() for j in s.hostjobs), "the manager and the host keep running")
  ctx.reach("settled")




@harness("C30", "shutdown", shards=lambda tier: [dict(n=n, how=h) for n in (0, 1, 2) for h in ("cancel", "cancel2")], must=["settled"], model_patch=True)
def c30_shutdown(ctx, n, how):
  """the host is told to stop while tasks run"""
  s = Tasks(ctx)
  tids = [s.schedule() for _ in range(n)]
  for t in tids: s.do(s.tc.start_task(t, "wait"))
  done = ctx.choice("ended", n + 1)
  for t in s.hosts[0].made[:done]: t.gate.set()
  if how == "cancel2" : s.n.loop.advance(1)
  s.hostjobs[0].cancel()
  s.n.loop.advance(10)
  ctx.check(s.hostjobs[0].done() and s.hostjobs[0].cancelled(), "a host that is told to stop stops", s.hostjobs[0])
  for tid, t in zip(tids, s.hosts[0].made):
    ctx.check(t.stage != "running", "the tasks of a host that stops are stopped", t.stage)
    s.settled(tid, t)
  ctx.check(s.do(s.tc.list_task_hosts()) == [], "a host that stopped is no longer listed")
  ctx.reach("settled")


@harness("C30", "shutdown moments", shards=lambda tier: [dict(lo=lo, hi=lo + 24) for lo in range(0, 125, 25)], must=["settled"], model_patch=True)
def c30_shutdown_moments(ctx, lo, hi):
  """the host is told to stop at every step of a start"""
  s = Tasks(ctx)
  first, tid = s.schedule(), s.schedule()
  s.do(s.tc.start_task(first, "wait"))
  start = s.job(s.tc.start_task(tid, "wait"))
  s.n.loop.steps_(int(ctx.int("step", lo, hi)))
  s.hostjobs[0].cancel()
  s.n.loop.advance(30)
  ctx.check(s.hostjobs[0].done() and s.hostjobs[0].cancelled(), "a host that is told to stop stops", s.hostjobs[0])
  ctx.check(s.hosts[0].made[0].stage == "stopped", "the tasks of a host that stops are stopped")
  s.settled(first, s.hosts[0].made[0])
  ctx.check(all(t.stage != "running" for t in s.hosts[0].made), "the tasks of a host that stops are stopped")
  ctx.check(s.status(tid) == "unknown", "tasks of a host that left are forgotten", s.status(tid))
  ctx.reach("settled")


# ---------------------------------------------------------------- C29 deployments
meta("C29", bounds="the web backend, the manager and one host on connections that serialise, driven through its HTTP interface; two deployments and two tasks; every history of 3 (quick) / 4 (thorough) of the 13 requests to create, change, delete, schedule, start and stop and of a task ending by itself from a prepared deployment, and of 2 / 3 from none, a scheduled one, and a running one of one or two tasks; starts that fail for one of two tasks",
     outside="dashboards, web sockets, restarts of the backend, requests handled at the same time, the files behind the store (C31)")
from streamtasks.system import task_web
from streamtasks.asgi import ASGIProxyApp
D = [str(UUID(int=(4 << 76) | (8 << 60) | (0xd0 + k))) for k in range(2)]
T = [str(UUID(int=(4 << 76) | (8 << 60) | (0xa0 + k))) for k in range(2)]


class Web(Tasks):
  def __init__(self, ctx):
    super().__init__(ctx)
    ctx.stub(task_web, "PydanticDB", FakeDB)
    ctx.stub(task_web, "get_data_sub_dir", lambda *a: "/nowhere")
    self.web = self.n.loop.call(task_web.TaskWebBackend)
    self.n.attach(self.web.switch)
    self.webjob = self.n.loop.spawn(self.web.run())
    self.n.loop.advance(1)
    self.app = self.n.loop.call(ASGIProxyApp, self.c, NetworkAddressNames.TASK_MANAGER_WEB)
  def http(self, method, path, body=None, headers=((b"content-type", b"application/json"),)):
    """-> (status, body): one request as a web server passes it on"""
    out = []
    events = [{"type": "http.request", "body": b"" if body is None else json.dumps(body).encode(), "more_body": False}]
    async def receive():
      if events: return events.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": b"",
             "root_path": "", "headers": list(headers), "client": ("a", 1), "server": ("b", 2)}
    async def f(): await asyncio.wait_for(self.app(scope, receive, send), 30)
    try: self.n.loop.run_until_complete(f())
    except TimeoutError: return None, None
    status = [e["status"] for e in out if e["type"] == "http.response.start"]
    return (status[0] if status else None), b"".join(e.get("body", b"") for e in out if e["type"] == "http.response.body")
  def json(self, path):
    status, body = self.http("GET", path)
    return json.loads(body) if status == 200 else status


OPS29 = [("create", 1), ("update", 0), ("delete", 0), ("put", 0, 0), ("put", 0, 1), ("put", 1, 0), ("drop", 0), ("schedule", 0), ("start", 0), ("stop", 0), ("schedule", 1), ("end", 0), ("end", 1)]


@harness("C29", "histories", shards=lambda tier: [dict(state=s, first=f, n=(3 if s == "offline" else 2) if tier == "quick" else (4 if s == "offline" else 3)) for s in ("offline", "empty", "scheduled", "running", "both") for f in range(len(OPS29))], must=["settled"], model_patch=True)
def c29(ctx, state, first, n):
  s = Web(ctx)
  deps, tasks = {}, {}     # the model: id -> [label, status], id -> [deployment, value]
  runs = {}                # task -> instance id, of the deployments that run
  started = set()
  made = []                # configs the tasks were made with
  def put(t, d, v): return s.http("PUT", "/api/task", {"id": T[t], "deployment_id": D[d], "task_host_id": "host0", "label": f"t{t}", "config": {"v": v} if v != 1 else {}, "frontend_config": {}, "inputs": [], "outputs": [{"topic_id": 5 + t}]})
  def cv(c): return c.get("v", 1) if isinstance(c, dict) else c
  def active(d): return deps.get(d, ["", "offline"])[1] != "offline"
  def do(op, *a):
    before = len(s.hosts[0].made)
    if op == "create":
      st, _ = s.http("POST", "/api/deployment", {"id": D[a[0]], "label": "new"})
      ok = a[0] not in deps
      if ok: deps[a[0]] = ["new", "offline"]
    elif op == "update":
      st, _ = s.http("PUT", "/api/deployment", {"id": D[a[0]], "label": "changed"})
      ok = a[0] in deps and not active(a[0])
      if ok: deps[a[0]][0] = "changed"
    elif op == "delete":
      st, _ = s.http("DELETE", "/api/deployment/" + D[a[0]])
      ok = not active(a[0])
      if ok: deps.pop(a[0], None)
    elif op == "put":
      v = len(log)
      st, _ = put(a[0], a[1], v)
      ok = not active(a[1]) and not (a[0] in tasks and active(tasks[a[0]][0]))
      if ok: tasks[a[0]] = [a[1], v]
    elif op == "drop":
      st, _ = s.http("DELETE", "/api/task/" + T[a[0]])
      ok = a[0] in tasks and not active(tasks[a[0]][0])
      if ok: tasks.pop(a[0])
    elif op == "schedule":
      st, _ = s.http("POST", f"/api/deployment/{D[a[0]]}/schedule", None)
      ok = a[0] in deps and not active(a[0])
      if ok: deps[a[0]][1] = "scheduled"
    elif op == "start":
      st, _ = s.http("POST", f"/api/deployment/{D[a[0]]}/start", None)
      ok = a[0] in deps and deps[a[0]][1] == "scheduled"
      if ok:
        deps[a[0]][1] = "running"
        want = sorted(t[1] for t in tasks.values() if t[0] == a[0])
        new = s.hosts[0].made[before:]
        ctx.check(sorted(cv(t.config) for t in new) == want and all(t.stage == "running" for t in new), "starting starts every task once with its config", ([t.config for t in new], want))
        before = len(s.hosts[0].made)
        for t in new: t.dep = a[0]
    elif op == "stop":
      st, _ = s.http("POST", f"/api/deployment/{D[a[0]]}/stop", None)
      ok = active(a[0])
      if ok:
        deps[a[0]][1] = "offline"
        ctx.check(all(t.stage != "running" for t in s.hosts[0].made if t.dep == a[0]), "stopping stops every task")
    elif op == "end":
      ok, st = True, 200
      alive = [t for t in s.hosts[0].made if t.stage == "running"]
      if alive: alive[-a[0]].gate.set()
      s.n.loop.advance(1)
    log.append((op, a, st, ok))
    ctx.check((st == 200) == ok and st is not None, "what the rules allow succeeds, the rest is refused", log)
    ctx.check(ok or st in (400, 404), "a refused request is answered as such", log)
    ctx.check(len(s.hosts[0].made) == before, "nothing else is started", log)
  log = []
  prep = {"empty": [], "offline": [("create", 0), ("put", 0, 0)], "scheduled": [("create", 0), ("put", 0, 0), ("schedule", 0)], "running": [("create", 0), ("put", 0, 0), ("schedule", 0), ("start", 0)],
          "both": [("create", 0), ("put", 0, 0), ("put", 1, 0), ("schedule", 0), ("start", 0)]}
  def look():
    r = s.json("/api/deployments")
    ctx.check(sorted((x["id"], x["label"], x["status"]) for x in r) == sorted((D[d], l, st) for d, (l, st) in deps.items()), "the deployments are what was stored, with their status", (r, deps, log))
    r = s.http("GET", "/api/deployment/" + D[0])
    if 0 in deps: ctx.check(r[0] == 200 and json.loads(r[1])["status"] == deps[0][1], "the deployments are what was stored, with their status", r)
    else: ctx.check(r[0] in (400, 404), "the deployments are what was stored, with their status", r)
    for d in (0, 1):
      r = s.json(f"/api/deployment/{D[d]}/tasks")
      want = sorted((T[t], v) for t, (td, v) in tasks.items() if td == d)
      ctx.check(sorted((x["id"], cv(x["config"])) for x in r) == want, "there is one task per id, as last stored", (r, tasks, log))
      for x in r:
        ti = x["task_instance"]
        if not active(d): ctx.check(ti is None, "a task has an instance while its deployment is active", (ti, log))
        elif deps[d][1] == "scheduled": ctx.check(ti is not None and ti["status"] == "scheduled", "a task has an instance while its deployment is active", (ti, log))
        else:
          stage = [t.stage for t in s.hosts[0].made if cv(t.config) == cv(x["config"]) and t.dep == d][-1]
          ctx.check(ti is not None and ti["status"] == stage, "the status of an instance is what became of it", (ti, stage, log))
    ctx.check({str(x.id) for x in s.web.store.tasks.saved} == {T[t] for t in tasks} and {str(x.id) for x in s.web.store.deployments.saved} == {D[d] for d in deps}, "changes are saved")
  for op in prep[state]: do(*op)
  look()
  for k in range(n):
    do(*(OPS29[first] if k == 0 else ctx.pick(f"op{k}", OPS29)))
    look()
  ctx.check(not s.webjob.done() and not s.tmjob.done(), "the backend keeps running")
  ctx.reach("settled")


@harness("C29", "failing start", shards=lambda tier: [dict(kind=k) for k in ("no host", "setup-raises", "host left")], must=["settled"], model_patch=True)
def c29_failing(ctx, kind):
  s = Web(ctx)
  s.http("POST", "/api/deployment", {"id": D[0], "label": "d"})
  bad = ctx.choice("bad", 2)
  for t in range(2):
    s.http("PUT", "/api/task", {"id": T[t], "deployment_id": D[0], "task_host_id": "nobody" if kind == "no host" and t == bad else "host0", "label": "t",
                                "config": {"v": kind if t == bad else t}, "frontend_config": {}, "inputs": [], "outputs": []})
  ctx.check(s.http("POST", f"/api/deployment/{D[0]}/schedule")[0] == 200, "scheduling succeeds")
  if kind == "host left":
    s.do(s.hosts[0].unregister())
    s.n.loop.advance(1)
  st, _ = s.http("POST", f"/api/deployment/{D[0]}/start")
  s.n.loop.advance(5)
  tries = ctx.choice("tries", 2)
  if tries: s.http("POST", f"/api/deployment/{D[0]}/start")
  s.n.loop.advance(5)
  good = [t for t in s.hosts[0].made if t.config["v"] == 1 - bad]
  if kind == "setup-raises":
    ctx.check(st == 200, "a task that fails does not keep the others from starting", st)
    r = {x["id"]: x["task_instance"]["status"] for x in s.json(f"/api/deployment/{D[0]}/tasks")}
    ctx.check(r == {T[bad]: "failed", T[1 - bad]: "running"}, "the status of an instance is what became of it", r)
  else: ctx.check(st in (400, 404, 500), "a refused request is answered as such", st)
  ctx.check(len(good) <= 1, "starting starts every task once with its config", [t.config for t in s.hosts[0].made])
  ctx.check(s.http("POST", f"/api/deployment/{D[0]}/stop")[0] == 200, "stopping succeeds after whatever happened")
  s.n.loop.advance(1)
  ctx.check(all(t.stage != "running" for t in s.hosts[0].made) or kind == "host left", "stopping stops every task")
  ctx.check(s.json("/api/deployment/" + D[0])["status"] == "offline", "the deployments are what was stored, with their status")
  ctx.reach("settled")
