"""Producers and consumers, functions as tasks."""
import asyncio
import threading
from types import SimpleNamespace
import streamtasks.client, streamtasks.utils as utils
from symx.harness import harness, meta
from symx.threads import Turns


# ---------------------------------------------------------------- C38 producers and consumers
meta("C38", bounds="one producer (in a thread, as a container is read, and on the event loop) of up to 3 items (thorough 4) for one or two consumers, each item for a symbolic consumer; ends, an item that marks the end, and failures; every interleaving of the thread's steps with the loop in which each step comes at once, a few callbacks later or when nothing else can run; readers that pause between items; closing at every step, also before anything was read; one reader given up at every step",
     outside="preemption inside a step of the thread; more than two consumers")


class Items:
  """a container: items for streams, then the end"""
  def __init__(self, turns, items, end): self.turns, self.items, self.end, self.pos = turns, items, end, 0
  def demux(self):
    it = self
    class I:
      def __iter__(self): return self
      def __next__(self):
        it.turns.pause()
        if it.pos < len(it.items):
          it.pos += 1
          return it.items[it.pos - 1]
        if it.end == "stop": raise StopIteration
        if it.end == "mark": return SimpleNamespace(size=0, dts=None, pts=None, stream_index=0)
        raise ValueError("cannot be read")
    return I()


class FlowEnv:
  def __init__(self, ctx, kind, n, consumers, end, delays, free=99):
    self.ctx, self.loop = ctx, ctx.loop()
    self.end = end
    self.k = 0
    async def wait():
      self.k += 1
      d = delays[ctx.choice(f"delay{self.k}", len(delays))] if self.k <= free else delays[0]
      if d is None: await asyncio.sleep(1)
      else:
        for _ in range(d): await asyncio.sleep(0)
    self.wait = wait
    self.turns = Turns(ctx, wait)
    self.dest = [ctx.choice(f"stream{i}", consumers) if consumers > 1 else 0 for i in range(n)]
    items = [SimpleNamespace(size=1, dts=i, pts=i, stream_index=s, n=i) for i, s in enumerate(self.dest)]
    env = self
    self.runs = self.most = 0
    if kind == "thread":
      from streamtasks.media import container
      class Event(threading.Event().__class__):
        def is_set(self):
          env.turns.pause()
          return super().is_set()
      ctx.stub(utils, "threading", SimpleNamespace(Event=Event))
      self.loop.run_in_executor = self.turns.run_in_executor
      self.producer = self.loop.call(container._Demuxer, Items(self.turns, items, end))
    else:
      class P(utils.AsyncProducer):
        pos = 0
        async def run(self):
          env.runs += 1
          env.most = max(env.most, env.runs)
          try:
            while True:
              await env.wait()
              if self.pos == len(items): raise EOFError() if end != "fail" else ValueError("cannot be read")
              self.pos += 1
              self.send_message(items[self.pos - 1])
          finally: env.runs -= 1
      self.producer = self.loop.call(P)
    class C(utils.AsyncConsumer):
      def __init__(self, producer, i):
        super().__init__(producer)
        self.i = i
      def test_message(self, m): return m.stream_index == self.i
    self.consumers = [self.loop.call(C, self.producer, i) for i in range(consumers)]
    for c in self.consumers: c.register()
    self.got = [[] for _ in self.consumers]
    self.ended = [None] * consumers
  def read(self, i, think):
    async def f():
      try:
        while True:
          self.got[i].append((await self.consumers[i].get()).n)
          if think: await asyncio.sleep(think)
      except (EOFError, ValueError) as e: self.ended[i] = e
    return self.loop.spawn(f())
  def once(self):
    self.ctx.check(max(self.turns.most, self.most) <= 1, "one run at a time")
  def want(self, i): return [k for k, s in enumerate(self.dest) if s == i]
  def complete(self, i):
    self.ctx.check(self.ended[i] is not None, "every reader is told of the end", (self.got, self.ended))
    if self.end == "fail": self.ctx.check(self.got[i] == self.want(i)[:len(self.got[i])], "what is read before a failure is read once, in order", (self.got[i], self.want(i)))
    else: self.ctx.check(self.got[i] == self.want(i), "every item is read once, in order, before the end", (self.got[i], self.want(i), self.ended))


ENDS = ("stop", "mark", "fail")


@harness("C38", "reading", shards=lambda tier: [dict(kind=k, end=e, consumers=c, think=t, n=(3 if k == "loop" or c == 1 else 2) if tier == "quick" else 4) for k in ("thread", "loop") for e in ENDS if k == "thread" or e != "mark" for c in (1, 2) for t in ((0,), (2,), (0, 2))[:3] if len(t) <= c], must=["every reader is told of the end", "one run at a time"])
def c38(ctx, kind, end, consumers, think, n):
  e = FlowEnv(ctx, kind, n, consumers, end, (0, 3, None) if kind == "loop" or ctx.tier != "quick" else (0, None), 99 if kind == "loop" else 7)
  jobs = [e.read(i, think[i % len(think)]) for i in range(consumers)]
  e.loop.advance(60)
  e.once()
  for i in range(consumers): e.complete(i)
  if end != "fail": ctx.check(all(isinstance(x, EOFError) for x in e.ended), "the end is the end", e.ended)
  else: ctx.check(any(isinstance(x, ValueError) for x in e.ended), "a failure is reported", e.ended)
  ctx.check(e.turns.running == 0 and e.runs == 0, "nothing runs after the end")


@harness("C38", "closing", shards=lambda tier: [dict(kind=k, consumers=c, lo=lo, hi=lo + 12) for k in ("thread", "loop") for c in (1, 2) for lo in range(0, 39, 13)], must=["closing ends", "a closed producer is closed"])
def c38_close(ctx, kind, consumers, lo, hi):
  e = FlowEnv(ctx, kind, 2, consumers, "stop", (0, None), 5 if ctx.tier == "quick" else 99)
  readers = ctx.choice("readers", consumers + 1)
  jobs = [e.read(i, 0) for i in range(readers)]
  step = int(ctx.int("step", lo, hi))
  e.loop.steps_(step)
  if ctx.flag("idle"): e.loop.advance(0.5)
  job = e.loop.spawn(e.producer.close())
  e.loop.advance(60)
  ctx.check(job.done(), "closing ends")
  ctx.check(job.exception() is None, "closing ends", job.exception())
  for i in range(readers):
    ctx.check(e.ended[i] is not None, "every reader is told of the end", (e.got, e.ended))
    ctx.check(e.got[i] == e.want(i)[:len(e.got[i])], "every item is read once, in order, before the end")
  if readers < consumers:
    late = e.read(readers, 0)
    e.loop.advance(60)
    ctx.check(isinstance(e.ended[readers], EOFError), "a closed producer is closed", e.ended)
  else: ctx.reach("a closed producer is closed")
  e.once()
  ctx.check(e.turns.running == 0 and e.runs == 0, "nothing runs after the end")


@harness("C38", "giving up", shards=lambda tier: [dict(kind=k, consumers=c, lo=lo, hi=lo + 12) for k in ("thread", "loop") for c in (1, 2) for lo in range(0, 26, 13)], must=["every item is read once, in order, before the end", "nothing runs for nobody"])
def c38_give_up(ctx, kind, consumers, lo, hi):
  """one reader stops waiting and comes back later"""
  e = FlowEnv(ctx, kind, 2, consumers, "stop", (0, None), 4 if ctx.tier == "quick" else 7)
  jobs = [e.read(i, 0) for i in range(consumers)]
  e.loop.steps_(int(ctx.int("step", lo, hi)))
  if ctx.flag("idle"): e.loop.advance(0.5)
  waiting = e.got[0][:]
  jobs[0].cancel()
  e.loop.advance(60)
  if consumers == 1 and e.ended[0] is None: ctx.check(e.turns.running == 0 and e.runs == 0, "nothing runs for nobody")
  else: ctx.reach("nothing runs for nobody")
  for i in range(1, consumers): e.complete(i)
  if e.ended[0] is None:
    e.read(0, 0)
    e.loop.advance(60)
  e.complete(0)
  e.once()


# ---------------------------------------------------------------- C43 functions as tasks
from dataclasses import dataclass
import json
import logging
from typing import Annotated
from streamtasks.system import fntask as fntask_module
from props.net import _mods, make_link_class
from props.tasks import Rig, OUT
meta("C43", bounds="eleven functions (one to three inputs of every type, none to three outputs, results that do not fit, with and without timestamp, config and state, plain, asynchronous and in a thread), as not synchronized tasks; every history of 4 or 5 (thorough 6) messages and malformed messages on their inputs with symbolic values; slow functions with messages arriving at once or one by one; two tasks of one host; synchronized: 2 and 2 messages (thorough 3 and 2) with increasing symbolic timestamps in every order of arrival",
     outside="the metadata for the configuration page beyond the keys of inputs and outputs, functions that raise")


@dataclass
class FnState:
  count: int = 0


@dataclass
class FnConfig:
  step: int = 1


LOG = []
class Slow:
  """how a function passes time, set by the harness"""
  sleep = pause = None
  busy = most = 0


def plain(a: int) -> float:
  LOG.append({"a": a})
  return a


def pair(a: float, b: str) -> tuple[str, float]:
  LOG.append({"a": a, "b": b})
  return b, a


def chunk(c: bytes, timestamp: int) -> bytes:
  LOG.append({"c": c, "timestamp": timestamp})
  return c


def sink(a: int, timestamp: int):
  LOG.append({"a": a, "timestamp": timestamp})


def counter(a: int, state: FnState) -> tuple[float, float]:
  LOG.append({"a": a})
  state.count += 1
  return state.count, a


def full(timestamp: int, config: FnConfig, b: str, state: FnState, a: Annotated[float, {"rate": 5}]) -> Annotated[float, {"content": "number"}, {"step": "rate"}]:
  LOG.append({"a": a, "b": b, "timestamp": timestamp})
  state.count += config.step
  return state.count


async def waits(a: float, b: float) -> tuple[float, float]:
  Slow.busy += 1
  Slow.most = max(Slow.most, Slow.busy)
  await Slow.sleep()
  Slow.busy -= 1
  LOG.append({"a": a, "b": b})
  return a, b


def threaded(a: float, b: float) -> tuple[float, float]:
  Slow.busy += 1
  Slow.most = max(Slow.most, Slow.busy)
  Slow.pause()
  Slow.busy -= 1
  LOG.append({"a": a, "b": b})
  return a, b


async def waits_none(a: int) -> None:
  LOG.append({"a": a})
  await Slow.sleep()


def triple(a: float) -> tuple[float, str, float]:
  LOG.append({"a": a})
  return Slow.result[0], Slow.result[1], a


def wrong(a: float) -> tuple[float, float]:
  LOG.append({"a": a})
  return Slow.result


IN = {"triple": "a", "wrong": "a", "plain": "a", "pair": "ab", "chunk": "c", "sink": "a", "counter": "a", "full": "ba", "waits": "ab", "threaded": "ab", "waits_none": "a"}


MADE = {}
def make_all():
  """decorate the functions; outside of symbolic runs, where types are themselves"""
  for name in IN:
    try: MADE[name] = fntask_module.fntask(thread_safe=name == "threaded", label="x")(globals()[name])
    except Exception as e: MADE[name] = e


class FnRig:
  def __init__(self, ctx, name, sync=False, step=None):
    self.ctx, self.name = ctx, name
    LOG.clear()
    Slow.busy = Slow.most = 0
    loop = ctx.loop()
    self.turns = Turns(ctx, self.wait)
    loop.run_in_executor = self.turns.run_in_executor
    Slow.sleep, Slow.pause = (lambda: asyncio.sleep(1)), self.turns.pause
    f = MADE[name]
    ctx.check(not isinstance(f, Exception), "the function can be made a task", f)
    self.host = loop.call(f.TaskHost)
    md = self.host.metadata
    self.inputs = [i["key"] for i in json.loads(md["cfg:inputs"])]
    self.outputs = json.loads(md["cfg:outputkeys"])
    ctx.check(len(self.inputs) == len(IN[name]), "one input per parameter", md)
    self.step = step
    self.tasks = []
    self.rig = self.add(0, sync)
  async def wait(self): await asyncio.sleep(0.5)
  def add(self, k, sync=False):
    config = {**{key: 10 * k + 1 + i for i, key in enumerate(self.inputs)}, **{key: OUT + i for i, key in enumerate(self.outputs)}, "std_synchronized": sync, "other": "ignored"}
    if self.step is not None: config["step"] = self.step
    def make(client):
      async def create_client(*a): return client
      self.host.create_client = create_client
      return self.ctx.loop().run_until_complete(self.host.create_task(config, None))
    return Rig(self.ctx, make) if k == 0 else self.second(make)
  def second(self, make):
    r = Rig.__new__(Rig)
    r.__dict__.update(self.rig.__dict__)
    from streamtasks.client import Client
    r.peer = r.loop.call(make_link_class(), "Q")
    r.client = r.loop.call(Client, r.peer)
    r.task = make(r.client)
    r.n = 0
    r.job = r.loop.spawn(r.task.run())
    r.loop.drain()
    return r
  def value(self, i, k):
    ctx, p = self.ctx, IN[self.name][i]
    return ctx.str(f"value{k}", 1) if p == "b" and self.name in ("pair", "full") else ctx.bytes(f"value{k}", 1) if p == "c" else ctx.float(f"value{k}")
  def message(self, i, ts, v):
    return {"timestamp": ts, ("data" if IN[self.name][i] == "c" else "value"): v}


def expected(name, vals, ts, count, step):
  """what one call returns"""
  if name == "plain": return [vals["a"]]
  if name == "pair": return [vals["b"], vals["a"]]
  if name == "chunk": return [vals["c"]]
  if name in ("sink", "waits_none"): return []
  if name == "counter": return [count, vals["a"]]
  if name == "full": return [count * (step if step is not None else 1)]
  return [vals["a"], vals["b"]]


@harness("C43", "calls", shards=lambda tier: [dict(name=n, step=s, n=(5 if len(IN[n]) == 1 else 4) if tier == "quick" else 6, first=f) for n in IN if n not in ("threaded", "waits", "waits_none", "triple", "wrong") for s in ((None, 3) if n == "full" else (None,)) for f in range(len(IN[n]))], must=["called once per message with the latest values"], model_patch=True, setup=make_all)
def c43(ctx, name, step, n, first):
  logging.disable(logging.CRITICAL)
  r = FnRig(ctx, name, step=step)
  vals, calls = {}, 0
  for k in range(n):
    i = first if k == 0 else ctx.choice(f"input{k}", len(r.inputs)) if len(r.inputs) > 1 else 0
    LOG.clear()
    ts = ctx.int(f"timestamp{k}", 0, 10 ** 6)
    good = ctx.flag(f"good{k}")
    if good:
      v = r.value(i, k)
      vals[IN[name][i]] = v
      r.rig.data(1 + i, r.message(i, ts, v))
    else: r.rig.data(1 + i, ({"timestamp": ts}, {"timestamp": "x", "value": 1.0, "data": b""}, 7)[ctx.choice(f"how{k}", 3)])
    out = r.rig.new(None)
    if good and len(vals) == len(r.inputs):
      calls += 1
      ctx.check(len(LOG) == 1, "called once per message with the latest values", (LOG, out))
      for p, x in vals.items(): ctx.check(ctx.same(LOG[0][p], x), "called once per message with the latest values")
      if "timestamp" in LOG[0]: ctx.check(LOG[0]["timestamp"] == ts, "called with the timestamp of the message")
      want = expected(name, vals, ts, calls, step)
      ctx.check(len(out) == len(want), "every result is sent once", (out, want))
      for (kind, d), x in zip(out, want):
        ctx.check(kind == "data" and d["timestamp"] == ts, "results carry the timestamp of the message", out)
        ctx.check(ctx.same(d["data"] if name == "chunk" else d["value"], x), "every result is sent on its output", (out, want))
    else: ctx.check(not LOG and not out, "nothing happens before every input has a value, or for a malformed message", (LOG, out))
    ctx.check(r.rig.alive(), "the task keeps running", r.rig.job)
  topics = [m.topic for m in r.rig.peer.sent if isinstance(m, r.rig.msgs.TopicDataMessage)]
  ctx.check(topics == [OUT + i for _ in range(calls) for i in range(len(r.outputs))], "every result is sent on its output", topics)


@harness("C43", "slow", shards=lambda tier: [dict(name=n, at_once=a, n=3 if tier == "quick" else 4) for n in ("threaded", "waits", "waits_none") for a in (0, 1, 2)], must=["called once per message with the latest values"], model_patch=True, setup=make_all)
def c43_slow(ctx, name, at_once, n):
  """messages that arrive while the function runs"""
  r = FnRig(ctx, name)
  sent = {}      # timestamp -> (input, value)
  order = []
  for k in range(n):
    i = ctx.choice(f"input{k}", len(r.inputs)) if len(r.inputs) > 1 else 0
    v = r.value(i, k)
    sent[k] = (IN[name][i], v)
    order.append(IN[name][i])
    r.rig.raw(1 + i, r.message(i, k, v))
    if k >= at_once: r.ctx.loop().advance((0, 0.7, 5)[ctx.choice(f"pause{k}", 3)])
  r.ctx.loop().advance(60)
  ctx.check(r.rig.alive(), "the task keeps running", r.rig.job)
  ctx.check(Slow.most <= 1, "calls do not overlap")
  if name == "waits_none":
    ctx.check(len(LOG) == n and all(ctx.same(LOG[k]["a"], sent[k][1]) for k in range(n)), "called once per message with the latest values")
    return
  out = [(m.topic, m.data.data) for m in r.rig.peer.sent if isinstance(m, r.rig.msgs.TopicDataMessage)]
  stamps = [d["timestamp"] for t, d in out if t == OUT]
  ctx.check([d["timestamp"] for t, d in out if t == OUT + 1] == stamps and len(set(stamps)) == len(stamps), "every result is sent once", out)
  silent = 0
  for p in set(order): silent = max(silent, order.index(p))
  # before the last input has its first value nothing is called: how many messages of the others come first depends on the order of arrival alone
  if len(set(order)) < 2:
    ctx.check(not out, "nothing happens before every input has a value, or for a malformed message", out)
    return ctx.reach("called once per message with the latest values")
  missing = [k for k in sent if k not in stamps]
  ctx.check(len({sent[k][0] for k in missing}) <= 1 and all(k < silent + n for k in missing), "called once per message with the latest values", (order, stamps))
  vals = {sent[k][0]: sent[k][1] for k in missing}
  for p in "ab":
    mine = [k for k in stamps if sent[k][0] == p]
    ctx.check(mine == sorted(mine), "messages of one input are handled in order", stamps)
  if missing: ctx.check(max(missing) < min([k for k in stamps if sent[k][0] == sent[missing[0]][0]], default=n), "called once per message with the latest values", (order, stamps))
  for j, k in enumerate(stamps):
    vals[sent[k][0]] = sent[k][1]
    for t in (0, 1):
      d = [d for tt, d in out if tt == OUT + t][j]
      ctx.check(ctx.same(d["value"], vals["ab"[t]]), "called once per message with the latest values", (order, stamps))
  if at_once == 0 and all(int(ctx.int(f"pause{k}", 0, 2)) == 2 for k in range(n)):
    ctx.check(missing == list(range(silent)), "called once per message with the latest values", (order, stamps))


@harness("C43", "results", shards=lambda tier: [dict(n=2 if tier == "quick" else 3)], must=["every result is sent on its output", "the other results are sent"], model_patch=True, setup=make_all)
def c43_results(ctx, n):
  """three results, of which one may not be what was declared"""
  logging.disable(logging.CRITICAL)
  r = FnRig(ctx, "triple")
  for k in range(n):
    ts, v, first, text = ctx.int(f"timestamp{k}", 0, 10 ** 6), ctx.float(f"value{k}"), ctx.float(f"first{k}"), ctx.str(f"text{k}", 1)
    odd = (None, 0, 1, 2)[ctx.choice(f"odd{k}", 4)]
    Slow.result = [None if odd in (0, 2) else first, 7 if odd in (1, 2) else text]
    r.rig.data(1, r.message(0, ts, v))
    got = [(m.topic, m.data.data) for m in r.rig.peer.sent if isinstance(m, r.rig.msgs.TopicDataMessage)]
    r.rig.peer.sent.clear()
    want = [(OUT + i, x) for i, x in enumerate([first, text, v]) if i == 2 or odd not in (i, 2)]
    ctx.check([t for t, _ in got] == [t for t, _ in want], "every result is sent on its output" if odd is None else "the other results are sent", (got, want))
    ctx.check(all(d["timestamp"] == ts for _, d in got), "results carry the timestamp of the message", got)
    ctx.check(all(ctx.same(d["value"], x) for (_, d), (_, x) in zip(got, want)), "every result is sent on its output", (got, want))
    ctx.check(r.rig.alive(), "the task keeps running", r.rig.job)


@harness("C43", "wrong", shards=lambda tier: [dict(n=2)], must=["results that do not fit the outputs are not sent"], model_patch=True, setup=make_all)
def c43_wrong(ctx, n):
  """a function that returns another number of results than it declared fails, nothing is sent on the wrong output"""
  logging.disable(logging.CRITICAL)
  r = FnRig(ctx, "wrong")
  k = ctx.choice("after", n)
  for i in range(k + 1):
    v = ctx.float(f"value{i}")
    size = 2 if i < k else ctx.pick("size", [0, 1, 3])
    Slow.result = tuple(v for _ in range(size)) if size != 1 or ctx.flag("tuple") else v
    r.rig.data(1, r.message(0, i, v))
    got = [m.topic for m in r.rig.peer.sent if isinstance(m, r.rig.msgs.TopicDataMessage)]
    r.rig.peer.sent.clear()
    if size == 2: ctx.check(got == [OUT, OUT + 1], "every result is sent on its output", got)
    else: ctx.check(not got and not r.rig.alive(), "results that do not fit the outputs are not sent", (got, r.rig.job))


@harness("C43", "two tasks", shards=lambda tier: [dict(name=n) for n in ("counter", "full", "plain")], must=["tasks of one function do not share anything"], model_patch=True, setup=make_all)
def c43_two(ctx, name):
  r = FnRig(ctx, name)
  rigs = [r.rig, r.add(1)]
  calls = [0, 0]
  vals = [{}, {}]
  for k in range(4):
    j = ctx.choice(f"task{k}", 2)
    i = k % len(r.inputs)
    v = r.value(i, k)
    vals[j][IN[name][i]] = v
    rigs[j].data(10 * j + 1 + i, r.message(i, k, v))
    out = [d["value"] for _, d in rigs[j].new(None)]
    if len(vals[j]) == len(r.inputs):
      calls[j] += 1
      want = expected(name, vals[j], k, calls[j], None)
      ctx.check(len(out) == len(want) and all(ctx.same(a, b) for a, b in zip(out, want)), "tasks of one function do not share anything", (out, want))
    else:
      ctx.check(not out, "nothing happens before every input has a value, or for a malformed message", out)
      ctx.reach("tasks of one function do not share anything")
    ctx.check(not rigs[1 - j].new(None), "tasks of one function do not share anything")


def _orders43(tier):
  from props.client import _orders
  return _orders([2, 2] if tier == "quick" else [3, 2])


@harness("C43", "synchronized", shards=lambda tier: [dict(name=n, order=o) for n in ("pair", "waits") for o in _orders43(tier)], must=["called in the order of the timestamps"], model_patch=True, setup=make_all)
def c43_sync(ctx, name, order):
  r = FnRig(ctx, name, sync=True)
  loop = ctx.loop()
  for i in (0, 1):        # from here on both inputs take part
    r.rig.data(1 + i, r.message(i, 0, "x" if name == "pair" and i == 1 else 0.0))
  loop.advance(10)
  LOG.clear()
  ts, vals = [[0], [0]], {}
  for k, i in enumerate(order):
    t = ctx.int(f"timestamp{k}", 1, 1000)
    ctx.assume(t > ts[i][-1])
    ts[i].append(t)
    v = vals[(i, len(ts[i]) - 1)] = r.value(i, k)
    r.rig.data(1 + i, r.message(i, t, v))
  loop.advance(60)
  ctx.check(r.rig.alive(), "the task keeps running", r.rig.job)
  last = [0, 0]
  pos = 0
  # merge in time order as far as both inputs have come
  while True:
    rest = [i for i in (0, 1) if last[i] + 1 < len(ts[i])]
    if not rest: break
    if len(rest) == 1:
      i = rest[0]
      if ts[i][last[i] + 1] > ts[1 - i][-1]: break      # the other input has not come that far
    else:
      if ts[0][last[0] + 1] == ts[1][last[1] + 1]: return ctx.reach("called in the order of the timestamps")
      i = 0 if ts[0][last[0] + 1] < ts[1][last[1] + 1] else 1
    if ts[i][last[i] + 1] == ts[1 - i][-1]: return ctx.reach("called in the order of the timestamps")
    last[i] += 1
    ctx.check(pos < len(LOG), "called in the order of the timestamps", (order, LOG))
    for j, p in enumerate("ab"):
      if last[j]: ctx.check(ctx.same(LOG[pos][p], vals[(j, last[j])]), "called in the order of the timestamps", (order, LOG))
    pos += 1
  ctx.check(pos == len(LOG), "nothing is called ahead of the other input", (order, pos, LOG))
