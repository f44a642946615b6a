"""Task nodes: real Task objects on a real Client whose link is the harness."""
import asyncio
import math
from fractions import Fraction
import streamtasks.client, streamtasks.utils
from streamtasks.system.tasks import (gate, switch, srlatch, timebuffer, replaybuffer, repeater, timestampupdater, messagedetector, stringconcatenator,
  stringmatcher, numbertotext, textformatter, timetotext, calculator, synchronizer, namedinput, namedoutput, pulsegenerator)
from streamtasks.system.tasks.media import mediaswitch
from symx.harness import harness, meta
from props.net import _mods, make_link_class

OUT = 90


class Rig:
  """one real task between harness-fed inputs and a recorded output"""
  def __init__(self, ctx, make):
    net, self.msgs, self.ser = _mods()
    from streamtasks.client import Client
    self.ctx, self.loop = ctx, ctx.loop()
    self.peer = self.loop.call(make_link_class(), "P")
    self.client = self.loop.call(Client, self.peer)
    self.task = self.loop.call(make, self.client)
    self.n = 0
    self.job = self.loop.spawn(self.task.run())
    self.loop.drain()
  def raw(self, t, data):
    self.peer.inbox.put_nowait(self.msgs.TopicDataMessage(t, self.ser.RawData(data)))
  def data(self, t, data):
    self.raw(t, data)
    self.loop.drain()
  def pause(self, t, paused):
    self.peer.inbox.put_nowait(self.msgs.TopicControlMessage(t, paused))
    self.loop.drain()
  def new(self, topic=OUT):
    """messages sent since the last call on the output: ("data", payload) | ("pause", bool)"""
    r = []
    for m in self.peer.sent[self.n:]:
      if isinstance(m, self.msgs.TopicDataMessage): r.append((m.topic, "data", m.data.data))
      elif isinstance(m, self.msgs.TopicControlMessage): r.append((m.topic, "pause", m.paused))
    self.n = len(self.peer.sent)
    return [(k, d) for t, k, d in r if topic is None or t == topic]
  def alive(self): return not self.job.done()


def _num(ctx, name):
  """the value of a number message: any float"""
  return ctx.float(name)


# ---------------------------------------------------------------- C17 gate
meta("C17", bounds="not synchronized: histories of 4 (quick) / 5 (thorough) events (control number, malformed control, control paused/resumed, data, input paused/resumed), both fail modes, both initial states, every float control value including NaN and infinities; synchronized: 2 control and 3 data messages (thorough 3 and 3) in every arrival order, every symbolic integer timestamp that increases per topic",
     outside="data without a timestamp in synchronized mode; equal timestamps on one topic")


@harness("C17", "events", shards=lambda tier: [dict(mode=m, initial=i, first=f, n=4 if tier == "quick" else 5) for m in ("open", "closed") for i in (True, False) for f in range(6)],
         must=["a message passes exactly when the gate is open", "the output is paused exactly when the gate is closed"], model_patch=True)
def c17(ctx, mode, initial, first, n):
  r = Rig(ctx, lambda c: gate.GateTask(c, gate.GateConfig(fail_mode=mode, synchronized=False, initial_control=initial, control_topic=1, in_topic=2, out_topic=OUT)))
  control, cp, ce, ip = initial, False, False, False
  paused = False
  def is_open():
    return not ip and control and not (mode == "closed" and (cp or ce))
  for k in range(n + 1):
    op = -1 if k == 0 else first if k == 1 else ctx.choice(f"op{k}", 6)
    sent = None
    if op == 0:
      v = _num(ctx, f"value{k}")
      r.data(1, {"timestamp": k, "value": v})
      control, ce = bool(v > 0.5), False
    elif op == 1:
      r.data(1, {"timestamp": k}); ce = True
    elif op == 2:
      cp = ctx.flag(f"flag{k}"); r.pause(1, cp)
    elif op == 3:
      sent = ctx.int(f"payload{k}", 0, 1000)
      r.data(2, {"payload": sent})
    elif op == 4:
      r.data(2, 17 + k); sent = 17 + k
    elif op == 5:
      ip = ctx.flag(f"flag{k}"); r.pause(2, ip)
    out = r.new()
    data = [d for kind, d in out if kind == "data"]
    if sent is not None and is_open():
      ctx.check(len(data) == 1, "a message passes exactly when the gate is open", (op, len(data)))
      ctx.check((data[0]["payload"] if isinstance(data[0], dict) else data[0]) == sent, "a message passes exactly when the gate is open")
    else: ctx.check(len(data) == 0, "a message passes exactly when the gate is open", (op, data))
    for kind, d in out:
      if kind == "pause": paused = d
    ctx.check(paused == (not is_open()), "the output is paused exactly when the gate is closed", (k, op, paused))
  ctx.check(r.alive(), "the gate keeps running")


def _interleavings(counts): 
  from props.client import _orders
  return _orders(list(counts))


@harness("C17", "synchronized", shards=lambda tier: [dict(order=o) for o in _interleavings((2, 3) if tier == "quick" else (3, 3))],
         must=["gated by the control value in force at its timestamp"], model_patch=True)
def c17_sync(ctx, order):
  r = Rig(ctx, lambda c: gate.GateTask(c, gate.GateConfig(fail_mode="open", synchronized=True, initial_control=False, control_topic=1, in_topic=2, out_topic=OUT)))
  r.data(1, {"timestamp": 0, "value": 0.0})
  r.data(2, {"timestamp": 0, "k": -1})     # from here on both inputs take part
  ts = [[0], []]
  on = [False]
  for k, i in enumerate(order):
    t = ctx.int(f"ts{k}", 1, 10000)
    if ts[i]: ctx.assume(t > ts[i][-1])
    ts[i].append(t)
    if i == 0:
      v = ctx.flag(f"on{k}")
      on.append(v)
      r.data(1, {"timestamp": t, "value": 1.0 if v else 0.0})
    else: r.data(2, {"timestamp": t, "k": len(ts[1]) - 1})
  got = [d["k"] for kind, d in r.new() if kind == "data"]
  want = []
  for k, t in enumerate(ts[1]):
    if t > ts[0][-1]: break        # control has not come that far: held back
    state = [v for c, v in zip(ts[0], on) if c <= t][-1]
    if state: want.append(k)
  ctx.check(got == want, "gated by the control value in force at its timestamp", (order, got, want))


# ---------------------------------------------------------------- C18 switch
meta("C18", bounds="histories of 3 (quick) / 4 (thorough) events over 2 and 3 input/control pairs, every float control value including NaN and infinities; media switch: the same, and histories of 6 / 7 selections and key or delta packets over 2 pairs",
     outside="messages with different timestamps (their order is C15); every input and control paused at once")


def _switch(ctx, cls, pairs, first, n, media):
  from streamtasks.media.packet import MediaMessage, MediaPacket
  cfg = switch.SwitchConfig(pairs=[dict(input=10 + i, control=20 + i) for i in range(pairs)], output=OUT)
  r = Rig(ctx, lambda c: cls(c, cfg))
  for i in range(pairs):      # from here on every input takes part in the synchronization
    r.data(20 + i, {"timestamp": 5})
    r.data(10 + i, {"timestamp": 5})
  r.new()
  off = set()
  vals, inp = {}, [False] * pairs
  paused = False
  fresh = [False] * pairs     # media: the last forwarded packet directly precedes this input's next one
  for k in range(n):
    op = first[0] if k == 0 else ctx.choice(f"op{k}", 5)
    i = first[1] if k == 0 else ctx.choice(f"pair{k}", pairs)
    sent = None
    if op == 0:
      v = _num(ctx, f"value{k}")
      r.data(20 + i, {"timestamp": 5, "value": v})
      if v != v: vals.pop(i, None)
      else: vals[i] = v
    elif op == 1:
      f = ctx.flag(f"flag{k}")
      r.pause(20 + i, f)
      if f: vals.pop(i, None)
    elif op == 2: r.data(20 + i, {"timestamp": 5})
    elif op == 3:
      sent = k
      if media: r.data(10 + i, MediaMessage(timestamp=5, packet=MediaPacket(data=bytes([k]), pts=k, rel_dts=0, is_keyframe=ctx.flag(f"key{k}"))).model_dump())
      else: r.data(10 + i, {"timestamp": 5, "k": k})
    else:
      inp[i] = ctx.flag(f"flag{k}"); r.pause(10 + i, inp[i])
    if op == 1: (off.add if f else off.discard)(20 + i)
    if op == 4: (off.add if inp[i] else off.discard)(10 + i)
    if len(off) == 2 * pairs: ctx.assume(False)
    best = [j for j in vals if all(vals[j] >= x for x in vals.values())]
    out = r.new()
    data = [d for kind, d in out if kind == "data"]
    if not media:
      if sent is None or i not in best: ctx.check(not data, "only the selected input passes", (k, op, i, len(data)))
      elif len(best) == 1:
        ctx.check(len(data) == 1 and data[0]["k"] == k, "the selected input passes", (k, i, data))
    elif sent is not None:
      key = ctx.flag(f"key{k}")
      if i not in best: ctx.check(not data, "only the selected input passes", (k, op, i, len(data)))
      elif len(best) == 1:
        want = key or fresh[i]
        ctx.check(len(data) == (1 if want else 0), "after a switch the output starts with a key packet", (k, i, key, len(data)))
      if data:
        ctx.check(key or fresh[i], "after a switch the output starts with a key packet", (k, i))
        ctx.check(data[0]["packet"]["data"] == bytes([k]), "the selected input passes")
        fresh = [j == i for j in range(pairs)]
      else: fresh[i] = False
    else: ctx.check(not data, "only the selected input passes")
    for kind, d in out:
      if kind == "pause": paused = d
    if len(best) == 1: ctx.check(paused == inp[best[0]], "the output is paused exactly when the selected input is", (k, op, i, best, paused))
  ctx.check(r.alive() and not r.loop.errors, "the switch keeps running", r.loop.errors)
  best = [j for j in vals if all(vals[j] >= x for x in vals.values())]
  for i in range(pairs):      # every receiver is still there
    if media: r.data(10 + i, MediaMessage(timestamp=5, packet=MediaPacket(data=b"x", pts=0, rel_dts=0, is_keyframe=True)).model_dump())
    else: r.data(10 + i, {"timestamp": 5, "k": -1})
    data = [d for kind, d in r.new() if kind == "data"]
    if i not in best: ctx.check(not data, "the switch keeps running", i)
    elif len(best) == 1: ctx.check(len(data) == 1, "the switch keeps running", i)


SW_MUST = ["only the selected input passes", "the selected input passes", "the output is paused exactly when the selected input is", "the switch keeps running"]


@harness("C18", "switch", shards=lambda tier: [dict(pairs=p, first=(f, i), n=3 if tier == "quick" else 4) for p in (2, 3) for f in range(5) for i in range(p if tier != "quick" else 1)], must=SW_MUST, model_patch=True)
def c18(ctx, pairs, first, n): _switch(ctx, switch.SwitchTask, pairs, first, n, False)


@harness("C18", "media_switch", shards=lambda tier: [dict(first=(f, i), n=3 if tier == "quick" else 4) for f in range(5) for i in range(1 if tier == "quick" else 2)],
         must=SW_MUST + ["after a switch the output starts with a key packet"], model_patch=True)
def c18_media(ctx, first, n): _switch(ctx, mediaswitch.MediaSwitchTask, 2, first, n, True)


@harness("C18", "media_selection", shards=lambda tier: [dict(second=a, third=b, n=6 if tier == "quick" else 7) for a in range(6) for b in range(6)],
         must=["after a switch the output starts with a key packet"], model_patch=True)
def c18_sel(ctx, second, third, n):
  """selections by rising control values and packets only: a deeper history"""
  from streamtasks.media.packet import MediaMessage, MediaPacket
  cfg = switch.SwitchConfig(pairs=[dict(input=10 + i, control=20 + i) for i in range(2)], output=OUT)
  r = Rig(ctx, lambda c: mediaswitch.MediaSwitchTask(c, cfg))
  for i in range(2):
    r.data(20 + i, {"timestamp": 5, "value": 0.0})
    r.data(10 + i, {"timestamp": 5})
  r.new()
  sel, fresh = -1, [False, False]
  for k in range(n):
    op = 0 if k == 0 else second if k == 1 else third if k == 2 else ctx.choice(f"op{k}", 6)
    if op < 2:
      sel = op
      r.data(20 + op, {"timestamp": 5, "value": float(k + 1)})
      ctx.check(not [1 for kind, _ in r.new() if kind == "data"], "only the selected input passes")
      continue
    i, key = (op - 2) // 2, op % 2 == 0
    r.data(10 + i, MediaMessage(timestamp=5, packet=MediaPacket(data=bytes([k]), pts=k, rel_dts=0, is_keyframe=key)).model_dump())
    data = [d for kind, d in r.new() if kind == "data"]
    want = i == sel and (key or fresh[i])
    ctx.check(len(data) == (1 if want else 0), "after a switch the output starts with a key packet", (k, i, key, fresh))
    if data:
      ctx.check(data[0]["packet"]["data"] == bytes([k]), "after a switch the output starts with a key packet")
      fresh = [j == i for j in range(2)]
    else: fresh[i] = False


# ---------------------------------------------------------------- C19 SR latch
meta("C19", bounds="histories of 4 (quick) / 6 (thorough) messages on set and reset, every float value including NaN and infinities, both defaults, malformed messages; synchronized with strictly increasing symbolic timestamps in every arrival order of 3+2",
     outside="equal timestamps in synchronized mode")


@harness("C19", "latch", shards=lambda tier: [dict(default=d, n=4 if tier == "quick" else 6, first=f) for d in (True, False) for f in range(3)], must=["every input message yields the latch state with its timestamp"], model_patch=True)
def c19(ctx, default, n, first):
  r = Rig(ctx, lambda c: srlatch.SRLatchTask(c, srlatch.SRLatchConfig(default_value=default, synchronized=False, out_topic=OUT, set_topic=1, reset_topic=2)))
  s, z, q = False, False, default
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 3)
    t = ctx.int(f"ts{k}", 0, 1000)
    if op == 2:
      r.data(1 + ctx.choice(f"on{k}", 2), {"timestamp": t})
      ctx.check(not r.new(), "every input message yields the latch state with its timestamp", "malformed")
      continue
    v = _num(ctx, f"value{k}")
    r.data(1 + op, {"timestamp": t, "value": v})
    if op == 0: s = v > 0.5
    else: z = v > 0.5
    q = ctx.Ite(ctx.And(s, ctx.Not(z)), True, ctx.Ite(ctx.And(z, ctx.Not(s)), False, q))
    out = r.new()
    ctx.check(len(out) == 1 and out[0][0] == "data", "every input message yields the latch state with its timestamp", out)
    ctx.check(ctx.And(out[0][1]["timestamp"] == t, (out[0][1]["value"] > 0.5) == q), "every input message yields the latch state with its timestamp", (k, out))
  ctx.check(r.alive(), "the latch keeps running")


@harness("C19", "synchronized", shards=lambda tier: [dict(order=o, counts=c) for c in ([(3, 2)] if tier == "quick" else [(3, 2), (3, 3)]) for o in _interleavings(c)], must=["the state follows the order of the timestamps"], model_patch=True)
def c19_sync(ctx, order, counts):
  r = Rig(ctx, lambda c: srlatch.SRLatchTask(c, srlatch.SRLatchConfig(default_value=False, synchronized=True, out_topic=OUT, set_topic=1, reset_topic=2)))
  ts, val = [[], []], [[], []]
  first = []
  for k, i in enumerate(order):
    t = ctx.int(f"ts{k}", 0, 10000)
    if ts[i]: ctx.assume(t > ts[i][-1])
    for u in ts[1 - i]: ctx.assume(t != u)
    # the input that speaks up second must not start in the past of what was already released
    if not ts[i] and ts[1 - i]: ctx.assume(t > ts[1 - i][-1])
    v = ctx.flag(f"on{k}")
    ts[i].append(t); val[i].append(v)
    r.data(1 + i, {"timestamp": t, "value": 1.0 if v else 0.0})
  out = [d for kind, d in r.new() if kind == "data"]
  ev = [(t, i, v) for i in range(2) for t, v in zip(ts[i], val[i])]
  srt = []
  for e in ev:
    j = 0
    while j < len(srt) and srt[j][0] < e[0]: j += 1
    srt.insert(j, e)
  st, q, want = [False, False], False, []
  for t, i, v in srt:
    st[i] = v
    if st[0] != st[1]: q = st[0]
    want.append((t, q))
  ctx.check(len(out) <= len(want), "the state follows the order of the timestamps")
  for d, (t, q) in zip(out, want):
    ctx.check(ctx.And(d["timestamp"] == t, (d["value"] > 0.5) == q), "the state follows the order of the timestamps", (order, d, q))
  # only what is newer than the other input's newest message may still be held back
  held = want[len(out):]
  low = ctx.Ite(ts[0][-1] < ts[1][-1], ts[0][-1], ts[1][-1])
  for t, _ in held: ctx.check(t > low, "nothing is held back needlessly", (order, len(out)))


# ---------------------------------------------------------------- C20 buffers over time
meta("C20", bounds="time buffer: histories of 6 (thorough 8) messages and pauses by message time and 3 (4) by clock with any integer timestamps and sizes 1..5000, symbolic arrival times; replay buffer: 2 (thorough 3) buffered messages with any timestamps, play/stop at symbolic times, loop and no loop; repeater: histories of 3 (thorough 4) events with symbolic timestamps at 4 rates",
     outside="the file behind the buffer (C31); rates that have no finite decimal period", assumptions=["the dbm file behaves as a key/value store", "timers fire at their deadline"])


class FakeDbm:
  """contract of a dbm file: bytes under str/bytes keys, no clear() before Python 3.13"""
  class Db:
    def __init__(self): self.d = {}
    def _k(self, k): return k.encode() if isinstance(k, str) else k
    def __setitem__(self, k, v): self.d[self._k(k)] = v
    def __getitem__(self, k): return self.d[self._k(k)]
    def __delitem__(self, k): del self.d[self._k(k)]
    def __contains__(self, k): return self._k(k) in self.d
    def __len__(self): return len(self.d)
    def keys(self): return list(self.d)
    def close(self): pass
  def __init__(self): self.opened = []
  def open(self, *a):
    self.opened.append(FakeDbm.Db())
    return self.opened[-1]


def _env(ctx, *mods, start=100):
  """virtual clock and store"""
  from symx.modelpatch import stub_msgpack
  import streamtasks.rawdatabuffer as rdb
  loop = ctx.loop(start=Fraction(start))
  stub_msgpack(ctx)
  ctx.stub(rdb, "dbm", FakeDbm())
  ms = lambda: _floor(loop.time() * 1000)
  ctx.stub(streamtasks.utils, "get_timestamp_ms", ms)
  for m in mods:
    if hasattr(m, "get_timestamp_ms"): ctx.stub(m, "get_timestamp_ms", ms)
  return loop, ms


def _floor(x):
  return x.__floor__()


@harness("C20", "time_buffer_message", shards=lambda tier: [dict(first=a, second=b, n=6 if tier == "quick" else 8) for a in range(4) for b in range(4)],
         must=["messages come out once and in order", "no message comes out early", "no message is held too long", "the output pauses when the input is paused and the buffer is empty"], model_patch=True)
def c20_msg(ctx, first, second, n):
  loop, ms = _env(ctx, timebuffer)
  size = ctx.int("size", 1, 5000)
  r = Rig(ctx, lambda c: timebuffer.TimeBufferTask(c, timebuffer.TimeBufferConfig(time_reference="message", size=100, out_topic=OUT, in_topic=1)))
  r.task.config.size = size
  ts, out, paused, op_paused = [], 0, False, False
  for k in range(n):
    op = (first, second)[k] if k < 2 else ctx.choice(f"op{k}", 4)
    if op == 0:
      ts.append(ctx.int(f"ts{k}", -10000, 10000))
      r.data(1, {"timestamp": ts[-1], "k": len(ts) - 1})
    elif op == 1:
      ts.append(None)
      r.data(1, {"k": len(ts) - 1})
    else:
      paused = op == 2
      r.pause(1, paused)
    new = r.new()
    for kind, d in new:
      if kind == "pause": op_paused = d; continue
      ctx.check(d["k"] == out, "messages come out once and in order", (k, d["k"], out))
      t = ts[out]
      out += 1
      if t is None: continue
      ctx.check(d["timestamp"] == t, "messages come out once and in order")
      last = out == len(ts)
      if last: ctx.check(paused, "no message comes out early", (k, op))
      else: ctx.check(paused or (ts[-1] is not None and ts[-1] - t >= size), "no message comes out early", (k, op))
    rest = ts[out:]
    if len(rest) > 1:
      ctx.check(rest[0] is not None, "no message is held too long", rest)
      if rest[-1] is not None: ctx.check(rest[-1] - rest[0] < size, "no message is held too long", rest)
    ctx.check(not (paused and len(rest) == 1), "no message is held too long", "single")
    ctx.check(op_paused == (paused and not rest), "the output pauses when the input is paused and the buffer is empty", (k, op, op_paused))
  ctx.check(r.alive(), "the buffer keeps running")


@harness("C20", "time_buffer_clock", shards=lambda tier: [dict(first=a, second=b, n=3 if tier == "quick" else 4) for a in range(4) for b in range(4)],
         must=["messages come out once and in order", "a message comes out exactly when its delay is over", "the output pauses when the input is paused and the buffer is empty"], model_patch=True)
def c20_clock(ctx, first, second, n):
  loop, ms = _env(ctx, timebuffer)
  size = ctx.int("size", 1, 5000)
  r = Rig(ctx, lambda c: timebuffer.TimeBufferTask(c, timebuffer.TimeBufferConfig(time_reference="clock", size=100, out_topic=OUT, in_topic=1)))
  r.task.config.size = size
  when = []
  orig = r.peer._send
  async def send(m):
    if isinstance(m, r.msgs.TopicDataMessage): when.append(ms())
    await orig(m)
  r.peer._send = send
  due, prev, paused = [], None, False
  for k in range(n):
    op = (first, second)[k] if k < 2 else ctx.choice(f"op{k}", 4)
    gap = ctx.int(f"gap{k}", 0, 3000)
    loop.advance(Fraction(gap, 1000) if type(gap) is int else gap / 1000)
    now = ms()
    if op < 2:
      t = ctx.int(f"ts{k}", 90000, 110000) if op == 0 else None
      e = now if t is None or t + size <= now else t + size
      if prev is not None and prev > e: e = prev
      due.append(e)
      prev = e
      r.data(1, {"k": len(due) - 1, **({} if t is None else {"timestamp": t})})
    else:
      paused = op == 2
      r.pause(1, paused)
  loop.advance(60)
  ctx.check(len(when) == len(due), "messages come out once and in order", (len(when), len(due)))
  data = r.new()
  for k, ((_, d), w, e) in enumerate(zip([x for x in data if x[0] == "data"], when, due)):
    ctx.check(d["k"] == k, "messages come out once and in order")
    ctx.check(w == e, "a message comes out exactly when its delay is over", (k, w, e))
  st = [d for kind, d in data if kind == "pause"]
  ctx.check((st[-1] if st else False) == paused, "the output pauses when the input is paused and the buffer is empty", (st, paused))
  ctx.check(r.alive(), "the buffer keeps running")


@harness("C20", "replay", shards=lambda tier: [dict(lp=l, n=2 if tier == "quick" else 3, mid=m, early=e) for l in (False, True) for m in ("none", "stop", "restart", "clear", "append", "again") for e in range(3)],
         must=["playback repeats the buffered messages in order at their relative times", "nothing is played while stopped", "the output is paused unless playing", "the buffer keeps running"], model_patch=True)
def c20_replay(ctx, lp, n, mid, early):
  loop, ms = _env(ctx, replaybuffer)
  r = Rig(ctx, lambda c: replaybuffer.ReplayBufferTask(c, replaybuffer.ReplayBufferConfig(loop=lp, out_topic=OUT, in_topic=1, play_topic=2)))
  when = []
  orig = r.peer._send
  async def send(m):
    if isinstance(m, r.msgs.TopicDataMessage):
      when.append(ms())
      if len(when) > 40: await asyncio.Future()      # a playback that never pauses would not end here
    await orig(m)
  r.peer._send = send
  ts = []
  for k in range(n):
    t = ctx.int(f"ts{k}", 0, 2000)
    if ts: ctx.assume(t >= ts[-1])
    ts.append(t)
    r.data(1, {"timestamp": t, "k": k})
  if early == 1: r.data(1, {"k": n})       # a message without a timestamp plays right after the one before
  if early == 2: r.data(1, [1, 2])         # a message that is no dictionary does as well
  total = n + (early > 0)
  ctx.check(not [1 for kind, _ in r.new() if kind == "data"], "nothing is played while stopped")
  ctx.check(r.task.out_topic.is_paused, "the output is paused unless playing", "before the first play")
  p = ctx.int("play_ts", 0, 10 ** 6)
  start = ms()
  r.data(2, {"timestamp": p, "value": 1.0})
  due = [start + (t - ts[0]) for t in ts] + [start + (ts[-1] - ts[0])] * (early > 0)
  def played(lo, hi, begin, base):
    """the messages sent in (lo, hi] are exactly those due there"""
    out = [d for kind, d in r.new() if kind == "data"]
    w = when[-len(out):] if out else []
    return out, w
  def verify(out, w, due_at, base, until):
    k = 0
    for d, at in zip(out, w):
      ctx.check(k < total, "playback repeats the buffered messages in order at their relative times", "too many")
      if k >= n:
        if early == 2: ctx.check(d == [1, 2], "playback repeats the buffered messages in order at their relative times")
        else: ctx.check(d["k"] == k and "timestamp" not in d, "playback repeats the buffered messages in order at their relative times")
      else: ctx.check(ctx.And(d["k"] == k, d["timestamp"] == base + (ts[k] - ts[0])), "playback repeats the buffered messages in order at their relative times", (k, d))
      ctx.check(at == due_at[k], "playback repeats the buffered messages in order at their relative times", (k, at, due_at[k]))
      k += 1
    for j in range(k, total): ctx.check(due_at[j] > until, "playback repeats the buffered messages in order at their relative times", ("missing", j))
    return k
  if not lp:
    gap = ctx.int("gap", 0, 3000)
    loop.advance(gap / 1000 if ctx.symbolic and type(gap) is not int else Fraction(gap, 1000))
    now = ms()
    ev = r.new()
    out = [d for kind, d in ev if kind == "data"]
    k = verify(out, when[-len(out):] if out else [], due, p, now)
    if mid in ("stop", "restart"):
      r.data(2, {"timestamp": p + 1, "value": 0.0})
      nw = len(when)
      ctx.check(r.task.out_topic.is_paused, "the output is paused unless playing")
      loop.advance(10)
      ctx.check(len(when) == nw, "nothing is played while stopped")
      if mid == "restart":
        r.new()
        s2 = ms()
        r.data(2, {"timestamp": p + 5, "value": 1.0})
        ctx.check(k == -1 or not r.task.out_topic.is_paused or total == 0 or len(when) == nw + total, "the output is paused unless playing")
        loop.advance(10)
        out = [d for kind, d in r.new() if kind == "data"]
        ctx.check(len(out) == total, "playback repeats the buffered messages in order at their relative times", ("restart", len(out)))
        verify(out, when[nw:], [s2 + (t - ts[0]) for t in ts] + [s2 + (ts[-1] - ts[0])] * (early > 0), p + 5, s2 + 10000)
    elif mid == "clear":
      r.pause(1, True)
      r.pause(1, False)
      nw = len(when)
      loop.advance(10)
      ctx.check(len(when) == nw, "a resumed input starts a new recording")
      ctx.check(r.alive(), "the buffer keeps running", r.job)
      r.data(1, {"timestamp": 7, "k": 0})
      r.new()
      r.data(2, {"timestamp": 9, "value": 0.0}); r.data(2, {"timestamp": 9, "value": 1.0})
      loop.advance(10)
      out = [d for kind, d in r.new() if kind == "data"]
      ctx.check(len(out) in (1, 2) and all(d["k"] == 0 and "timestamp" in d for d in out), "a resumed input starts a new recording", out)
    elif mid == "append":
      t = ctx.int("late", 0, 3000)
      ctx.assume(t >= ts[-1])
      r.data(1, {"timestamp": t, "k": 99})
      loop.advance(10)
      out = [d for kind, d in r.new() if kind == "data"]
      rest = total - k
      ctx.check(rest <= len(out) <= rest + 1, "playback repeats the buffered messages in order at their relative times", ("append", len(out), rest))
    elif mid == "again":
      r.data(2, {"timestamp": p + 1, "value": 1.0})
      loop.advance(10)
      out = [d for kind, d in r.new() if kind == "data"]
      ctx.check(len(out) == total - k, "playback repeats the buffered messages in order at their relative times", ("again", len(out)))
      ctx.check(r.task.out_topic.is_paused, "the output is paused unless playing")
    else:
      loop.advance(10)
      ctx.check(r.task.out_topic.is_paused, "the output is paused unless playing")
      ctx.check(len(when) == total, "playback repeats the buffered messages in order at their relative times")
  else:
    loop.advance(Fraction(5, 1000))
    out = [d for kind, d in r.new() if kind == "data"]
    ctx.check(len(when) <= 40, "a looping playback lets the rest of the system run", len(when))
    if mid in ("stop", "restart"):
      r.data(2, {"timestamp": p + 1, "value": 0.0})
      nw = len(when)
      loop.advance(1)
      ctx.check(len(when) == nw, "nothing is played while stopped")
      ctx.check(r.task.out_topic.is_paused, "the output is paused unless playing")
    ks = [d["k"] if isinstance(d, dict) else n for d in out]
    ctx.check(all(x == i % total for i, x in enumerate(ks)), "playback repeats the buffered messages in order at their relative times", ks)
    ctx.check(len(ks) >= 1, "playback repeats the buffered messages in order at their relative times")
  ctx.check(r.alive(), "the buffer keeps running", r.job)


@harness("C20", "repeater", shards=lambda tier: [dict(rate=x, closed=c, first=f, second=s, n=3 if tier == "quick" else 4) for x, c in ((4, False), (2, True)) for f in range(4) for s in range(4)],
         must=["the last message is repeated at the rate with the current time", "nothing is sent while the input is paused"], model_patch=True)
def c20_repeater(ctx, rate, closed, first, second, n):
  loop, ms = _env(ctx, repeater)
  class T:
    time = staticmethod(loop.time)
  ctx.stub(repeater, "time", T)
  r = Rig(ctx, lambda c: repeater.RepeaterTask(c, repeater.RepeaterConfig(rate=rate, fail_closed=closed, out_topic=OUT, in_topic=1)))
  log = []
  orig = r.peer._send
  async def send(m):
    if isinstance(m, r.msgs.TopicDataMessage): log.append((ms(), m.data.data))
    await orig(m)
  r.peer._send = send
  period = 1000 // rate
  cur, tick, paused, want = None, None, False, []      # cur = (k, ts, arrival); tick = next deadline
  for k in range(n + 1):
    op = (first, second)[k] if k < 2 else ctx.choice(f"op{k}", 4)
    gap = ctx.int(f"gap{k}", 1, 2 * period)
    target = ms() + gap
    while tick is not None and tick <= target:
      ctx.assume(tick != target)          # not at the very moment of a repetition
      if cur is None: tick = None
      else:
        if not paused: want.append((tick, cur[0], cur[1] + (tick - cur[2])))
        tick = tick + period
    loop.advance(gap / 1000 if type(gap) is not int else Fraction(gap, 1000))
    if k == n: break
    if op == 0:
      t = ctx.int(f"ts{k}", -10000, 10 ** 6)
      cur = (k, t, target)
      if tick is None:
        if not paused: want.append((target, k, t))
        tick = target + period
      r.data(1, {"timestamp": t, "k": k})
    elif op == 1:
      if closed: cur = None
      else: want.append((target, k, None))
      r.data(1, {"k": k})
    else:
      paused = op == 2
      r.pause(1, paused)
      ctx.check(r.task.out_topic.is_paused == paused, "the output is paused exactly when the input is")
  ctx.check(len(log) == len(want), "the last message is repeated at the rate with the current time", (len(log), len(want)))
  for (at, d), (t, k, ts) in zip(log, want):
    ctx.check(ctx.And(at == t, d["k"] == k), "the last message is repeated at the rate with the current time", (at, t, d))
    if ts is None: ctx.check("timestamp" not in d, "the last message is repeated at the rate with the current time")
    else: ctx.check(d["timestamp"] == ts, "the last message is repeated at the rate with the current time", (d, ts))
  if not want: ctx.check(not log, "nothing is sent while the input is paused")
  ctx.check(r.alive(), "the repeater keeps running")


# ---------------------------------------------------------------- C21 timestamps
meta("C21", bounds="timestamp updater: 2 messages of 7 shapes (integer, float incl. NaN and infinities, text, missing, no dictionary) with every timestamp and offset, both references, both fail modes; time to text: any integer timestamp, every documented outcome of the date conversion; synchronizer: 2 streams, 2+2 messages",
     outside="the text produced by strftime", assumptions=["datetime.fromtimestamp returns a date or raises ValueError, OverflowError or OSError"])
SHAPES = ["int", "float", "text", "missing", "list", "number", "none"]


def _shaped(ctx, name, shape, k):
  """(payload, timestamp or None if it carries none)"""
  if shape == "int":
    t = ctx.int(name, -10 ** 14, 10 ** 14)
    return {"timestamp": t, "k": k}, t
  if shape == "float":
    t = ctx.float(name)
    return {"timestamp": t, "k": k}, t
  if shape == "text": return {"timestamp": "12", "k": k}, None
  if shape == "missing": return {"time": 1, "k": k}, None
  if shape == "list": return [k, "timestamp"], None
  if shape == "number": return 5 + k, None
  return {"timestamp": None, "k": k}, None


@harness("C21", "timestamp_updater", shards=lambda tier: [dict(ref=x, closed=c, s1=a, s2=b) for x in ("message", "clock") for c in (True, False) for a in SHAPES for b in (("int", "float", "missing") if tier == "quick" else SHAPES)],
         must=["every message with a usable timestamp is sent once with the new timestamp", "a message that can not be stamped is dropped or passed as configured", "the node keeps running"], model_patch=True)
def c21(ctx, ref, closed, s1, s2):
  loop, ms = _env(ctx, timestampupdater)
  off = ctx.int("offset", -10 ** 9, 10 ** 9)
  r = Rig(ctx, lambda c: timestampupdater.TimestampUpdaterTask(c, timestampupdater.TimestampUpdaterConfig(time_reference=ref, time_offset=0, fail_closed=closed, out_topic=OUT, in_topic=1)))
  r.task.config.time_offset = off
  for k, shape in enumerate((s1, s2)):
    gap = ctx.int(f"gap{k}", 0, 5000)
    loop.advance(gap / 1000 if type(gap) is not int else Fraction(gap, 1000))
    p, t = _shaped(ctx, f"ts{k}", shape, k)
    orig = dict(p) if isinstance(p, dict) else p
    r.data(1, p)
    out = r.new()
    ok = isinstance(p, dict) and "timestamp" in p if ref == "clock" else t is not None
    if ok and ref == "message" and shape == "float":
      if t != t or t == math.inf or t == -math.inf: ok = False
    if ok:
      want = ms() if ref == "clock" else (int(t) if type(t) is float else t.__trunc__() if shape == "float" else t)
      ctx.check(len(out) == 1 and out[0][0] == "data", "every message with a usable timestamp is sent once with the new timestamp", (shape, out))
      ctx.check(ctx.And(out[0][1]["timestamp"] == want + off, out[0][1]["k"] == k), "every message with a usable timestamp is sent once with the new timestamp", (shape, out))
      ctx.check(len(out[0][1]) == len(orig), "every message with a usable timestamp is sent once with the new timestamp")
    elif closed: ctx.check(not out, "a message that can not be stamped is dropped or passed as configured", (shape, out))
    else:
      ctx.check(len(out) == 1 and (out[0][1] == orig if not isinstance(orig, dict) else out[0][1]["k"] == k and out[0][1].keys() == orig.keys()),
                "a message that can not be stamped is dropped or passed as configured", (shape, out))
      if shape == "float": ctx.check(ctx.same(out[0][1]["timestamp"], t), "a message that can not be stamped is dropped or passed as configured")
    if k == 0:
      f = ctx.flag("pause")
      r.pause(1, f)
      ctx.check([d for kind, d in r.new() if kind == "pause"] == ([True] if f else []), "the pause state is mirrored")
  ctx.check(r.alive(), "the node keeps running", r.job)


@harness("C21", "time_to_text", shards=[dict(shape=s) for s in SHAPES], must=["a message with a timestamp becomes its text", "the node keeps running"], model_patch=True)
def c21_text(ctx, shape):
  import datetime as dt
  r = Rig(ctx, lambda c: timetotext.TimeToTextTask(c, timetotext.TimeToTextConfig(date_format="<fmt>", out_topic=OUT, in_topic=1)))
  seen = []
  class D:
    @staticmethod
    def fromtimestamp(x):
      seen.append(x)
      o = ctx.choice("conversion", 4)
      if o: raise [None, ValueError, OverflowError, OSError][o]("out of range")
      return D()
    def strftime(self, f):
      ctx.check(f == "<fmt>", "a message with a timestamp becomes its text")
      return "date"
  ctx.stub(timetotext, "datetime", D)
  p, t = _shaped(ctx, "ts", shape, 0)
  r.data(1, p)
  out = r.new()
  usable = t is not None and not (shape == "float" and (t != t or t == math.inf or t == -math.inf))
  if usable and ctx.choice("conversion", 4) == 0:
    i = t if shape == "int" else int(t) if type(t) is float else t.__trunc__()
    ctx.check(len(seen) == 1 and len(out) == 1, "a message with a timestamp becomes its text", (seen, out))
    ctx.check(ctx.And(seen[0] * 1000 == i if ctx.symbolic else abs(seen[0] * 1000 - i) < 1, out[0][1]["timestamp"] == i, out[0][1]["value"] == "date"), "a message with a timestamp becomes its text", (seen, out))
  else: ctx.check(not out, "a message without a usable timestamp has no text", out)
  ctx.check(r.alive(), "the node keeps running", r.job)


@harness("C21", "synchronizer", shards=lambda tier: [dict(order=o) for o in _interleavings((2, 2))], must=["each stream keeps its messages and order", "the streams are released in timestamp order"], model_patch=True)
def c21_sync(ctx, order):
  r = Rig(ctx, lambda c: synchronizer.SynchronizerTask(c, synchronizer.SynchronizerConfig(topics=[(1, 91), (2, 92)])))
  for i in range(2): r.data(1 + i, {"timestamp": 0, "k": -1})
  ts, sent = [[], []], []
  for k, i in enumerate(order):
    t = ctx.int(f"ts{k}", 1, 10000)
    if ts[i]: ctx.assume(t >= ts[i][-1])
    ts[i].append(t)
    r.data(1 + i, {"timestamp": t, "k": len(ts[i]) - 1})
  r.pause(1, True)
  out = r.peer.sent
  rel = [(m.topic - 91, m.data.data) for m in out if isinstance(m, r.msgs.TopicDataMessage)][2:]
  for i in range(2):
    ks = [d["k"] for j, d in rel if j == i]
    ctx.check(ks == list(range(len(ks))), "each stream keeps its messages and order", (i, ks))
  for (a, x), (b, y) in zip(rel, rel[1:]): ctx.check(x["timestamp"] <= y["timestamp"], "the streams are released in timestamp order", rel)
  if not any(j == 0 and d["k"] == 1 for j, d in rel):      # the pause came behind the messages of its input
    ctx.check(ts[0][1] > ts[1][1], "nothing is held back needlessly")
  else:
    ctx.check([d["k"] for j, d in rel if j == 1] == [0, 1], "nothing is held back needlessly", rel)
    ctx.check([m.paused for m in out if isinstance(m, r.msgs.TopicControlMessage) and m.topic == 91] == [True], "the pause state is mirrored")


# ---------------------------------------------------------------- C22 message detector
meta("C22", bounds="histories of 2-3 (quick) / 3-4 (thorough) events (message with any integer or float timestamp, message without, pause, resume) at symbolic times, with and without time-out (1 s) and repetition (every 1 s), both fail modes",
     outside="an event at the very millisecond of a time-out or repetition")


@harness("C22", "detector", shards=lambda tier: [dict(mode=m, timeout=t, repeat=p, first=f, second=s, n=(2 if t or p else 3) + (tier != "quick")) for m in ("open", "closed") for t, p in ((False, False), (True, False), (False, True)) for f in range(4) for s in range(4)]
         + [dict(mode=m, timeout=True, repeat=False, first=2, second=s, third=3, n=3) for m in ("open", "closed") for s in (0, 1)],
         must=["the signal tells whether valid messages arrive", "the signal is repeated"], model_patch=True)
def c22(ctx, mode, timeout, repeat, first, second, n, third=None):
  loop, ms = _env(ctx, messagedetector)
  cfg = messagedetector.MessageDetectorConfig(fail_mode=mode, time_out=0, repeat_interval=0, in_topic=1, signal_topic=OUT)
  to = 1 if timeout else None
  rep = 1 if repeat else None
  if timeout: cfg.time_out = to
  if repeat: cfg.repeat_interval = rep
  r = Rig(ctx, lambda c: messagedetector.MessageDetectorTask(c, cfg))
  ctx.check(len(r.new()) == 1, "the signal tells whether valid messages arrive", "initial")
  off, invalid, paused, timed = 0, False, False, False
  last_msg, last_sent, cur, count = ms(), ms(), True, 0
  for k in range(n + 1):
    op = (first, second, third)[k] if k < 2 or k == 2 and third is not None else ctx.choice(f"op{k}", 4)
    gap = ctx.int(f"gap{k}", 1, 2200 if timeout else 1500)
    target = ms() + gap
    expected = 0
    if timeout:
      ctx.assume(last_msg + to * 1000 != target)
      # a time-out that recurs without messages changes nothing
      x = last_msg
      late = target - last_msg > to * 1000
      if not timed and late: timed = True
      m = (target - last_msg) % (to * 1000) if False else None
    if repeat:
      while last_sent + rep * 1000 <= target:
        ctx.assume(last_sent + rep * 1000 != target)
        last_sent = last_sent + rep * 1000
        expected += 1
    loop.advance(gap / 1000 if type(gap) is not int else Fraction(gap, 1000))
    now = target
    out = [d for kind, d in r.new() if kind == "data"]
    if repeat:
      ctx.check(len(out) == expected, "the signal is repeated", (k, len(out), expected))
      for d in out: ctx.check((d["value"] > 0.5) == cur, "the signal is repeated")
    sig = not (paused or timed) and not (invalid and mode == "closed")
    if timeout:
      ctx.check(len(out) == (1 if sig != cur else 0) or (len(out) <= 1 and sig == cur), "the signal tells whether valid messages arrive", (k, out))
      if out: ctx.check((out[-1]["value"] > 0.5) == sig, "the signal tells whether valid messages arrive", (k, out, sig))
    cur = sig
    if k == n: break
    before = (invalid, paused, timed)
    if op == 0:
      if not (timeout or repeat) and ctx.flag(f"float{k}"):
        t = ctx.float(f"ts{k}")
        r.data(1, {"timestamp": t})
        bad = t != t or t == math.inf or t == -math.inf
        stamp = None
      else:
        t = ctx.int(f"ts{k}", 0, 10 ** 6)
        r.data(1, {"timestamp": t})
        bad, stamp = False, t
      invalid = bool(bad)
      last_msg, timed = now, False
    elif op == 1:
      r.data(1, {"k": 1}); invalid = True; stamp = None
      last_msg, timed = now, False
    else:
      paused = op == 2; stamp = None
      r.pause(1, paused)
    sig = not (paused or timed) and not (invalid and mode == "closed")
    out = [d for kind, d in r.new() if kind == "data"]
    if sig != cur: ctx.check(len(out) >= 1, "the signal tells whether valid messages arrive", (k, op, sig, cur))
    if (invalid, paused, timed) == before: ctx.check(len(out) == 0, "the signal is only sent when something changed", (k, op, out))
    for d in out: ctx.check((d["value"] > 0.5) == sig, "the signal tells whether valid messages arrive", (k, op, out))
    if out and stamp is not None: ctx.check(out[-1]["timestamp"] == stamp, "the signal carries the time of the messages")
    if out: last_sent = now
    cur = sig
  ctx.check(r.alive(), "the detector keeps running", r.job)


# ---------------------------------------------------------------- C23 text nodes
meta("C23", bounds="concatenator: histories of 4 (quick) / 5 (thorough) texts, controls and malformed messages, every control number, and synchronized runs of 2 texts and 2 controls with every timestamp; matcher: 12 literal patterns in 6 flag sets against every text of up to 3 (thorough 4) characters over an alphabet with newline and metacharacters; formatter: 3 templates over 2 variables, histories of 3 (4) texts, pauses and malformed messages",
     outside="user supplied regular expressions; NaN control numbers in the concatenator; templates with format specifications")


@harness("C23", "concatenator", shards=lambda tier: [dict(first=a, second=b, n=4 if tier == "quick" else 5) for a in range(4) for b in range(4)],
         must=["a rising control sends everything collected since the last time", "nothing is sent without a rising control"], strings=True, model_patch=True)
def c23_concat(ctx, first, second, n):
  r = Rig(ctx, lambda c: stringconcatenator.StringConcatenatorTask(c, stringconcatenator.StringConcatenatorConfig(synchronized=False, control_topic=1, in_topic=2, out_topic=OUT)))
  acc, high = [], False
  for k in range(n):
    op = (first, second)[k] if k < 2 else ctx.choice(f"op{k}", 4)
    t = ctx.int(f"ts{k}", 0, 1000)
    want = None
    if op == 0:
      c = ctx.str(f"text{k}", 1)
      acc.append(c)
      r.data(2, {"timestamp": t, "value": c})
    elif op == 1:
      v = ctx.float(f"value{k}", nan=False)
      r.data(1, {"timestamp": t, "value": v})
      h = bool(v > 0.5)
      if h and not high and acc: want, acc = acc, []
      high = h
    elif op == 2: r.data(1 + ctx.choice(f"which{k}", 2), {"timestamp": t, "value": [1]})
    else: r.pause(2, True); r.pause(2, False)
    out = [d for kind, d in r.new() if kind == "data"]
    if want is None: ctx.check(not out, "nothing is sent without a rising control", (k, op))
    else:
      ctx.check(len(out) == 1 and len(out[0]["value"]) == len(want), "a rising control sends everything collected since the last time", (k, out))
      ctx.check(ctx.And(out[0]["timestamp"] == t, *[a == b for a, b in zip(out[0]["value"], want)]), "a rising control sends everything collected since the last time", (k, out))
  ctx.check(r.alive(), "the node keeps running", r.job)


@harness("C23", "concatenator_synchronized", shards=lambda tier: [dict(order=o) for o in _interleavings((2, 2) if tier == "quick" else (3, 2))],
         must=["a rising control sends the texts up to its timestamp"], model_patch=True)
def c23_concat_sync(ctx, order):
  r = Rig(ctx, lambda c: stringconcatenator.StringConcatenatorTask(c, stringconcatenator.StringConcatenatorConfig(synchronized=True, control_topic=1, in_topic=2, out_topic=OUT)))
  r.data(1, {"timestamp": 0, "value": 0.0})
  r.data(2, {"timestamp": 0, "value": "-"})
  ts, on = [[], []], []
  for k, i in enumerate(order):
    t = ctx.int(f"ts{k}", 1, 10000)
    if ts[i]: ctx.assume(t > ts[i][-1])
    ts[i].append(t)
    if i == 0:
      on.append(ctx.flag(f"on{k}"))
      r.data(1, {"timestamp": t, "value": 1.0 if on[-1] else 0.0})
    else: r.data(2, {"timestamp": t, "value": chr(97 + len(ts[1]) - 1)})
  out = [(d["timestamp"], d["value"]) for kind, d in r.new() if kind == "data"]
  want, done, high = [], -1, False
  last = ts[1][-1] if ts[1] else 0
  for t, h in zip(ts[0], on):
    if t > last: break                # texts up to here have not all arrived: held back
    if h and not high:
      k = sum(1 for x in ts[1] if x <= t) - 1
      s = ("-" if done == -1 else "") + "".join(chr(97 + j) for j in range(max(done, 0) if done != -1 else 0, k + 1))
      if s:
        want.append((t, s))
        done = k + 1
    high = h
  ctx.check(len(out) == len(want), "a rising control sends the texts up to its timestamp", (order, out, want))
  for (a, x), (b, y) in zip(out, want): ctx.check(ctx.And(a == b, x == y), "a rising control sends the texts up to its timestamp", (order, x, y))


PATTERNS = ["a", "", "ab", "aB", "a.b", ".", "(", "*", "a\n", "\n", "^a", "b$"]
TEXT = "aAbB.(*\n^$"


@harness("C23", "matcher", shards=lambda tier: [dict(pattern=p, flags=f, n=n) for p in PATTERNS for f in ("i", "", "s", "m", "x", "zi") for n in range(4 if tier == "quick" else 5)],
         must=["one number per text: whether it contains the pattern"], strings=True, model_patch=True)
def c23_match(ctx, pattern, flags, n):
  r = Rig(ctx, lambda c: stringmatcher.StringMatcherTask(c, stringmatcher.StringMatcherConfig(pattern=pattern, flags=flags, is_regex=False, out_topic=OUT, in_topic=1)))
  t = ctx.int("ts", 0, 1000)
  s = ctx.str("text", n, TEXT)
  r.data(1, {"timestamp": t, "value": 5})
  r.data(1, {"timestamp": t, "value": s})
  out = [d for kind, d in r.new() if kind == "data"]
  ctx.check(len(out) == 1 and out[0]["value"] in (0, 1), "one number per text: whether it contains the pattern", out)
  ctx.check(out[0]["timestamp"] == t, "one number per text: whether it contains the pattern")
  alts = []
  ci = "i" in flags
  for i in range(n - len(pattern) + 1):
    alts.append(ctx.And(*[ctx.Or(*[s[i + j] == x for x in ({c.lower(), c.upper()} if ci else {c})]) for j, c in enumerate(pattern)]) if pattern else True)
  has = ctx.Or(*alts) if alts else False
  ctx.check((out[0]["value"] == 1) == has, "one number per text: whether it contains the pattern", (s, out))
  r.pause(1, True)
  ctx.check([d for kind, d in r.new()] == [True] and r.alive(), "the pause state is mirrored")


TEMPLATES = [("{a}|{b}", ["a", "|", "b"]), ("x{b}{{{b}}}", ["x", "b", "{", "b", "}"]), ("none", ["none"])]


@harness("C23", "formatter", shards=lambda tier: [dict(tpl=t, sync=s, n=3 if tier == "quick" else 4) for t in range(3) for s in (True, False)],
         must=["every text yields the template with the current values"], strings=True, model_patch=True)
def c23_format(ctx, tpl, sync, n):
  text, parts = TEMPLATES[tpl]
  cfg = textformatter.TextFormatterConfig(out_topic=OUT, template=text, synchronized=sync, variable_tracks=[dict(name="a", default_text="A", in_topic=1), dict(name="b", default_text="", in_topic=2)])
  r = Rig(ctx, lambda c: textformatter.TextFormatterTask(c, cfg))
  cur, default = {"a": "A", "b": ""}, {"a": "A", "b": ""}
  for k in range(n):
    i = ctx.choice(f"var{k}", 2)
    op = ctx.choice(f"op{k}", 3)
    name = "ab"[i]
    if op == 0:
      c = ctx.str(f"text{k}", 1)
      cur[name] = c
      r.data(1 + i, {"timestamp": 5, "value": c})
    elif op == 1: r.data(1 + i, {"timestamp": 5, "value": 7})
    else:
      r.pause(1 + i, True)
      cur[name] = default[name]
    out = [d for kind, d in r.new() if kind == "data"]
    if op: ctx.check(not out, "nothing is sent for a pause or a malformed message")
    else:
      want = [ch for p in parts for ch in (cur[p] if p in cur else p)]
      ctx.check(len(out) == 1 and len(out[0]["value"]) == len(want), "every text yields the template with the current values", (out, want))
      ctx.check(ctx.And(out[0]["timestamp"] == 5, *[a == b for a, b in zip(out[0]["value"], want)]), "every text yields the template with the current values", (out, want))
  ctx.check(r.alive(), "the node keeps running")


@harness("C23", "number_to_text", shards=[dict(kind=k) for k in ("float", "int", "bad")], must=["every number becomes its text"], model_patch=True)
def c23_number(ctx, kind):
  r = Rig(ctx, lambda c: numbertotext.NumberToTextTask(c, numbertotext.NumberToTextConfig(out_topic=OUT, in_topic=1)))
  t = ctx.int("ts", -1000, 1000)
  for bad in (3, {"timestamp": t}, {"timestamp": t, "value": None}, []):
    r.data(1, bad)
    ctx.check(not r.new(), "malformed messages yield nothing")
  v = ctx.float("value") if kind == "float" else ctx.pick("value", [0, -3, 10 ** 16, 0.1, 1e300])
  r.data(1, {"timestamp": t, "value": v})
  out = r.new()
  ctx.check(len(out) == 1 and out[0][0] == "data" and out[0][1]["value"] == str(v if kind == "float" else float(v)), "every number becomes its text", out)
  ctx.check(out[0][1]["timestamp"] == t, "every number becomes its text")
  r.pause(1, True)
  ctx.check(r.new() == [("pause", True)] and r.alive(), "the pause state is mirrored")


# ---------------------------------------------------------------- C24 calculator
meta("C24", bounds="every formula of up to 2 operators (quick; thorough 3) out of + - * / % **, the six comparisons, & | ^, unary - + !, ?: and (calls of) the documented functions over two variables and constants, written without any parentheses the stated precedence does not ask for and with all of them; every float value of the variables for one operator, every real value in [-700, 700] for more (products, quotients and remainders of two unknowns uninterpreted); histories of 3 (quick) / 4 (thorough) events on two inputs",
     outside="** with arguments above 8 in size (range errors); the digits computed by the functions of libm and by % (compared as uninterpreted functions: same function of the same operands); formulas that mix comparisons or different logical operators side by side without parentheses; unary operators directly to the left of **; parsing of formulas outside the enumerated set")

_LVL = {**{o: 1 for o in (">", "<", ">=", "<=", "==", "!=")}, **{o: 2 for o in "&|^"}, **{o: 3 for o in "+-"}, **{o: 4 for o in "*/%"}, "**": 5}
_BIN, _UN = list(_LVL), ["-", "+", "!"]
_FN1 = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "log2", "log10", "exp", "sqrt", "floor", "ceil", "round", "abs"]
_FN2 = ["min", "max", "atan2"]


def _level(t): return {"b": lambda: _LVL[t[1]], "u": lambda: 6, "c": lambda: 0}.get(t[0], lambda: 7)()


def _text(t, full):
  def sub(x, need): return "(" + _text(x, full) + ")" if _level(x) < (7 if full else need) else _text(x, full)
  k = t[0]
  if k in "vn": return t[1]
  if k == "u": return t[1] + sub(t[2], 6)
  if k == "c": return sub(t[1], 1) + " ? " + sub(t[2], 0) + " : " + sub(t[3], 0)
  if k == "f": return t[1] + "(" + ", ".join(_text(x, full) for x in t[2]) + ")"
  op, lv = t[1], _LVL[t[1]]
  left = {1: 3, 2: 2 if t[2][0] == "b" and t[2][1] == op else 3, 5: 7 if t[2][0] == "u" else 5}.get(lv, lv)
  return sub(t[2], left) + " " + op + " " + sub(t[3], lv + 1)


def _value(t, env):
  """the documented meaning of a formula; raises where it has none"""
  k = t[0]
  M = tasks_math()
  if k == "v": return env[t[1]]
  if k == "n": return float(t[1])
  if k == "u":
    x = _value(t[2], env)
    return -x if t[1] == "-" else x if t[1] == "+" else (0.0 if x > 0.5 else 1.0)
  if k == "c":
    c, x, y = (_value(a, env) for a in t[1:])
    return x if c > 0.5 else y
  if k == "f":
    args = [_value(a, env) for a in t[2]]
    if t[1] == "abs": return abs(args[0])
    if t[1] == "round": return round(args[0])
    if t[1] == "min": return args[1] if args[1] < args[0] else args[0]
    if t[1] == "max": return args[1] if args[1] > args[0] else args[0]
    return getattr(M, t[1])(*args)
  x, y = _value(t[2], env), _value(t[3], env)
  op = t[1]
  if op == "+": return x + y
  if op == "-": return x - y
  if op == "*": return x * y
  if op == "/": return x / y
  if op == "%": return x % y
  if op == "**": return M.pow(x, y)
  if op in "&|^":
    p, q = bool(x > 0.5), bool(y > 0.5)
    return 1.0 if ((p and q) if op == "&" else (p or q) if op == "|" else p != q) else 0.0
  return 1.0 if {">": lambda: x > y, "<": lambda: x < y, ">=": lambda: x >= y, "<=": lambda: x <= y, "==": lambda: x == y, "!=": lambda: x != y}[op]() else 0.0


def tasks_math():
  from symx import inject
  from symx.core import Engine
  return inject.SM if Engine.current is not None else math


_A, _B, _N = ("v", "a"), ("v", "b"), ("n", "2")

def _one():
  return [("b", o, _A, _B) for o in _BIN] + [("u", o, _A) for o in _UN] + [("c", _A, _B, _N)] + [("f", f, [_A]) for f in _FN1] + [("f", f, [_A, _B]) for f in _FN2]


def _formulas(tier):
  one = _one()
  reps = [x for x in one if x[0] != "f" or x[1] in ("sin", "floor", "min")]
  two = []
  for x in reps:
    for o in _BIN: two += [("b", o, x, _B), ("b", o, _A, x)]
    two += [("u", o, x) for o in _UN] + [("c", x, _A, _B), ("c", _B, x, _A), ("c", _A, _B, x), ("f", "sqrt", [x]), ("f", "max", [_B, x])]
  out = two
  if tier != "quick":
    import random
    rnd = random.Random(7)
    for x in rnd.sample(two, 500):
      o = rnd.choice(_BIN)
      out += [("b", o, x, _B), ("b", rnd.choice(_BIN), _N, x), ("c", x, _A, _N), ("c", _A, x, _B)]
  return out


def _pow_args(t, env, ctx):
  """keep ** inside the range in which it can not overflow"""
  if t[0] == "b":
    if t[1] == "**":
      for x in t[2:]:
        if x[0] == "v": ctx.assume(ctx.And(env[x[1]] >= -8.0, env[x[1]] <= 8.0))
        else: return False
    return all(_pow_args(x, env, ctx) for x in t[2:])
  return all(_pow_args(x, env, ctx) for a in t[1:] for x in (a if isinstance(a, list) else [a]) if isinstance(x, tuple))


def _formula(ctx, t, env):
  text = _text(t, ctx.flag("parenthesised"))
  if not _pow_args(t, env, ctx): return
  cfg = calculator.CalculatorConfig(out_topic=OUT, formula=text, synchronized=False, variable_tracks=[dict(name="a", default_value=0.0, in_topic=1), dict(name="b", default_value=0.0, in_topic=2)])
  r = Rig(ctx, lambda c: calculator.CalculatorTask(c, cfg))
  r.task.var_values["a"] = env["a"]
  r.data(2, {"timestamp": 5, "value": env["b"]})
  out = r.new()
  try: want = _value(t, env)
  except (ValueError, ArithmeticError): want = None
  if want is None: ctx.check(not out, "nothing is sent where the formula has no value", (text, out))
  else:
    ctx.check(len(out) == 1 and out[0][0] == "data", "the output is the value of the formula", (text, out))
    ctx.check(ctx.And(out[0][1]["timestamp"] == 5, ctx.same(out[0][1]["value"], want + 0.0 if type(want) is int else want)), "the output is the value of the formula", (text, out, want))
  ctx.check(r.alive(), "the node keeps running", text)


@harness("C24", "one_operator", shards=[dict(part=i) for i in range(16)], must=["the output is the value of the formula"], strings=True, model_patch=True, truediv="float")
def c24_one(ctx, part): _formula(ctx, ctx.pick("formula", _one()[part::16]), {"a": ctx.float("a"), "b": ctx.float("b")})


@harness("C24", "formula", shards=lambda tier: [dict(part=i) for i in range(64)], must=["the output is the value of the formula"], strings=True, model_patch=True, truediv="uf")
def c24_formula(ctx, part):
  env = {k: ctx.real(k, -700, 700) for k in "ab"}
  if not ctx.symbolic: env = {k: float(v) for k, v in env.items()}
  _formula(ctx, ctx.pick("formula", _formulas(ctx.tier)[part::64]), env)


@harness("C24", "events", shards=lambda tier: [dict(first=f, n=3 if tier == "quick" else 4) for f in range(6)], must=["every number yields the value of the formula with the current values"], model_patch=True, truediv="float")
def c24_events(ctx, first, n):
  cfg = calculator.CalculatorConfig(out_topic=OUT, formula="a > b ? a : 7", synchronized=False, variable_tracks=[dict(name="a", default_value=1.0, in_topic=1), dict(name="b", default_value=2.0, in_topic=2)])
  r = Rig(ctx, lambda c: calculator.CalculatorTask(c, cfg))
  cur, default = {"a": 1.0, "b": 2.0}, {"a": 1.0, "b": 2.0}
  for k in range(n):
    ev = first if k == 0 else ctx.choice(f"event{k}", 6)
    i, op = divmod(ev, 3)
    name = "ab"[i]
    if op == 0:
      v = ctx.float(f"value{k}")
      cur[name] = v
      r.data(1 + i, {"timestamp": k, "value": v})
    elif op == 1: r.data(1 + i, {"timestamp": k, "value": "x"})
    else:
      r.pause(1 + i, True)
      cur[name] = default[name]
    out = r.new()
    if op: ctx.check(not out, "nothing is sent for a pause or a malformed message")
    else:
      want = cur["a"] if cur["a"] > cur["b"] else 7.0
      ctx.check(len(out) == 1 and out[0][0] == "data", "every number yields the value of the formula with the current values", out)
      ctx.check(ctx.And(out[0][1]["timestamp"] == k, ctx.same(out[0][1]["value"], want)), "every number yields the value of the formula with the current values", (out, want))
  ctx.check(r.alive(), "the node keeps running")


@harness("C24", "synchronized", shards=lambda tier: [dict(order=o) for o in _interleavings((2, 2) if tier == "quick" else (3, 2))], must=["values meet in the order of their timestamps"], model_patch=True, truediv="real")
def c24_sync(ctx, order):
  cfg = calculator.CalculatorConfig(out_topic=OUT, formula="a - b", synchronized=True, variable_tracks=[dict(name="a", default_value=0.0, in_topic=1), dict(name="b", default_value=0.0, in_topic=2)])
  r = Rig(ctx, lambda c: calculator.CalculatorTask(c, cfg))
  for i in range(2): r.data(1 + i, {"timestamp": 0, "value": 0.0})
  r.new()
  last, hist, idx = [0, 0], [[(0, 0)], [(0, 0)]], [0, 0]
  for k, i in enumerate(order):
    t = ctx.int(f"t{k}", 1, 1000)
    ctx.assume(t > last[i])
    last[i] = t
    v = ctx.int(f"v{k}", -100, 100)
    hist[i].append((t, v))
    r.data(1 + i, {"timestamp": t, "value": v})
  out = [d for kind, d in r.new() if kind == "data"]
  prev = 0
  for d in out:
    t = d["timestamp"]
    ctx.check(t >= prev, "values meet in the order of their timestamps")
    prev = t
    # several values may carry the timestamp: the output belongs to a prefix of them
    wants = []
    for incl_a in (True, False):
      for incl_b in (True, False):
        va = vb = 0
        for x, v in hist[0]: va = ctx.Ite(x <= t if incl_a else x < t, v, va)
        for x, v in hist[1]: vb = ctx.Ite(x <= t if incl_b else x < t, v, vb)
        wants.append(ctx.And(ctx.Or(incl_a, incl_b), d["value"] == va - vb))
    ctx.check(ctx.Or(*wants), "values meet in the order of their timestamps", (out, hist))
  ctx.check(r.alive(), "the node keeps running")
