"""Output containers: packets of all tracks on one clock."""
import asyncio
from fractions import Fraction
from types import SimpleNamespace
import av as real_av
import streamtasks.client, streamtasks.utils
from streamtasks.media import container
from streamtasks.system.tasks.media import outputcontainer
from streamtasks.system.tasks.ui import videoviewer
from symx.harness import harness, meta
from symx.threads import Turns
from props.tasks import Rig
from props.timing import Env
from props.ui import UI, feed, IN

FRAME = {"video": 1, "audio": 1024}


class Sink:
  """a container that records what it is given"""
  def __init__(self, ctx): self.ctx, self.flags, self.streams, self.muxed, self.closed, self.busy = ctx, real_av.container.Flags.GENPTS, [], [], False, False
  def add_stream(self, codec_name, rate, width=None, height=None, format=None, channels=None, options=None):
    self.ctx.check(options is not None, "a stream has options")
    s = SimpleNamespace(container=self, type="video" if width else "audio", index=len(self.streams), rate=rate, codec_context=SimpleNamespace(frame_size=1024), width=width, height=height)
    self.streams.append(s)
    return s
  def mux(self, p):
    ctx = self.ctx
    ctx.check(not self.closed, "nothing is written to a closed container")
    ctx.check(not self.busy, "one packet is written at a time")
    self.busy = True
    if self.turns is not None: self.turns.pause()
    self.busy = False
    ctx.check(p.dts <= p.pts, "a packet is decoded before it is shown", (p.dts, p.pts))
    self.muxed.append(SimpleNamespace(stream=p.stream.index, data=bytes(p), pts=p.pts, dts=p.dts, tb=p.time_base, key=p.is_keyframe))
  def close(self): self.closed = True


def output(ctx, kinds, desync=100, rate=25, sample_rate=32000):
  env = Env(ctx)
  env.container = sink = Sink(ctx)
  sink.turns = turns = Turns(ctx, lambda: asyncio.sleep(0.01))
  ctx.loop().run_in_executor = turns.run_in_executor
  tracks = {"video_tracks": [], "audio_tracks": []}
  for i, k in enumerate(kinds): tracks[k + "_tracks"].append({"in_topic": 1 + i, **({"rate": rate, "width": 4, "height": 2} if k == "video" else {"rate": sample_rate})})
  order = [1 + i for k in ("video", "audio") for i, kind in enumerate(kinds) if kind == k]
  r = Rig(ctx, lambda c: outputcontainer.OutputContainerTask(c, outputcontainer.OutputContainerConfig(destination="file", max_desync=desync, **tracks)))
  r.loop.advance(0.2)
  r.sink, r.order = sink, order
  return r


def packet(t, k, rel=0, key=False, pts=None): return {"timestamp": t, "packet": {"data": bytes([k]), "pts": 7000 * k + rel if pts is None else pts, "rel_dts": rel, "is_keyframe": key}}


# ---------------------------------------------------------------- C37 output
meta("C37", bounds="one to three tracks of video at 25 frames per second and audio at 32 kHz; histories of 4 to 6 packets (thorough 5 to 8) that arrive in every order; timestamps that keep to the rate from every start with every jitter below the allowed desynchronization, or that stay or rise by any amount up to 10 s; pauses at every step; every difference between decoding and showing; 9 kinds of malformed messages at every place; a viewer of 3 to 4 packets who leaves, and a container that keeps or writes at every packet",
     outside="FFmpeg's muxers (replaced by one that records); three tracks with pauses")


def judge(ctx, r, kinds, sent, gap=True, exact=True):
  """what was written against what was sent"""
  last, muxed = [None] * len(kinds), [[] for _ in kinds]
  start = None
  by_data = {m["packet"]["data"]: (i, m) for i, ms in enumerate(sent) for m in ms}
  for p in r.sink.muxed:
    i, m = by_data[p.data]
    ctx.check(r.order[p.stream] == 1 + i, "a packet is written to its track", (p.stream, i))
    ctx.check(p.data not in muxed[i] and (not muxed[i] or p.data > muxed[i][-1]), "packets keep their order", (p.data, muxed[i]))
    ctx.check(p.pts - p.dts == m["packet"]["rel_dts"], "a packet is shown as long after its decoding as it was", (p.pts, p.dts))
    ctx.check(p.key == m["packet"]["is_keyframe"], "key frames are marked", p.key)
    ctx.check(p.tb == (Fraction(1, 25) if kinds[i] == "video" else Fraction(1, 32000)), "times are in the units of the track", p.tb)
    if last[i] is not None: ctx.check(p.dts >= last[i].dts + FRAME[kinds[i]], "packets of a track do not overlap", (last[i].dts, p.dts))
    if start is not None: ctx.check(p.dts * p.tb >= start, "tracks are interleaved by time", (p.dts, start))
    start = p.dts * p.tb
    last[i] = p
    muxed[i].append(p.data)
  return muxed


def placed(ctx, r, kinds, sent, t0, equal=True):
  """every packet is written at its time, or directly after the one before it"""
  by_data = {m["packet"]["data"]: (i, m) for i, ms in enumerate(sent) for m in ms}
  end = [0] * len(kinds)
  for p in r.sink.muxed:
    i, m = by_data[p.data]
    due = Fraction(m["timestamp"] - t0, 1000) / p.tb if not ctx.symbolic else (m["timestamp"] - t0) * (1 / (1000 * p.tb))
    late = p.dts > due - 1
    ctx.check(late, "a packet is written no earlier than its time", (p.data, p.dts, due))
    if equal: ctx.check(ctx.Or(p.dts == end[i], p.dts <= due), "a packet is written at its time, or directly after the one before it", (p.data, p.dts, end[i], due))
    end[i] = p.dts + FRAME[kinds[i]]


STEADY = {"quick": [(("video",), 3, True), (("audio",), 3, True), (("video", "audio"), 2, True), (("video", "video"), 2, True), (("video", "audio"), 3, False)],
  "thorough": [(("video",), 6, True), (("audio",), 5, True), (("video", "audio"), 3, True), (("video", "video"), 3, True), (("audio", "audio"), 2, True), (("video", "audio"), 4, False), (("video", "video"), 4, False), (("video", "audio", "audio"), 2, False)]}


@harness("C37", "steady", shards=lambda tier: [dict(kinds=k, n=n, jitter=j, first=f) for k, n, j in STEADY[tier] for f in range(len(k))], must=["nothing is lost", "tracks are interleaved by time"], model_patch=True)
def c37(ctx, kinds, n, jitter, first):
  """packets at their rates, from every start of each track, each at most 20 ms late"""
  r = output(ctx, kinds)
  t0, sent, ks = ctx.int("t0", 10 ** 6, 10 ** 12), [[] for _ in kinds], 0
  step = [40 if k == "video" else 32 for k in kinds]
  off = [0] + [ctx.int(f"offset{i}", 0, 60) for i in range(1, len(kinds))]
  queue = [list(range(n)) for _ in kinds]
  while any(queue):
    open_ = [i for i, q in enumerate(queue) if q]
    i = first if not ks else open_[ctx.choice(f"next{ks}", len(open_))]
    k = queue[i].pop(0)
    t = t0 + off[i] + k * step[i] + (ctx.int(f"jitter{ks}", 0, 20) if jitter else 0)
    m = packet(t, ks, ctx.int(f"rel{ks}", 0, 10 ** 6), k == 0)
    sent[i].append(m)
    r.data(1 + i, m)
    ks += 1
  r.loop.advance(1)
  zero = min_of(ctx, [ms[0]["timestamp"] for ms in sent])
  for i in range(len(kinds)):      # everything before these is written
    m = packet(t0 + 20000, ks)
    ks += 1
    sent[i].append(m)
    r.data(1 + i, m)
  r.loop.advance(1)
  muxed = judge(ctx, r, kinds, sent)
  for i, ms in enumerate(sent): ctx.check(muxed[i][:n] == [m["packet"]["data"] for m in ms[:n]], "nothing is lost", (muxed, r.job))
  placed(ctx, r, kinds, sent, zero)
  ctx.reach("tracks are interleaved by time")


def _histories(tier):
  out = []
  for kinds, n, pauses in (((("video", "audio"), 2, False), (("video", "video"), 2, True)) if tier == "quick" else ((("video", "audio"), 3, False), (("video", "video"), 3, True), (("audio", "video"), 3, True), (("video", "video", "audio"), 1, False))):
    for first in range(len(kinds)):
      for op in range(len(kinds) * (2 if pauses else 1)): out.append(dict(kinds=kinds, pauses=pauses, first=first, ops=(op,) + (None,) * (n - 1)))
  # a track ahead of its times when the other one pauses, and when it comes back
  out += [dict(kinds=k, pauses=True, first=0, ops=o) for k in (("video", "video"), ("video", "audio"), ("audio", "video")) for o in ((0, 0, 3), (0, 0, 3, 0))]
  if tier != "quick": out += [dict(kinds=k, pauses=True, first=0, ops=(0, 0, 3, 0, None)) for k in (("video", "video"), ("audio", "video"))]
  return out


@harness("C37", "histories", shards=_histories, must=["only packets that are too late are dropped", "all tracks go on"], model_patch=True)
def c37_histories(ctx, kinds, pauses, first, ops):
  """times that rise by any amount, tracks that pause"""
  r = output(ctx, kinds)
  t0, sent, ks, last, paused, ever = ctx.int("t0", 10 ** 6, 10 ** 12), [[] for _ in kinds], 0, [None] * len(kinds), [False] * len(kinds), False
  resumed = [False] * len(kinds)      # comes back where the others are
  def send(i, t):
    nonlocal ks
    m = packet(t, ks, ks % 2)
    ks += 1
    sent[i].append(m)
    last[i] = t
    r.data(1 + i, m)
    r.loop.advance(0.1)
  for i in range(len(kinds)): send((first + i) % len(kinds), t0 if i == 0 else t0 + ctx.int(f"offset{i}", 0, 1000))
  zero = min_of(ctx, [ms[0]["timestamp"] for ms in sent])
  for k, op in enumerate(ops):
    if op is None: op = ctx.choice(f"op{k}", len(kinds) * (2 if pauses else 1))
    i = op % len(kinds)
    if op >= len(kinds):
      paused[i] = not paused[i]
      resumed[i] = True
      ctx.assume(not all(paused))
      ever = True
      r.pause(1 + i, paused[i])
    else:
      if paused[i]:
        paused[i] = False
        resumed[i] = True
        r.pause(1 + i, False)
      send(i, last[i] + ctx.int(f"step{k}", 0, 10 ** 4))
  r.loop.advance(1)
  written = {p.data for p in r.sink.muxed}
  for i, ms in enumerate(sent):
    upto = max([-1] + [k for k, m in enumerate(ms) if m["packet"]["data"] in written])
    for m in ms[:max(upto, 0)]:
      if m["packet"]["data"] not in written: ctx.check(ctx.Or(*[o["timestamp"] > m["timestamp"] + (0 if resumed[i] else 100) for j, os in enumerate(sent) if j != i for o in os]), "only packets that are too late are dropped", (m, sent))
  far, n_ = t0 + 10 ** 6, [len(ms) for ms in sent]
  for k in range(3):
    for i in range(len(kinds)):
      if not paused[i]: send(i, far + 40 * k)
  muxed = judge(ctx, r, kinds, sent)
  for i in range(len(kinds)):
    if not paused[i]: ctx.check(any(m["packet"]["data"] in muxed[i] for m in sent[i][n_[i]:]), "all tracks go on", (i, muxed, sent, r.job))
  placed(ctx, r, kinds, sent, zero, not ever)
  ctx.reach("only packets that are too late are dropped")


def min_of(ctx, ts):
  m = ts[0]
  for t in ts[1:]: m = ctx.Ite(t < m, t, m)
  return m


SHAPES = 9


def misshapen(ctx, name, m, which):
  """a message a packet cannot be read from, or one no container can write"""
  bad = {"timestamp": m["timestamp"], "packet": dict(m["packet"], data=b"\xff")}
  if which == 0: bad["packet"]["rel_dts"] = ctx.int(f"{name} rel", -2 ** 63, -1)
  elif which == 1: bad["packet"]["rel_dts"] = ctx.int(f"{name} rel", 2 ** 63, 2 ** 64 - 1)
  elif which == 2: del bad["packet"]
  elif which == 3: del bad["packet"]["rel_dts"]
  elif which == 4: bad = {"packet": bad["packet"]}
  elif which == 5: bad = 17
  elif which == 6: bad["packet"] = [1]
  elif which == 7: bad["packet"]["data"] = None
  else: bad["timestamp"] = "soon"
  return bad


@harness("C37", "malformed", shards=lambda tier: [dict(kinds=k, at=at, n=3 if tier == "quick" else 4) for k in ((("video",), ("video", "audio")) if tier == "quick" else (("video",), ("audio",), ("video", "audio"), ("video", "video"))) for at in (range(3) if tier == "quick" else range(4))], must=["proper packets are written the same"], model_patch=True)
def c37_malformed(ctx, kinds, at, n):
  """messages that are no packets, or packets no container takes: nothing ends, the others are written"""
  r = output(ctx, kinds)
  t0, sent, ks = ctx.int("t0", 10 ** 6, 10 ** 12), [[] for _ in kinds], 0
  which, again = ctx.choice("which", SHAPES), ctx.flag("again")
  track = ctx.choice("track", len(kinds))
  for k in range(n):
    for i in range(len(kinds)):
      m = packet(t0 + 40 * k, ks, 0)
      ks += 1
      if i == track and (k == at or (again and k == at + 1 and k < n - 1)): r.data(1 + i, misshapen(ctx, f"bad{k}", m, which))
      else:
        sent[i].append(m)
        r.data(1 + i, m)
      r.loop.advance(0.1)
      ctx.check(r.alive(), "the task keeps running", (which, r.job))
  for k in range(2):
    for i in range(len(kinds)):
      m = packet(t0 + 40 * (n + k), ks)
      ks += 1
      sent[i].append(m)
      r.data(1 + i, m)
      r.loop.advance(0.1)
  r.loop.advance(1)
  ctx.check(r.alive(), "the task keeps running", (which, r.job))
  muxed = judge(ctx, r, kinds, sent)
  for i, ms in enumerate(sent):
    written = [p for p in r.sink.muxed if r.order[p.stream] == 1 + i]
    ctx.check(muxed[i][:len(ms) - 1] == [m["packet"]["data"] for m in ms[:-1]], "proper packets are written the same", (muxed, i, [m["packet"]["data"] for m in ms], r.job))
    for p, m, q, o in zip(written, ms, written[1:], ms[1:]):
      ctx.check((q.dts - p.dts) * p.tb * 1000 == o["timestamp"] - m["timestamp"] if kinds[i] == "video" else q.dts > p.dts, "proper packets are written the same", (p, q))


# what the viewer's page is sent
class Chunks(Sink):
  """a container that writes what it is given to its file, some of it later"""
  def open(self, file, mode, **kw):
    self.file, self.written, self.late, self.muxes = file, b"", b"", 0
    return self
  def mux(self, p):
    super().mux(p)
    self.late += bytes(p)
    if not self.ctx.flag(f"kept{self.muxes}"):
      self.file.write(self.late)
      self.written, self.late = self.written + self.late, b""
    self.muxes += 1


@harness("C37", "viewer", shards=lambda tier: [dict(n=4 if tier == "quick" else 5, leave=l) for l in (False, True)], must=["a viewer is sent what is written, in order"], model_patch=True)
def c37_viewer(ctx, n, leave):
  env = Env(ctx)
  sink = Chunks(ctx)
  sink.turns = None
  turns = Turns(ctx, lambda: asyncio.sleep(0.01))
  env.av.open = lambda *a, **kw: sink.open(*a, **kw)
  ui = UI(ctx, lambda c: videoviewer.VideoViewerTask(c, videoviewer.VideoViewerConfig(in_topic=IN, rate=25, width=4, height=2)))
  ui.loop.run_in_executor = turns.run_in_executor
  send = feed(ui)
  got, events = [], asyncio.Queue()
  events.put_nowait({"type": "websocket.connect"})
  async def receive(e):
    if e["type"] == "websocket.send": got.append(e["bytes"])
  job = ui.loop.spawn(ui.app(ui.scope("websocket", "/video"), events.get, receive))
  ui.loop.advance(0.5)
  t0, sent = ctx.int("t0", 10 ** 6, 10 ** 12), []
  bad = ctx.choice("bad", n + 1)
  for k in range(n):
    m = packet(t0 + 40 * k, k + 1, ctx.int(f"rel{k}", 0, 10 ** 6), k == 0)
    if k == bad: m = misshapen(ctx, "bad", m, ctx.choice("which", SHAPES))
    else: sent.append(m)
    if leave and k == n - 1: break
    send(m)
    ui.loop.advance(0.5)
    ctx.check(b"".join(got) == sink.written, "a viewer is sent what is written, in order", (got, sink.written, job))
    ctx.check(all(got), "a viewer is sent no empty message", got)
    ctx.check([p.data for p in sink.muxed] == [m["packet"]["data"] for m in sent], "every proper packet is written, once, in order", (sink.muxed, sent, job))
    for j, (p, m) in enumerate(zip(sink.muxed, sent)): ctx.check(ctx.And(p.dts == j, p.pts == j + m["packet"]["rel_dts"], p.key == m["packet"]["is_keyframe"]), "packets follow each other", (p, m))
  if leave:
    events.put_nowait({"type": "websocket.disconnect", "code": 1000})
    ui.loop.advance(0.5)
    ctx.check(sink.closed, "the container of a viewer who left is closed", job)
    ctx.check(not ui.job.done(), "the task keeps running", ui.job)
