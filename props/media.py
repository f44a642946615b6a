"""Audio: chunks, sequences, mixing, levels."""
import asyncio
import itertools
import math
import queue
from fractions import Fraction
from types import SimpleNamespace
import numpy as np
import streamtasks.client, streamtasks.utils
from streamtasks.media import audio, util
from streamtasks.system.tasks.media import audiomixer, audiovolumescaler, audiovolumemeter, videoactivitymeter
from streamtasks.system.tasks.ui import audiofrequencydisplay
from symx.harness import harness, meta
from symx.threads import Turns
from symx import nparr
from props.tasks import Rig, OUT
from props.ui import UI, feed, IN

NP = {"np": nparr.SymNP()}


def arr(ctx, items, dtype, shape=None):
  """an array of the given elements"""
  if ctx.symbolic: a = nparr.array(items, dtype)
  else: a = np.array([float(x) if isinstance(x, Fraction) else x for x in items], dtype=dtype)
  return a if shape is None else a.reshape(shape)


def values(a): return list(a.reshape(-1).tolist())


def pack(ctx, items, dtype):
  a = arr(ctx, items, dtype)
  return a.tobytes("C")


def unpack(ctx, data, dtype):
  if ctx.symbolic: return nparr.BUFFERS.get(data, dtype).tolist()
  return np.frombuffer(data, dtype=dtype).tolist()


def exact(x): return x if isinstance(x, int) or hasattr(x, "e") else Fraction(x)


def near(ctx, a, b, tol):
  d = exact(a) - exact(b)
  return ctx.And(d <= tol, d >= -tol)


# ---------------------------------------------------------------- C32 chunks
meta("C32", bounds="2 blocks (thorough 3) of 0 to 3 samples (thorough 5) each, chunks of 1 to 3 samples, paddings of 0 to 2, rates of 500, 1000, 2000 and 3000 samples per second, every sample value and every start time",
     outside="rates and sizes beyond these")


def _sizes(ctx, n, top): return [ctx.choice(f"size{i}", top + 1) for i in range(n)]


@harness("C32", "chunks", shards=lambda tier: [dict(chunk=c, rate=r, pad=p, n=2 if tier == "quick" else 3, top=4 if tier == "quick" else 5) for c in (1, 2, 3) for r in (500, 2000, 3000) for p in (None, 0, 1, 2)],
         must=["the chunks are the samples in order", "a chunk carries the time of its first sample"], extra=NP)
def c32(ctx, chunk, rate, pad, n, top):
  ch = util.AudioChunker(chunk, rate) if pad is None else util.PaddedAudioChunker(chunk, rate, pad)
  p = pad or 0
  t0 = ctx.int("t0", 0, 10 ** 9)
  fed, seen = [], 0
  # blocks as a source of that rate delivers them: block i starts where block i-1 ended (to the millisecond)
  for i, size in enumerate(_sizes(ctx, n, top)):
    block = [ctx.int(f"s{i}_{k}", -32768, 32767) for k in range(size)]
    t = t0 + len(fed) * 1000 // rate
    fed += block
    for c, ts in ch.next(arr(ctx, block, np.int16, (1, -1) if ctx.flag(f"matrix{i}") else None), t):
      start = seen * chunk
      got, want = values(c), fed[start:start + chunk + 2 * p]
      ctx.check(len(got) == chunk + 2 * p and len(want) == len(got), "the chunks are the samples in order", (got, want))
      ctx.check(ctx.And(*[a == b for a, b in zip(got, want)]), "the chunks are the samples in order", (got, want))
      if pad is not None:
        inner = values(ch.strip_padding(c))
        ctx.check(len(inner) == chunk and ctx.And(*[a == b for a, b in zip(inner, fed[start + p:start + p + chunk])]), "stripping the padding leaves the chunk", inner)
      d = (ts - t) * rate - (start + p - (len(fed) - size)) * 1000     # times rate: the error in ms
      ctx.check(ctx.And(d < rate, d > -rate), "a chunk carries the time of its first sample", (d, rate, i))
      seen += 1
    ctx.check(seen == max(0, (len(fed) - 2 * p) // chunk), "a chunk is handed out as soon as it is complete", (seen, len(fed)))


@harness("C32", "smoothing", shards=lambda tier: [dict(overlap=o, size=s, dtype=d) for o in (1, 2, 3) for s in (o + 1, o + 3) for d in ("int16", "float32")], must=["outside the overlap blocks are unchanged", "within the overlap it fades from the old block to the new one"], extra=NP)
def c32_smooth(ctx, overlap, size, dtype):
  sm = util.AudioSmoother(overlap)
  old = None
  for k in range(3):
    block = [ctx.int(f"s{k}_{i}", -1000, 1000) for i in range(size)]
    out = values(sm.smooth(arr(ctx, block, dtype)))
    ctx.check(len(out) == size, "outside the overlap blocks are unchanged")
    n = 0 if old is None else overlap
    ctx.check(ctx.And(*[near(ctx, a, b, 0) for a, b in zip(out[n:], block[n:])]), "outside the overlap blocks are unchanged", (out, block))
    for i in range(n):
      w = Fraction(i, overlap - 1) if overlap > 1 else 0
      ctx.check(near(ctx, out[i], block[i] * w + old[i] * (1 - w), Fraction(1001, 1000) if dtype == "int16" else Fraction(1, 100)), "within the overlap it fades from the old block to the new one", (i, out, block, old))
    old = block[-overlap:]


# ---------------------------------------------------------------- C33 mixing
meta("C33", bounds="sequencer: 3 inserts and pops (thorough 4) of 0 to 2 frames with 1 and 2 channels at rates of 500 to 3000 frames per second, gaps and overlaps of up to 4 frames, stretching of blocks of up to 4 frames by up to 3, every sample value; mixer: 2 tracks of 1 and 2 channels, 4 messages (thorough 5) of 1 to 2 frames in every order with every offset between the tracks of up to 3 ms, pauses at every step, 16 and 32 bit and float samples of every value",
     outside="a track that comes back with times that were mixed already; float rounding")


class Line:
  """what was put where: frame index -> tuple of samples"""
  def __init__(self): self.end, self.at = None, {}
  def insert(self, pos, frames):
    if self.end is None: self.end = pos
    drop = max(0, self.end - pos)
    for i, f in enumerate(frames[drop:]): self.at[max(pos, self.end) + i] = f
    if len(frames) > drop: self.end = max(self.end, pos) + len(frames) - drop
    elif pos > self.end: self.end = pos
  def pop(self, pos, n, channels):
    r = [self.at.get(pos + i, (0,) * channels) for i in range(n)]
    self.at = {k: v for k, v in self.at.items() if k >= pos + n}
    return r


def _frames(ctx, name, n, channels, lo=-32768, hi=32767): return [tuple(ctx.int(f"{name}_{i}_{c}", lo, hi) for c in range(channels)) for i in range(n)]
def _flat(frames): return [x for f in frames for x in f]


@harness("C33", "placed", shards=lambda tier: [dict(rate=r, channels=c, ops=(0, *o)) for r, c, n in (((2000, 1, 3), (500, 2, 2)) if tier == "quick" else ((2000, 1, 4), (500, 2, 3))) for o in itertools.product((0, 1), repeat=n)],
         must=["samples are played at their time", "as many samples as asked for", "what can be taken is known"], extra=NP)
def c33(ctx, rate, channels, ops):
  """frame positions: blocks that follow each other, with gaps and overlaps, taken at any time"""
  seq, line = util.AudioSequencer(rate, 1, 0), Line()
  t0 = ctx.int("t0", 0, 10 ** 9)
  pos = next_pop = 0
  for k, op in enumerate(ops):
    if op == 0:
      size = 1 + ctx.choice(f"size{k}", 2)
      pos += int(ctx.int(f"gap{k}", -2, 1)) if k else 0
      block = _frames(ctx, f"s{k}", size, channels)
      seq.insert(t0 + Fraction(pos, rate), arr(ctx, _flat(block), np.int16, (-1, channels)))
      line.insert(pos, block)
      pos += size
      ctx.check(seq.end_time == t0 + Fraction(line.end, rate), "the sequence ends where its last block ends", (line.end,))
    else:
      at = next_pop + int(ctx.int(f"at{k}", -1, 1))
      m = ctx.choice(f"count{k}", 4)
      have = seq.get_max_samples(t0 + Fraction(at, rate))
      ctx.check(have == max(0, line.end - at), "what can be taken is known", (have, line.end, at))
      got = seq.pop_start(t0 + Fraction(at, rate), m)
      want = line.pop(at, m, channels)
      ctx.check(got.shape == (m, channels), "as many samples as asked for", got.shape)
      ctx.check(ctx.And(*[a == b for a, b in zip(values(got), _flat(want))]), "samples are played at their time", (values(got), want))
      next_pop = at + m


@harness("C33", "late", shards=[dict(rate=r, size=s) for r in (1000, 2000) for s in (1, 2)], must=["the sequence ends where its last block ends"], extra=NP)
def c33_late(ctx, rate, size):
  """a block from long ago does not harm those that come at their time"""
  seq = util.AudioSequencer(rate, 1, 0)
  line = Line()
  pos = 0
  stale = ctx.choice("stale", 3)
  for k in range(6):
    block = [ctx.int(f"s{k}_{i}", 1, 100) for i in range(size)]
    at = pos - int(ctx.int("back", size, 3 * size)) if k == stale + 1 else pos
    seq.insert(Fraction(at, rate), arr(ctx, block, np.int16, (-1, 1)))
    line.insert(at, [(x,) for x in block])
    if at == pos: pos += size
  ctx.check(seq.end_time == Fraction(line.end, rate), "the sequence ends where its last block ends", (float(seq.end_time), line.end))
  got = values(seq.pop_start(Fraction(0), line.end))
  ctx.check(ctx.And(*[a == b[0] for a, b in zip(got, line.pop(0, line.end, 1))]), "samples are played at their time", got)


@harness("C33", "jitter", shards=[dict(rate=r, ratio=q, sizes=z) for r in (1000, 48000) for q in (1, 2) for z in itertools.product((1, 3), repeat=3)], must=["the sequence does not drift from its source"], extra=NP)
def c33_jitter(ctx, rate, ratio, sizes):
  """times that are not frame times: never more than a frame off"""
  seq = util.AudioSequencer(rate, ratio, 0)
  t = Fraction(0)
  for k, size in enumerate(sizes if ctx.tier == "quick" else sizes + (2,)):
    block = [k * 3 + i + 1 for i in range(size)]
    seq.insert(t, arr(ctx, block, np.int16, (-1, 1)))
    off = (seq.end_time - t) * rate - size
    ctx.check(ctx.And(off <= 1, off >= -1), "the sequence does not drift from its source", (k, off))
    # the next block comes where this one ends, more or less
    t = t + Fraction(size, rate) + ctx.real(f"jitter{k}", Fraction(-3, 4), Fraction(5, 2)) * Fraction(1, rate)
  n = int(seq.end_time * rate + Fraction(1, 2))
  got = [exact(v) for v in values(seq.pop_start(Fraction(0), n + 1))]
  heard = [int(v) for v in got if v != 0]
  if ratio == 1: ctx.check(heard == sorted(set(heard)), "frames stay in order", got)


@harness("C33", "stretch", shards=[dict(dtype=d, size=s, gap=g) for d in ("int16", "float32") for s in (1, 2, 4) for g in (-3, -2, -1, 1, 2, 3)], must=["a stretched block ends where it should", "stretching stays between neighbouring samples"], extra=NP)
def c33_stretch(ctx, dtype, size, gap):
  rate, ratio = 1000, 3
  seq = util.AudioSequencer(rate, ratio, 0)
  a, b = _frames(ctx, "a", size, 2), _frames(ctx, "b", size, 2)
  seq.insert(Fraction(0), arr(ctx, _flat(a), dtype, (-1, 2)))
  seq.insert(Fraction(size + gap, rate), arr(ctx, _flat(b), dtype, (-1, 2)))
  n, m = 2 * size, 2 * size + gap
  if m <= 0 or max(Fraction(n, m), Fraction(m, n)) >= ratio: return
  ctx.check(seq.end_time == Fraction(m, rate), "a stretched block ends where it should", float(seq.end_time))
  got = values(seq.pop_start(Fraction(0), m))
  src = a + b
  for ch in (0, 1):
    out, s = got[ch::2], [f[ch] for f in src]
    for i, x in enumerate(out):
      at = Fraction(i * (n - 1), m - 1) if m > 1 else Fraction(0)
      lo = math.floor(at)
      hi = min(lo + 1, n - 1)
      x = exact(x)
      tol = Fraction(1001, 1000) if dtype == "int16" else Fraction(1, 50)
      ideal = s[lo] + (s[hi] - s[lo]) * (at - lo)
      ctx.check(near(ctx, x, ideal, tol), "stretching stays between neighbouring samples", (i, got, src))


DT = {"s16": np.int16, "s32": np.int32, "s64": np.int64, "u8": np.uint8, "flt": np.float32, "dbl": np.float64}


def rng(fmt):
  d = np.dtype(DT[fmt])
  return (-1, 1) if d.kind == "f" else (int(np.iinfo(d).min), int(np.iinfo(d).max))


def sample(ctx, name, fmt):
  lo, hi = rng(fmt)
  return ctx.real(name, lo, hi) if np.dtype(DT[fmt]).kind == "f" else ctx.int(name, lo, hi)


def clamp(ctx, x, fmt):
  lo, hi = rng(fmt)
  return ctx.Ite(x > hi, hi, ctx.Ite(x < lo, lo, x))


@harness("C33", "mixer", shards=lambda tier: [dict(fmt=f, channels=c, order=o, sync=s) for f, c, s in (("s16", 1, False), ("s16", 1, True), ("u8", 1, False), ("s32", 2, False), ("flt", 1, False)) for o in _orders_2(4 if tier == "quick" else 5)], must=["the mix is the sum of the tracks at each time", "mixed as soon as every track is there"], model_patch=True, extra=NP)
def c33_mixer(ctx, fmt, channels, order, sync):
  cfg = audiomixer.AudioMixerConfig(audio_tracks=[dict(in_topic=1), dict(in_topic=2)], sample_format=fmt, rate=1000, channels=channels, max_stretch_ratio=1, synchronized=sync, out_topic=OUT)
  r = Rig(ctx, lambda c: audiomixer.AudioMixerTask(c, cfg))
  t0 = ctx.int("t0", 10, 10 ** 9)
  start = [0, ctx.choice("offset", 4) if order else 0]
  nxt, data, sent, begin = list(start), [{}, {}], 0, None
  for k, i in enumerate(order):
    size = 1 + ctx.choice(f"size{k}", 2)
    frames = [tuple(sample(ctx, f"s{k}_{j}_{c}", fmt) for c in range(channels)) for j in range(size)]
    for j, f in enumerate(frames): data[i][nxt[i] + j] = f
    r.data(1 + i, {"timestamp": t0 + nxt[i], "data": pack(ctx, _flat(frames), DT[fmt])})
    nxt[i] += size
    for kind, d in r.new():
      ctx.check(kind == "data", "the mix is the sum of the tracks at each time")
      if begin is None: begin = sent = min(start)
      ctx.check(d["timestamp"] == t0 + sent, "the mix carries its time", (k, d["timestamp"]))
      got = unpack(ctx, d["data"], DT[fmt])
      n = len(got) // channels
      ctx.check(len(got) == n * channels, "the mix is the sum of the tracks at each time")
      for j in range(n):
        for c in range(channels):
          zero = 128 if fmt == "u8" else 0
          want = sum(exact(t[sent + j][c]) - zero if sent + j in t else 0 for t in data) + zero
          want = clamp(ctx, want, fmt) if np.dtype(DT[fmt]).kind != "f" else want
          ctx.check(near(ctx, got[j * channels + c], want, 0 if np.dtype(DT[fmt]).kind != "f" else Fraction(1, 10 ** 5)), "the mix is the sum of the tracks at each time", (j, c, got))
      sent += n
    if not sync:
      ready = min(nxt) if all(data) else None
      ctx.check(sent == (ready if ready is not None and ready > min(start) else 0) if begin is not None or ready is not None and ready > min(start) else True, "mixed as soon as every track is there", (k, sent, nxt))
  ctx.check(r.alive(), "the mixer keeps running", r.job)
  ctx.reach("mixed as soon as every track is there")


def _orders_2(n):
  return [o for o in itertools.product((0, 1), repeat=n) if o[0] == 0 and 1 in o]


@harness("C33", "paused", shards=lambda tier: [dict(sync=s, tracks=t, n=n) for s, t, n in ((False, 2, 4), (True, 2, 4), (False, 3, 2))] if tier == "quick" else [dict(sync=s, tracks=t, n=n) for s, t, n in ((False, 2, 5), (True, 2, 5), (False, 3, 3))], must=["paused tracks are left out of the mix and do not hold it back"], model_patch=True, extra=NP)
def c33_paused(ctx, sync, tracks, n):
  """every ms each track that is not paused sends a frame; tracks are paused and resumed in between"""
  cfg = audiomixer.AudioMixerConfig(audio_tracks=[dict(in_topic=1 + i) for i in range(tracks)], sample_format="s16", rate=1000, channels=1, synchronized=sync, out_topic=OUT)
  r = Rig(ctx, lambda c: audiomixer.AudioMixerTask(c, cfg))
  paused = [False] * tracks
  want, got = {}, {}
  for k in range(n):
    if k: 
      for i in range(tracks):
        p = ctx.flag(f"paused{k}_{i}")
        if p != paused[i] or k == 1: r.pause(1 + i, p)
        paused[i] = p
    order = [i for i in range(tracks) if not paused[i]]
    if len(order) > 1 and ctx.flag(f"reverse{k}"): order.reverse()
    frames = {i: ctx.int(f"s{k}_{i}", -32768, 32767) for i in order}
    for i in order: r.data(1 + i, {"timestamp": 100 + k, "data": pack(ctx, [frames[i]], np.int16)})
    if order: want[100 + k] = clamp(ctx, sum(frames.values()), "s16")
    for kind, d in r.new():
      for j, v in enumerate(unpack(ctx, d["data"], np.int16)):
        ctx.check(d["timestamp"] + j not in got, "every time is mixed once", (d["timestamp"], j))
        got[d["timestamp"] + j] = v
    if not sync or k == n - 1:
      last = max(want)
      for t, v in want.items():
        if sync and t == last: continue
        ctx.check(t in got, "paused tracks are left out of the mix and do not hold it back", (t, sorted(got), paused))
    for t, v in got.items():
      if t in want: ctx.check(v == want[t], "paused tracks are left out of the mix and do not hold it back", (t, v))
      else: ctx.check(v == 0, "paused tracks are left out of the mix and do not hold it back", (t, v))
  ctx.check(r.alive(), "the mixer keeps running", r.job)


# ---------------------------------------------------------------- C40 levels
meta("C40", bounds="scaler: 16, 32 and 64 bit and unsigned 8 bit integers and floats, one or two frames of every value at eight scales and two extreme samples at every scale of up to 1000, scales that change, end and become invalid in histories of 3 events (thorough 4), both when the thread keeps up and when it lags behind; volume meter: windows of 1 to 3 samples, every value, 16 and 32 bit, u8 and float; activity meter: 2 frames of 2 pixels of every value; frequency display: spectra of 2 to 4 magnitudes in bins of 1 to 3",
     outside="float rounding; the Fourier transform itself; other pixel and sample formats")


class Queue:
  """queue.Queue for a thread that moves in turns: waiting ends when something is there or one turn later"""
  turns = None
  def __init__(self, *a): self.items = []
  def put(self, x): self.items.append(x)
  def get(self, block=True, timeout=None):
    for k in range(2):
      if self.items: return self.items.pop(0)
      if k == 0: Queue.turns.pause()
    raise queue.Empty()
  def task_done(self): pass
  def empty(self): return not self.items
  def qsize(self): return len(self.items)


class SyncRig(Rig):
  def __init__(self, ctx, module, make, every=0.01):
    turns = Turns(ctx, lambda: asyncio.sleep(every))
    Queue.turns = turns
    ctx.stub(module, "queue", SimpleNamespace(Queue=Queue, Empty=queue.Empty))
    ctx.loop().run_in_executor = turns.run_in_executor
    super().__init__(ctx, make)
  def settle(self): self.loop.advance(1)


SCALES = [Fraction(0), Fraction(1, 2), Fraction(1), Fraction(3, 2), Fraction(2), Fraction(-1), Fraction(-3), Fraction(1000)]


def ideal(ctx, x, k, fmt):
  """a sample scaled"""
  zero = 128 if fmt == "u8" else 0
  return clamp(ctx, (exact(x) - zero) * k + zero, fmt)


def slack(fmt): return {"s16": Fraction(101, 100), "s32": Fraction(101, 100), "s64": Fraction(4096), "u8": Fraction(11, 10), "flt": Fraction(1, 10 ** 5), "dbl": Fraction(1, 10 ** 9)}[fmt]


def scaler(ctx, fmt, channels=1, default=1.0, scale=None, sync=False, every=0.01):
  cfg = audiovolumescaler.AudioVolumeScalerConfig(sample_format=fmt, rate=1000, channels=channels, default_scale=default, synchronized=sync, in_topic=1, scale_topic=scale, out_topic=OUT)
  return SyncRig(ctx, audiovolumescaler, lambda c: audiovolumescaler.AudioVolumeScalerTask(c, cfg), every)


@harness("C40", "samples", shards=[dict(fmt=f, scale=k) for f in ("s16", "s32", "s64", "u8", "flt", "dbl") for k in range(len(SCALES))], must=["every sample is scaled and clipped to its format"], model_patch=True, extra=NP)
def c40(ctx, fmt, scale):
  k = SCALES[scale]
  r = scaler(ctx, fmt, 2, float(k))
  xs = [sample(ctx, f"x{i}", fmt) for i in range(2)]
  t = ctx.int("timestamp", 0, 10 ** 12)
  r.data(1, {"timestamp": t, "data": pack(ctx, xs, DT[fmt])})
  r.settle()
  out = r.new()
  ctx.check(len(out) == 1 and out[0][0] == "data" and out[0][1]["timestamp"] == t, "every message is passed on with its time", out)
  got = unpack(ctx, out[0][1]["data"], DT[fmt])
  ctx.check(len(got) == 2, "every sample is scaled and clipped to its format", got)
  for a, x in zip(got, xs): ctx.check(near(ctx, a, ideal(ctx, x, k, fmt), slack(fmt)), "every sample is scaled and clipped to its format", (a, x))
  if k == 1 and fmt not in ("s64",):
    for a, x in zip(got, xs): ctx.check(near(ctx, a, x, 0 if fmt[0] in "su" else slack(fmt)), "a scale of one changes nothing", (a, x))


@harness("C40", "scales", shards=[dict(fmt=f, high=h) for f in ("s16", "s32", "s64", "u8", "flt") for h in (False, True)], must=["every sample is scaled and clipped to its format"], model_patch=True, extra=NP)
def c40_scales(ctx, fmt, high):
  r = scaler(ctx, fmt, 1, 1.0, 2)
  k = ctx.real("scale", -1000, 1000)
  lo, hi = rng(fmt)
  x = hi if high else lo
  r.data(2, {"timestamp": 1, "value": k if ctx.symbolic else float(k)})
  r.data(1, {"timestamp": 2, "data": pack(ctx, [x], DT[fmt])})
  r.settle()
  got = unpack(ctx, r.new()[0][1]["data"], DT[fmt])
  ctx.check(near(ctx, got[0], ideal(ctx, x, k, fmt), slack(fmt) + (0 if fmt[0] in "su" else Fraction(1, 1000))), "every sample is scaled and clipped to its format", (got, x, k))


@harness("C40", "events", shards=lambda tier: [dict(lag=l, first=f, n=3 if tier == "quick" else 4) for l in (False, True) for f in range(4)], must=["scaled by the scale in force"], model_patch=True, extra=NP)
def c40_events(ctx, lag, first, n):
  """numbers, pauses and malformed messages on the scale input; `lag`: the thread gets to the samples only at the end"""
  r = scaler(ctx, "s32", 1, 3.0, 2, False, 50 if lag else 0.01)
  k, want, pauses = 3, [], []
  for i in range(n):
    op = first if i == 0 else ctx.choice(f"op{i}", 4)
    if op == 0:
      k = ctx.choice(f"scale{i}", 3) - 1
      r.data(2, {"timestamp": i, "value": float(k)})
    elif op == 1:
      p = ctx.flag(f"paused{i}")
      r.pause(2, p)
      if p: k = 3
    elif op == 2:
      bad = ctx.choice(f"bad{i}", 3)
      if bad == 0:
        r.data(2, {"timestamp": i})
        k = 3
      elif bad == 1: r.data(1, {"timestamp": i})
      else:
        p = ctx.flag(f"pause_in{i}")
        r.pause(1, p)
        pauses.append(p)
    else:
      x = ctx.int(f"x{i}", -10 ** 6, 10 ** 6)
      r.data(1, {"timestamp": i, "data": pack(ctx, [x], np.int32)})
      want.append((i, x * k))
    if not lag: r.loop.advance(1)
  r.loop.advance(2000 if lag else 2)
  out = r.new()
  ctx.check([d["timestamp"] for kind, d in out if kind == "data"] == [i for i, _ in want], "every message is passed on with its time", (out, want))
  for (i, x), d in zip(want, [d for kind, d in out if kind == "data"]): ctx.check(unpack(ctx, d["data"], np.int32)[0] == x, "scaled by the scale in force", (i, d))
  state = False
  for p in pauses:
    if p != state: state = p
  seen = [d for kind, d in out if kind == "pause"]
  ctx.check((seen[-1] if seen else False) == (pauses[-1] if pauses else False), "pauses are passed on", (seen, pauses))
  ctx.check(r.alive(), "the scaler keeps running", r.job)
  r.job.cancel()
  r.loop.advance(2000 if lag else 2)
  ctx.check(r.job.done(), "the scaler ends when it is stopped", r.job)


@harness("C40", "volume", shards=[dict(fmt=f, window=w, rate=1000) for f in ("s16", "s32", "u8", "flt") for w in (1, 2, 3)] + [dict(fmt="s16", window=3, rate=1500)], must=["the volume of every window is reported"], model_patch=True, extra=NP)
def c40_volume(ctx, fmt, window, rate):
  ms = lambda samples: samples * 1000 // rate
  cfg = audiovolumemeter.AudioVolumeMeterConfig(sample_format=fmt, rate=rate, time_window=ms(window), in_topic=1, out_topic=OUT)
  r = SyncRig(ctx, audiovolumemeter, lambda c: audiovolumemeter.AudioVolumeMeterTask(c, cfg))
  n = 4 if window == 3 else 2 * window
  xs = [sample(ctx, f"x{i}", fmt) for i in range(n)]
  cut = 1 + ctx.choice("cut", n - 1)
  r.data(1, {"timestamp": 100, "data": pack(ctx, xs[:cut], DT[fmt])})
  r.settle()
  r.data(1, {"timestamp": 100 + ms(cut), "data": pack(ctx, xs[cut:], DT[fmt])})
  r.settle()
  out = r.new()
  ctx.check([kind for kind, d in out] == ["data"] * (n // window), "the volume of every window is reported", out)
  top = rng(fmt)[1] if fmt != "u8" else 127
  zero = 128 if fmt == "u8" else 0
  for k, (_, d) in enumerate(out):
    ctx.check(abs(d["timestamp"] - 100 - ms(k * window)) <= (1 if rate % 1000 else 0), "the volume of every window is reported", out)
    mean = 0
    for x in xs[k * window:(k + 1) * window]: mean = mean + abs(exact(x) - zero)
    v = d["value"]
    if ctx.symbolic:
      ctx.check(ctx.Or(v * 0 == 0), "the volume is a number") if hasattr(v, "e") else ctx.check(not math.isnan(v), "the volume is a number", v)
      ctx.check(ctx.Or(*[v == nparr.SymNP().sqrt(nparr._div(mean, window * t)) for t in ((top, top + 1) if fmt != "flt" else (1,))]), "the volume of every window is reported", (v,))
    else:
      ctx.check(not math.isnan(v), "the volume is a number", v)
      ctx.check(abs(v - math.sqrt(mean / window / top)) < 0.01, "the volume of every window is reported", (v, xs))
  r.pause(1, True)
  r.settle()
  out = r.new()
  ctx.check([(k, d["value"] if k == "data" else d) for k, d in out] == [("data", 0), ("pause", True)], "a paused input is silent", out)
  ctx.check(r.alive(), "the meter keeps running", r.job)


@harness("C40", "activity", shards=[dict(pair=p) for p in range(2)], must=["the activity is the mean change of the pixels"], model_patch=True, extra=NP)
def c40_activity(ctx, pair):
  cfg = videoactivitymeter.VideoActivityMeterConfig(width=2, height=1, pixel_format="gray", in_topic=1, out_topic=OUT)
  r = SyncRig(ctx, videoactivitymeter, lambda c: videoactivitymeter.VideoActivityMeterTask(c, cfg))
  frames = [[ctx.int(f"p{k}_{i}", 0, 255) for i in range(2)] for k in range(2 + pair)]
  for k, f in enumerate(frames):
    r.data(1, {"timestamp": 10 * k, "data": pack(ctx, f, np.uint8)})
    r.settle()
  out = r.new()
  ctx.check([(k, d["timestamp"]) for k, d in out] == [("data", 10 * k) for k in range(1, len(frames))], "the activity is the mean change of the pixels", out)
  for (_, d), a, b in zip(out, frames, frames[1:]): ctx.check(near(ctx, d["value"] * 2, sum(abs(x - y) for x, y in zip(a, b)), Fraction(1, 10 ** 6)), "the activity is the mean change of the pixels", (d, a, b))
  ctx.check(r.alive(), "the meter keeps running", r.job)


class FFT:
  """numpy with a Fourier transform that finds the given magnitudes"""
  def __init__(self, base, find): self.base, self.fft = base, SimpleNamespace(fft=lambda x: find(x, True), rfft=lambda x: find(x, False))
  def __getattr__(self, name): return getattr(self.base, name)


@harness("C40", "frequencies", shards=[dict(fmt=f, rate=r, bin=b) for f, r in (("s16", 4), ("u8", 6), ("flt", 8)) for b in (1, 2, 3)], must=["the bins are the shares of the loudest"], model_patch=True, extra=NP)
def c40_frequencies(ctx, fmt, rate, bin):
  n = rate // 2
  mags, seen = [], []
  def find(x, full):
    seen.append(values(x))
    m = [ctx.real(f"m{len(seen)}_{i}", 0, 10 ** 6) for i in range(n)]
    mags.append(m)
    return arr(ctx, m + [0] * n if full else m + [0], np.float64)
  ctx.stub(audiofrequencydisplay, "np", FFT(nparr.SymNP() if ctx.symbolic else np, find))
  ui = UI(ctx, lambda c: audiofrequencydisplay.AudioFrequencyDisplayTask(c, audiofrequencydisplay.AudioFrequencyDisplayConfig(in_topic=IN, rate=rate, sample_format=fmt, bin_size=bin)))
  send, zero = feed(ui), 128 if fmt == "u8" else 0
  xs = [sample(ctx, f"x{i}", fmt) for i in range(2 * rate)]
  cut = 1 + ctx.choice("cut", rate)
  viewer = ui.view()
  ui.loop.advance(0.1)
  send({"timestamp": 1})
  for part in (xs[:cut], xs[cut:]): send({"timestamp": 1, "data": pack(ctx, part, DT[fmt])})
  ctx.check(len(seen) == 2, "every second is shown", len(seen))
  for k in range(2):
    for a, x in zip(seen[k], xs[k * rate:(k + 1) * rate]): ctx.check(exact(a) == exact(x) - zero, "every second is shown", (seen, xs))
  sums = [sum(mags[-1][i:i + bin]) for i in range(0, n, bin)]
  got = ui.task.value.freq_bins
  ctx.check(len(got) == len(sums), "the bins are the shares of the loudest", (got, sums))
  top = sums[0]
  for v in sums[1:]: top = ctx.Ite(v > top, v, top) if ctx.symbolic else max(v, top)
  for g, v in zip(got, sums): ctx.check(near(ctx, exact(g) * top, v, Fraction(1, 1000)) if not (g != g) else False, "the bins are the shares of the loudest", (got, sums))
  ctx.check(not ui.job.done(), "the display keeps running", ui.job)
