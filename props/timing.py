"""Audio and video: times of frames and packets, malformed media."""
import asyncio
import ctypes
import queue
from fractions import Fraction
from types import SimpleNamespace
import numpy as np
import av as real_av
import streamtasks.client, streamtasks.utils
from streamtasks.media import audio, video, codec, packet, container
from streamtasks.system.tasks.media import videoreformatter, audioresampler, videoencoder, audioencoder, videodecoder, audiodecoder, inputcontainer
from symx.harness import harness, meta
from symx.threads import Turns
from props.tasks import Rig, OUT
from props.media import Queue, near


def rational(v):
  """what PyAV does with a rate or time base: a fraction of 32 bit integers"""
  f = Fraction(v)
  if max(abs(f.numerator), f.denominator) > 2 ** 31 - 1: raise OverflowError("value too large to convert to int")
  return f


def int64(v):
  if v is not None and not -2 ** 63 <= v < 2 ** 63: raise OverflowError("Python int too large to convert to C long")
  return v


class Timed:
  @property
  def pts(self): return self._pts
  @pts.setter
  def pts(self, v): self._pts = int64(v)
  @property
  def dts(self): return self._dts
  @dts.setter
  def dts(self, v): self._dts = int64(v)


class Packet(Timed):
  def __init__(self, data=b""): self.data, self.pts, self.dts, self._tb, self.is_keyframe, self.stream_index, self.stream = data, None, None, None, False, 0, None
  @property
  def time_base(self): return self._tb
  @time_base.setter
  def time_base(self, v): self._tb = rational(v)
  @property
  def size(self): return len(self.data)
  def __bytes__(self): return bytes(self.data)


class Frame(Timed):
  def __init__(self, width=0, height=0, format="", tag=None):
    self.width, self.height, self.format = width, height, SimpleNamespace(name=format)
    self.content = ctypes.create_string_buffer(bytes([tag or 0]) * 4, 4)
    self.planes = (SimpleNamespace(buffer_ptr=ctypes.addressof(self.content), buffer_size=4),)
    self.pts = self.dts = self._tb = self.pict_type = self.colorspace = self.color_range = None
    self.rate = self.sample_rate = None
  @property
  def tag(self): return self.content.raw[0]
  @property
  def time_base(self): return self._tb
  @time_base.setter
  def time_base(self, v): self._tb = None if v is None else rational(v)
  def to_ndarray(self): return np.frombuffer(self.content.raw, np.uint8)
  def copy(self):
    f = type(self)(self.width, self.height, self.format.name, self.tag)
    f.pts, f.dts, f._tb = self.pts, self.dts, self._tb
    return f


class VideoFrame(Frame):
  @staticmethod
  def from_ndarray(a, format):
    channels = {"rgb24": 3, "bgr24": 3, "rgba": 4, "bgra": 4, "gray": 1}[format]
    if a.ndim != (3 if channels > 1 else 2) or a.ndim == 3 and a.shape[2] != channels: raise ValueError(f"Unexpected numpy array shape `{a.shape}`")
    return VideoFrame(a.shape[1], a.shape[0], format, int(a.reshape(-1)[0]) & 255)
  def reformat(self, width=None, height=None, format=None): return Reformatter().reformat(self, width, height, format)


class AudioFrame(Frame):
  @staticmethod
  def from_ndarray(a, format, channels):
    if a.size % channels: raise ValueError("sizes differ")
    return AudioFrame(0, 0, format, int(a.reshape(-1)[0]) & 255)


class Reformatter:
  def reformat(self, f, width=None, height=None, format=None, **kw):
    if (width, height, format) == (f.width, f.height, f.format.name): return f      # as FFmpeg's does
    new = f.copy()
    new.width, new.height, new.format = width or f.width, height or f.height, SimpleNamespace(name=format or f.format.name)
    return new


class Resampler:
  """passes frames on with times in its own rate, `delay` frames later"""
  def __init__(self, env, format, layout, rate): self.env, self.rate, self.held, self.format = env, rate, [], format
  def resample(self, f):
    new = f.copy()
    new.dts = None
    new.pts = None if f.pts is None else self.env.round(f.pts * f.time_base * self.rate)
    new.time_base = Fraction(1, self.rate)
    self.held.append(new)
    return [self.held.pop(0)] if len(self.held) > self.env.resampler_delay else []


class Context:
  """a coder: frames become packets and packets frames, in their order, late or reordered"""
  def __init__(self, env, name, mode):
    self.env, self.name, self.mode = env, name, mode
    self.frames, self.held, self.closed, self.draining = [], [], False, False
    self.options, self.bit_rate, self.bit_rate_tolerance = {}, None, None
    self._tb = self._fr = None
    env.contexts.append(self)
  @property
  def time_base(self): return self._tb
  @time_base.setter
  def time_base(self, v): self._tb = rational(v)
  @property
  def framerate(self): return self._fr
  @framerate.setter
  def framerate(self, v): self._fr = rational(v)
  def close(self, strict=True): self.closed = True
  def encode(self, f=None):
    env, ctx = self.env, self.env.ctx
    if f is not None:
      ctx.check(f.time_base == self.time_base, "frames are in the time base of the encoder", f.time_base)
      if env.expected is not None:
        ctx.check(f.pts == env.expected[len(self.frames)], "every frame is encoded at its time", (f.pts, len(self.frames)))
        f.pts = env.expected[len(self.frames)]      # equal: simpler for the solver
      if self.frames: ctx.check(f.pts > self.frames[-1].pts, "frames are at different times", (self.frames[-1].pts, f.pts))
      self.frames.append(f.copy())
    n = len(self.frames)
    if env.order == "reordered":       # 0 2 1 4 3 ..., decoding one earlier
      if f is None: ready = []
      elif n == 1: ready = [0]
      else: ready = [n - 1, n - 2] if n % 2 else []
    else:
      ready = [n - 1 - env.delay] if f is not None and n > env.delay else []
      if f is None: ready = list(range(max(0, n - env.delay), n))
    out = []
    for k in ready:
      p = Packet(bytes([self.frames[k].tag]))
      p.pts = self.frames[k].pts
      i = len(self.held)
      p.dts = p.pts if env.order != "reordered" else self.frames[i - 1].pts if i else p.pts - 1
      p.time_base = self.time_base
      p.is_keyframe = k == 0
      self.held.append((p.pts, p.dts))
      out.append(p)
    return out
  def decode(self, p=None):
    env = self.env
    if p is not None:
      if self.draining: raise real_av.error.EOFError(1, "End of file")
      if len(bytes(p)) == 0:      # as FFmpeg's
        self.draining = True
        return []
      if bytes(p) == b"bad": raise real_av.error.InvalidDataError(1, "Invalid data found when processing input")
      f = env.frame_type(4, 2, env.pixel_format, bytes(p)[0])
      f.pts, f.dts, f.time_base = p.pts, p.dts, p.time_base
      self.frames.append(f)
      return [self.frames.pop(0)] if len(self.frames) > env.delay else []
    r, self.frames = self.frames, []
    return r


class Env:
  """FFmpeg's part"""
  def __init__(self, ctx, delay=0, order="plain", kind="video", pixel_format="yuv420p"):
    self.ctx, self.delay, self.order, self.contexts, self.pixel_format = ctx, delay, order, [], pixel_format
    self.expected, self.resampler_delay = None, delay
    self.frame_type = VideoFrame if kind == "video" else AudioFrame
    create = SimpleNamespace(create=lambda name, mode: Context(self, name, mode))
    self.av = SimpleNamespace(Packet=Packet, VideoFrame=VideoFrame, AudioFrame=AudioFrame, VideoFormat=lambda name, *a: SimpleNamespace(name=name), AudioFormat=lambda name: SimpleNamespace(name=name), AudioLayout=lambda n: SimpleNamespace(n=n),
      video=SimpleNamespace(reformatter=SimpleNamespace(VideoReformatter=Reformatter), codeccontext=SimpleNamespace(VideoCodecContext=create)), audio=SimpleNamespace(codeccontext=SimpleNamespace(AudioCodecContext=create)),
      AudioResampler=lambda *a: Resampler(self, *a), Codec=real_av.Codec, error=real_av.error, FFmpegError=real_av.FFmpegError, container=real_av.container, open=lambda *a, **kw: self.container)
    for m in (audio, video, codec, packet, container): ctx.stub(m, "av", self.av)
  def round(self, x): return round(x)


def media_rig(ctx, module, make):
  """a task whose thread, if it has one, moves in turns"""
  turns = Turns(ctx, lambda: asyncio.sleep(0.01))
  Queue.turns = turns
  if hasattr(module, "queue"): ctx.stub(module, "queue", SimpleNamespace(Queue=Queue, Empty=queue.Empty))
  ctx.loop().run_in_executor = turns.run_in_executor
  r = Rig(ctx, make)
  r.turns = turns
  return r


def bitmap(tag, n=24): return bytes([tag]) * n


RATES = [25, 30, 60, 12.5, 29.97, 23.976, 59.94]
ms = Fraction(1000)


def exact_rate(r): return Fraction(str(r))


def dropped(ctx, n, rate):
  """timestamps of frames at the rate, cut to milliseconds, some of them missing; their numbers"""
  t0, j, out, js = ctx.int("t0", 10 ** 6, 10 ** 12), 0, [], [0]
  step = ms / exact_rate(rate)
  for k in range(n):
    if k == 0:
      out.append(t0)
      continue
    j = j + ctx.int(f"frames{k}", 1, 10 ** 5)
    t = ctx.int(f"t{k}", 0, 10 ** 10)
    ctx.assume(ctx.And(t <= j * step, t + 1 > j * step))
    out.append(t0 + t)
    js.append(j)
  return out, js


def nominal(ctx, n, rate, gaps):
  """timestamps of frames at the rate, cut to milliseconds, with gaps before each frame or one"""
  t0 = ctx.int("t0", 10 ** 6, 10 ** 12)
  late, out = 0, []
  for k in range(n):
    if k and gaps in (k, "all"): late = late + ctx.int(f"gap{k}", 0, 10 ** 6)
    out.append(t0 + int(k * ms / exact_rate(rate)) + late)
  return out


# ---------------------------------------------------------------- C34 times
meta("C34", bounds="packets: two packets of every presentation and decoding time up to 2^40 between 7 pairs of time bases; encoders and decoders: frame rates 25, 30, 60, 12.5, 29.97, 23.976 and 59.94, 5 frames, timestamps cut to milliseconds, from every start and with every gap, coders that answer at once, one frame late and in another order; video reformatter: 8 pairs of frame rates, 4 frames (thorough 7); resampler: 3 rates; input container: one and two streams, 3 packets, with and without transcoding, every position",
     outside="the codecs, scalers and resamplers of FFmpeg (replaced by models that keep or shift times); pacing of a container in real time; frames closer to each other than the frame rate")


BASES = [(Fraction(1, 30), Fraction(1, 30)), (Fraction(1, 90000), Fraction(1, 30)), (Fraction(1, 1000), Fraction(1, 30)), (Fraction(1, 15360), Fraction(1001, 30000)), (Fraction(1, 48000), Fraction(1, 32000)), (Fraction(1, 1000), Fraction(1, 44100)), (Fraction(1, 49), Fraction(1, 1))]


@harness("C34", "packets", shards=[dict(base=i, has_dts=d) for i in range(len(BASES)) for d in (True, False)], must=["a packet keeps its times", "packets keep their order"])
def c34_packets(ctx, base, has_dts):
  frm, to = BASES[base]
  ps = []
  for k in range(2):
    p = Packet(bytes([k]))
    p.pts = ctx.int(f"pts{k}", -2 ** 40, 2 ** 40)
    if has_dts:
      p.dts = ctx.int(f"dts{k}", -2 ** 40, 2 ** 40)
      ctx.assume(p.dts <= p.pts)
    p.time_base, p.is_keyframe = frm, bool(k)
    ps.append(p)
  ms_ = [packet.MediaPacket.from_av_packet(p, to) for p in ps]
  Env(ctx)
  back = [m.to_av_packet(to) for m in ms_]
  for p, m, b in zip(ps, ms_, back):
    ctx.check(m.data == p.data and b.data == p.data and m.is_keyframe == p.is_keyframe and b.is_keyframe == p.is_keyframe, "a packet keeps its data")
    ctx.check(ctx.And(m.pts == b.pts, m.dts == b.dts, b.time_base == to), "a packet keeps its times", (m, b.pts, b.dts))
    dts = p.dts if has_dts else p.pts
    half = Fraction(1, 2) if frm != to else 0
    ctx.check(near(ctx, m.pts * Fraction(1), p.pts * (frm / to), half), "a packet keeps its times", (m, p.pts))
    ctx.check(near(ctx, m.dts * Fraction(1), dts * (frm / to), half), "a packet keeps its times", (m, p.dts))
    ctx.check(m.rel_dts >= 0, "a packet is decoded before it is shown", m)
  a, b = [p.dts if has_dts else p.pts for p in ps]
  ctx.check(ctx.Implies(a <= b, ms_[0].dts <= ms_[1].dts), "packets keep their order", ms_)


@harness("C34", "encoder", shards=lambda tier: [dict(kind=k, rate=r, order=o, delay=d) for k, rates in (("video", RATES), ("audio", [32000, 44100])) for r in rates for o, d in (("plain", 0), ("plain", 1), ("reordered", 0))], must=["every frame is encoded at its time", "a packet's message carries its time"], model_patch=True)
def c34_encoder(ctx, kind, rate, order, delay):
  env = Env(ctx, delay, order, kind)
  n = 5
  if kind == "video":
    cfg = videoencoder.VideoEncoderConfig(width=4, height=2, rate=rate, in_topic=1, out_topic=OUT)
    r = media_rig(ctx, videoencoder, lambda c: videoencoder.VideoEncoderTask(c, cfg))
  else:
    cfg = audioencoder.AudioEncoderConfig(rate=rate, in_topic=1, out_topic=OUT)
    r = media_rig(ctx, audioencoder, lambda c: audioencoder.AudioEncoderTask(c, cfg))
  ts, js = dropped(ctx, n, rate if kind == "video" else 50)
  if kind == "video": env.expected = js
  for k, t in enumerate(ts):
    r.data(1, {"timestamp": t, "data": bitmap(k)})
    r.loop.advance(0.2)
  ctx.check(r.alive(), "the encoder keeps running", r.job)
  c = env.contexts[0]
  ctx.check([f.tag for f in c.frames] == list(range(n)), "every frame is encoded at its time", [f.tag for f in c.frames])
  tick = 1 / exact_rate(rate)
  for f, t in zip(c.frames, ts): ctx.check(near(ctx, f.pts * tick, (t - ts[0]) / ms, tick / 2), "every frame is encoded at its time", (f.pts, t - ts[0]))
  out = r.new()
  ctx.check(len(out) == len(c.held) and len(out) >= n - delay, "every packet is sent once", (out, c.held))
  order = [0, 2, 1, 4, 3] if order == "reordered" else range(n)
  for (k, d), (pts, dts), o in zip(out, c.held, order):
    p = d["packet"]
    ctx.check(p["data"] == bytes([o]) and p["is_keyframe"] == (o == 0), "every packet is sent once", (p, o))
    ctx.check(ctx.And(p["pts"] == pts, p["rel_dts"] == pts - dts), "a packet keeps its times", (p, pts, dts))
    ctx.check(near(ctx, d["timestamp"] * Fraction(1), ts[0] + dts * tick * 1000, 1), "a packet's message carries its time", (d, dts))
  r.job.cancel()
  r.loop.advance(2)
  ctx.check(r.job.done() and c.closed, "the encoder ends when it is stopped", r.job)


def media(ctx, r, timestamp, data, pts, rel=0, key=False):
  m = {"timestamp": timestamp, "packet": {"data": data, "pts": pts, "rel_dts": rel, "is_keyframe": key}}
  r.data(1, m)
  r.loop.advance(0.2)


@harness("C34", "decoder", shards=[dict(kind=k, rate=r, delay=d) for k, rates in (("video", RATES), ("audio", [32000, 44100])) for r in rates for d in (0, 1)], must=["every frame is sent at the time of its packet"], model_patch=True)
def c34_decoder(ctx, kind, rate, delay):
  env = Env(ctx, delay, "plain", kind)
  n = 4
  if kind == "video":
    cfg = videodecoder.VideoDecoderConfig(width=4, height=2, rate=rate, in_topic=1, out_topic=OUT)
    r = media_rig(ctx, videodecoder, lambda c: videodecoder.VideoDecoderTask(c, cfg))
  else:
    cfg = audiodecoder.AudioDecoderConfig(rate=rate, in_topic=1, out_topic=OUT)
    r = media_rig(ctx, audiodecoder, lambda c: audiodecoder.AudioDecoderTask(c, cfg))
  start, dts = ctx.int("start", 10 ** 7, 10 ** 12), ctx.int("dts0", -100, 10 ** 6)
  tick, ts = 1 / exact_rate(rate), []
  for k in range(n):
    if k: dts = dts + ctx.int(f"gap{k}", 1, 10 ** 5)
    t = ctx.int(f"t{k}", 0, 10 ** 13)
    ctx.assume(near(ctx, t * Fraction(1), start + dts * tick * 1000, 1))
    ts.append(t)
    rel = ctx.choice(f"rel{k}", 2)
    media(ctx, r, t, bytes([k]), dts + rel, rel)
  out = r.new()
  delay *= 1 if kind == "video" else 2      # the resampler is late as well
  ctx.check(len(out) == n - delay, "every packet's frame is sent once", out)
  for k, (_, d) in enumerate(out):
    ctx.check(set(d["data"]) == {k}, "every packet's frame is sent once", (k, d))
    ctx.check(near(ctx, d["timestamp"], ts[k], 4 if kind == "video" else 1 + 4), "every frame is sent at the time of its packet", (k, d, ts))
  ctx.check(r.alive(), "the decoder keeps running", r.job)
  r.job.cancel()
  r.loop.advance(2)
  ctx.check(all(c.closed for c in env.contexts), "the decoder is closed", r.job)


@harness("C34", "reformatter", shards=lambda tier: [dict(i=i, o=o, gaps=g, n=4 if tier == "quick" else 7) for i, o in ((30, 30), (25, 50), (50, 25), (30, 25), (25, 30), (29.97, 30), (12.5, 25), (60, 23.976)) for g in (False, True) if (i, g) != (29.97, True)], must=["frames are repeated or left out to reach the rate", "every frame is sent at its time"], model_patch=True)
def c34_reformatter(ctx, i, o, gaps, n):
  env = Env(ctx, 0)
  cfg = videoreformatter.VideoReformatterConfig(in_rate=i, out_rate=o, in_width=4, in_height=2, out_width=2, out_height=2, out_pixel_format="rgb24", in_topic=1, out_topic=OUT)
  r = media_rig(ctx, videoreformatter, lambda c: videoreformatter.VideoReformatterTask(c, cfg))
  ts = nominal(ctx, n, i, 1 + ctx.choice("at", n - 1) if gaps else 0)
  sent, last = 0, None
  step, ratio = 1000 / exact_rate(o), exact_rate(o) / exact_rate(i)
  for k, t in enumerate(ts):
    r.data(1, {"timestamp": t, "data": bitmap(k)})
    r.loop.advance(0.2)
    for j, (_, d) in enumerate(r.new()):
      sent += 1
      ctx.check(set(d["data"]) == {k}, "the frame is the one that came", (k, d))
      ctx.check(near(ctx, d["timestamp"] * Fraction(1), t + j * step, 2 * step + 2), "every frame is sent at its time", (k, j, d["timestamp"], t))
      if last is not None: ctx.check(d["timestamp"] - last >= int(step), "frames are a frame apart", (d["timestamp"], last))
      last = d["timestamp"]
    ctx.check(abs(sent - (k + 1) * ratio) <= 1, "frames are repeated or left out to reach the rate", (sent, k + 1))
  ctx.check(r.alive(), "the reformatter keeps running", r.job)


@harness("C34", "resampler", shards=[dict(i=i, o=o, delay=d) for i, o in ((32000, 48000), (44100, 32000), (8000, 8000)) for d in (0, 1)], must=["every block is sent at its time"], model_patch=True)
def c34_resampler(ctx, i, o, delay):
  env = Env(ctx, delay, kind="audio")
  cfg = audioresampler.AudioResamplerConfig(in_rate=i, out_rate=o, in_sample_format="s16", out_sample_format="s16", in_topic=1, out_topic=OUT)
  r = media_rig(ctx, audioresampler, lambda c: audioresampler.AudioResamplerTask(c, cfg))
  ts = nominal(ctx, 4, 50, "all")
  for k, t in enumerate(ts):
    r.data(1, {"timestamp": t, "data": bytes([k, 0] * 4)})
    r.loop.advance(0.2)
  out = r.new()
  ctx.check(len(out) == 4 - delay, "every block is sent at its time", out)
  for k, (_, d) in enumerate(out):
    ctx.check(set(d["data"]) == {k}, "the block is the one that came", (k, d))
    ctx.check(near(ctx, d["timestamp"], ts[k], 1), "every block is sent at its time", (k, d, ts))
  ctx.check(r.alive(), "the resampler keeps running", r.job)


class Container:
  """a container whose packets are there"""
  def __init__(self, env, turns, streams, packets):
    self.turns, self.packets, self.flags, self.closed = turns, packets, real_av.container.Flags.GENPTS, False
    mk = lambda kind: [SimpleNamespace(index=i, type=k, codec_context=c) for i, (k, c) in enumerate(streams) if k == kind]
    self.streams = SimpleNamespace(video=mk("video"), audio=mk("audio"))
  def demux(self):
    while self.packets:
      self.turns.pause()
      yield self.packets.pop(0)
  def close(self): self.closed = True


def codec_context(env, kind, transcode):
  c = Context(env, "h264" if kind == "video" else "aac", "r")
  c.type, c.rate, c.width, c.height = kind, Fraction(25), 4, 2
  c.channels, c.sample_rate = 1, 32000 if not transcode else 48000
  c.format = SimpleNamespace(name="yuv420p" if kind == "video" else "fltp")
  return c


@harness("C34", "input", shards=[dict(kinds=k, transcode=t, delay=d, first=f) for k in (("video",), ("audio",), ("video", "audio")) for t, d in ((False, 0), (True, 0), (True, 1), (True, 2)) for f in range(len(k))], must=["the messages of all tracks are on one clock"], model_patch=True)
def c34_input(ctx, kinds, transcode, delay, first):
  env = Env(ctx, delay)
  env.resampler_delay = 0
  turns = Turns(ctx, lambda: asyncio.sleep(0.01))
  ctx.loop().run_in_executor = turns.run_in_executor
  contexts = [codec_context(env, k, transcode) for k in kinds]
  n, packets, last = 3, [], [None] * len(kinds)
  for k in range(n + (len(kinds) - 1)):
    i = (first + k) % len(kinds)
    p = Packet(bytes([k]))
    step = ctx.int(f"step{k}", 1, 10 ** 5) * (1 if kinds[i] == "video" else 1024)
    last[i] = ctx.int(f"position{i}", 0, 10 ** 5) if last[i] is None else last[i] + step
    p.dts = last[i]
    p.pts = p.dts + (ctx.choice(f"rel{k}", 2) if not transcode else 0)
    p.time_base, p.stream_index = Fraction(1, 25) if kinds[i] == "video" else Fraction(1, contexts[i].sample_rate), i
    packets.append(p)
  env.container = Container(env, turns, list(zip(kinds, contexts)), list(packets))
  env.frame_type = None
  def frame_type(w, h, fmt, tag): return (VideoFrame if fmt == "yuv420p" else AudioFrame)(w, h, fmt, tag)
  env.frame_type = frame_type
  for c in contexts:
    def decode(p=None, c=c):
      env.pixel_format = c.format.name
      return Context.decode(c, p)
    c.decode = decode
  loop = ctx.loop()
  ctx.stub(inputcontainer, "get_timestamp_ms", lambda: 10 ** 9 + int(loop.time() * 1000))
  tracks = {"video_tracks": [], "audio_tracks": []}
  for i, k in enumerate(kinds):
    tracks[k + "_tracks"].append({"out_topic": OUT + i, "force_transcode": transcode, **({"rate": 25, "width": 4, "height": 2} if k == "video" else {"rate": 32000})})
  cfg = inputcontainer.InputContainerConfig(source="file", real_time=False, **tracks)
  r = Rig(ctx, lambda c: inputcontainer.InputContainerTask(c, cfg))
  r.loop.advance(2)
  out = [(m.topic, m.data.data) for m in r.peer.sent if isinstance(m, r.msgs.TopicDataMessage)]
  zero = None
  for i, k in enumerate(kinds):
    mine, ps = [d for t, d in out if t == OUT + i], [p for p in packets if p.stream_index == i]
    ctx.check([d["packet"]["data"] for d in mine] == [p.data for p in ps], "every packet is sent once, in order", (mine, len(ps), r.job))
    for d, p in zip(mine, ps):
      at = p.dts * p.time_base * 1000
      t = d["timestamp"] * Fraction(1) - at
      if zero is None: zero = t
      ctx.check(near(ctx, t, zero, 2), "the messages of all tracks are on one clock", (d, p.dts, p.time_base))
      tick = Fraction(1, 25) if k == "video" else Fraction(1, 32000)
      half = 0 if not transcode or k == "video" else Fraction(1, 2)
      ctx.check(near(ctx, d["packet"]["pts"] * Fraction(1), p.pts * (p.time_base / tick), half), "a packet keeps its times", (d, p.pts))
      ctx.check(d["packet"]["rel_dts"] == p.pts - p.dts, "a packet keeps its times", (d, p.pts, p.dts))
  ctx.check(r.job.done() and r.job.exception() is None and env.container.closed, "the input ends with its container", r.job)
