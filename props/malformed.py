"""Malformed media: nothing ends, nothing else changes."""
import asyncio
from fractions import Fraction
from types import SimpleNamespace
import av as real_av
import numpy as np
import streamtasks.client, streamtasks.utils
from streamtasks.media import audio, video
from streamtasks.system.tasks.media import (audiovolumescaler, audiovolumemeter, videoactivitymeter, audioencoder, videoencoder, audiodecoder, videodecoder, videolayout, videomixer,
  audiomixer, audiooutput, videoreformatter, audioresampler)
from streamtasks.system.tasks.ui import audiofrequencydisplay
from symx.harness import harness, meta
from props.tasks import OUT
from props.timing import Env, media_rig, bitmap
from props.ui import UI, feed, IN

LARGE = [0, -10 ** 9, 10 ** 9, 2 ** 63, 2 ** 64 - 1]


def sound(*samples): return np.array(samples, np.int16).tobytes()


class Kind:
  """a task, its proper messages and data it cannot use"""
  def __init__(self, module, make, valid, wrong, packet=False, kind="video", step=40, each=1, lost=0):
    self.module, self.make, self.valid, self.wrong, self.packet, self.kind, self.step, self.each, self.lost = module, make, valid, wrong, packet, kind, step, each, lost


def kinds():
  a = dict(in_topic=1, out_topic=OUT)
  pcm = lambda k: sound(*[100 * k + i for i in range(4)])
  odd = [b"\1", b"\1\2\3"]
  half = odd + [b"\1\2"]
  frames = [b"", bitmap(1, 23), bitmap(1, 7), bitmap(9, 25)]
  other = frames + [bitmap(9, 8), bitmap(9, 16), bitmap(9, 24), bitmap(9, 40)]
  rgba = lambda k: bytes([k, 2 * k, 3 * k, 255]) * 8
  packets = [b"bad", b""]
  return {
    "scaler": Kind(audiovolumescaler, lambda c: audiovolumescaler.AudioVolumeScalerTask(c, audiovolumescaler.AudioVolumeScalerConfig(channels=2, synchronized=False, **a)), pcm, half),
    "planar scaler": Kind(audiovolumescaler, lambda c: audiovolumescaler.AudioVolumeScalerTask(c, audiovolumescaler.AudioVolumeScalerConfig(sample_format="s16p", channels=2, synchronized=False, **a)), pcm, half),
    "meter": Kind(audiovolumemeter, lambda c: audiovolumemeter.AudioVolumeMeterTask(c, audiovolumemeter.AudioVolumeMeterConfig(rate=1000, time_window=4, **a)), pcm, odd),
    "activity": Kind(videoactivitymeter, lambda c: videoactivitymeter.VideoActivityMeterTask(c, videoactivitymeter.VideoActivityMeterConfig(width=4, height=2, **a)), bitmap, [bitmap(1, 23), bitmap(9, 25)], lost=1),
    "audio encoder": Kind(audioencoder, lambda c: audioencoder.AudioEncoderTask(c, audioencoder.AudioEncoderConfig(channels=2, **a)), pcm, half, kind="audio"),
    "video encoder": Kind(videoencoder, lambda c: videoencoder.VideoEncoderTask(c, videoencoder.VideoEncoderConfig(width=4, height=2, rate=25, **a)), bitmap, frames + [bitmap(9, 8), bitmap(9, 32)]),
    "audio decoder": Kind(audiodecoder, lambda c: audiodecoder.AudioDecoderTask(c, audiodecoder.AudioDecoderConfig(**a)), lambda k: bytes([k]), packets, packet=True, kind="audio", each=1280),
    "video decoder": Kind(videodecoder, lambda c: videodecoder.VideoDecoderTask(c, videodecoder.VideoDecoderConfig(width=4, height=2, rate=25, **a)), lambda k: bytes([k]), packets, packet=True),
    "layout": Kind(videolayout, lambda c: videolayout.VideoLayoutTask(c, videolayout.VideoLayoutConfig(in_width=4, in_height=2, place_width=2, place_height=2, out_width=4, out_height=4, **a)), rgba, frames + [bitmap(9, 8), bitmap(9, 16), bitmap(9, 24), bitmap(9, 40)]),
    "mixer of video": Kind(videomixer, lambda c: videomixer.VideoMixerTask(c, videomixer.VideoMixerConfig(width=4, height=2, pixel_format="rgba", synchronized=False, video_tracks=[{"in_topic": 1}], out_topic=OUT)), rgba, [b"", bitmap(9, 31), bitmap(9, 28), bitmap(9, 33), bitmap(9, 64), bitmap(9, 2)]),
    "mixer of audio": Kind(audiomixer, lambda c: audiomixer.AudioMixerTask(c, audiomixer.AudioMixerConfig(channels=2, rate=1000, synchronized=False, audio_tracks=[{"in_topic": 1}], out_topic=OUT)), lambda k: sound(*range(80 * k, 80 * k + 80)), half),
    "reformatter": Kind(videoreformatter, lambda c: videoreformatter.VideoReformatterTask(c, videoreformatter.VideoReformatterConfig(in_rate=25, out_rate=25, in_width=4, in_height=2, out_width=2, out_height=2, **a)), bitmap, frames + [bitmap(9, 8), bitmap(9, 32)]),
    "resampler": Kind(audioresampler, lambda c: audioresampler.AudioResamplerTask(c, audioresampler.AudioResamplerConfig(in_channels=2, out_channels=2, **a)), pcm, half, kind="audio"),
  }


# ---------------------------------------------------------------- C35 malformed media
meta("C35", bounds="14 media tasks and the frequency display: histories of 3 (thorough 4) messages, each proper or malformed: a field missing or of another type, no fields, data of 2 to 8 wrong sizes, a corrupt or empty packet, from a symbolic start, at every place; the timestamp of a malformed message expected, symbolic, or the largest that a message can carry",
     outside="payloads that are no message pack; proper sizes with timestamps far in the future or past; data the real codecs reject later")


KINDS = kinds()


@harness("C35", "messages", shards=lambda tier: [dict(task=t, n=3 if tier == "quick" else 4) for t in KINDS], must=["the task keeps running", "what comes of proper messages is the same"], model_patch=True)
def c35(ctx, task, n):
  k = KINDS[task]
  env = Env(ctx, 0, kind=k.kind)
  r = media_rig(ctx, k.module, k.make)
  t0 = ctx.int("t0", 10 ** 6, 10 ** 12)
  message = lambda i, t, data: {"timestamp": t, "packet": {"data": data, "pts": i * k.each, "rel_dts": 0, "is_keyframe": False}} if k.packet else {"timestamp": t, "data": data}
  def send(m):
    r.data(1, m)
    r.loop.advance(0.2)
  field = "packet" if k.packet else "data"
  proper, got = [], []
  for i in range(n):
    t = t0 + i * k.step
    ok = message(i, t, k.valid(i + 1))
    op = ctx.choice(f"op{i}", 4) if i < n - 1 else 3
    if op == 0:      # another shape
      which = ctx.choice(f"shape{i}", 6 if k.packet else 5)
      bad = dict(ok)
      if which == 0: del bad[field]
      elif which == 1: del bad["timestamp"]
      elif which == 2: bad = 17
      elif which == 3: bad[field] = [1, 2] 
      elif which == 4: bad["timestamp"] = "soon"
      else: bad["packet"] = {"data": b"\1"}
      send(bad)
    elif op == 1:    # data of another size, or a packet that is none
      late = ctx.choice(f"when{i}", 3)
      tb = t if late == 0 else t + ctx.int(f"late{i}", -10 ** 5, 10 ** 5) if late == 1 else 2 ** 64 - 1
      send(message(i, tb, k.wrong[ctx.choice(f"wrong{i}", len(k.wrong))]))
    elif op == 2:
      if k.packet:
        bad = message(i, t, k.valid(9))
        bad["packet"]["pts"] = 2 ** 64 - 1
        send(bad)
      else: send({})
    else:
      send(ok)
      proper.append(ok)
    ctx.check(r.alive(), "the task keeps running", (op, r.job))
    got.append([d for kind_, d in r.new() if kind_ == "data"])
  last, got = got[-1], sum(got, [])
  r.job.cancel()
  r.loop.advance(2)
  r = media_rig(ctx, k.module, k.make)
  for m in proper: send(m)
  expected = [d for kind_, d in r.new() if kind_ == "data"]
  if k.lost:      # compares messages with those before them
    ctx.check(len(got) >= min(len(expected), 1) - (n - len(proper)), "what comes of proper messages is the same", (got, expected))
    return
  ctx.check(len(got) == len(expected) and ctx.And(*[g == e for g, e in zip(got, expected)]), "what comes of proper messages is the same", (got, expected))


@harness("C35", "recovers", shards=[dict(task=t) for t in KINDS], must=["the task goes on after malformed messages"], model_patch=True)
def c35_recovers(ctx, task):
  """after a malformed message, two proper ones have their effect"""
  k = KINDS[task]
  env = Env(ctx, 0, kind=k.kind)
  r = media_rig(ctx, k.module, k.make)
  t0 = ctx.int("t0", 10 ** 6, 10 ** 12)
  message = lambda i, data: {"timestamp": t0 + i * k.step, "packet": {"data": data, "pts": i * k.each, "rel_dts": 0, "is_keyframe": False}} if k.packet else {"timestamp": t0 + i * k.step, "data": data}
  first = ctx.flag("first")
  for i in range(6):
    if i in ((0, 1) if first else (2, 3)): data = k.wrong[ctx.choice(f"wrong{i}", len(k.wrong))]
    else: data = k.valid(i + 1)
    r.data(1, message(i, data))
    r.loop.advance(0.2)
    n = len(r.new())
    if i == 5: ctx.check(n == 1, "the task goes on after malformed messages", (n, r.job))


@harness("C35", "display", must=["the task goes on after malformed messages"], model_patch=True)
def c35_display(ctx):
  ui = UI(ctx, lambda c: audiofrequencydisplay.AudioFrequencyDisplayTask(c, audiofrequencydisplay.AudioFrequencyDisplayConfig(in_topic=IN, rate=4, sample_format="s16", bin_size=1)))
  send = feed(ui)
  for k in range(2):
    which = ctx.choice(f"bad{k}", 5)
    send({"timestamp": ctx.int(f"t{k}", 0, 2 ** 64 - 1), "data": bytes([1] * (1 + 2 * ctx.choice(f"size{k}", 4)))} if which == 3 else [{"timestamp": 1}, {"data": b""}, 17, None, {"timestamp": 1, "data": "x"}][which])
    ctx.check(not ui.job.done(), "the task keeps running", ui.job)
  send({"timestamp": 1, "data": sound(5, 5, 5, 5)})
  ctx.check([round(v, 6) for v in ui.task.value.freq_bins] == [1, 0], "the task goes on after malformed messages", ui.task.value)


class Device:
  """an audio output that takes whole frames of samples"""
  def __init__(self, channels, dtype, **kw): self.size, self.written, self.open = channels * np.dtype(dtype).itemsize, [], None
  def start(self): self.open = True
  def close(self): self.open = False
  def write(self, data):
    if len(data) % self.size: raise ValueError("len(data) not divisible by samplesize")
    self.written.append(bytes(data))


@harness("C35", "output", must=["the task goes on after malformed messages"], model_patch=True)
def c35_output(ctx):
  devices = []
  ctx.stub(audiooutput, "sounddevice", SimpleNamespace(RawOutputStream=lambda **kw: devices.append(Device(**kw)) or devices[-1]))
  r = media_rig(ctx, audiooutput, lambda c: audiooutput.AudioOutputTask(c, audiooutput.AudioOutputConfig(channels=2, in_topic=1)))
  expected = []
  for k in range(3):
    which = ctx.choice(f"op{k}", 5)
    t = ctx.int(f"t{k}", 0, 10 ** 12)
    good = sound(k, k, -k, 7)
    if which == 4: expected.append(good)
    r.data(1, {"timestamp": t, "data": bytes(1 + ctx.choice(f"size{k}", 3))} if which == 2 else [{"timestamp": t}, {"data": good}, None, {"timestamp": t, "data": 1}, {"timestamp": t, "data": good}][which])
    r.loop.advance(0.2)
    ctx.check(r.alive() and devices[0].open, "the task keeps running", r.job)
  ctx.check(devices[0].written == expected, "the task goes on after malformed messages", (devices[0].written, expected))
  r.job.cancel()
  r.loop.advance(2)
  ctx.check(r.job.done() and not devices[0].open, "the device is closed", r.job)
