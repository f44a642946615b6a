"""Sources: devices, screens, pictures and texts become messages."""
import asyncio
from fractions import Fraction
from types import SimpleNamespace
import mss.base, mss.models, mss.screenshot
import numpy as np
import cv2
import streamtasks.client, streamtasks.utils
from streamtasks.system.tasks.media import audioinput, videoinput, screencapture, imagerenderer, textrenderer, pa_utils
from symx.harness import harness, meta
from props.tasks import Rig, OUT
from props.timing import media_rig

meta("C48", bounds="3 (thorough 4) blocks of every sample format, 1 to 2 channels, every rate from 8000 to 192000, the clock any at every block, also behind the one before; 3 (thorough 4) camera pictures of every pixel format at 6 rates on any clock; 3 (thorough 4) pictures of a screen of 8 by 6 at 14 regions and 5 rates, every delay of the grabbing, the sleeping and the sending up to 1 s; an end or a failure of the device at every block; 3 repetitions of an image at every interval; histories of 3 (thorough 4) texts, malformed texts and pauses",
     outside="what the drivers of PortAudio, OpenCV, the screen and Pillow do (replaced; pictures are converted and sized by the real OpenCV)")

SIZES = {"u8": 1, "s16": 2, "s32": 4, "flt": 4}
TYPES = {"u8": "uint8", "s16": "int16", "s32": "int32", "flt": "float32"}


class Device:
  """something that fails when it is used in a state in which it cannot be"""
  def __init__(self, ctx, fails=None, shown=None): self.ctx, self.fails, self.open, self.blocks, self.turns, self.shown = ctx, fails, True, [], None, shown
  def take(self, block):
    self.ctx.check(self.open, "a device is read while it is open")
    if self.turns is not None: self.turns.pause()
    if self.fails == len(self.blocks): raise RuntimeError("unplugged")
    if self.shown is not None: self.shown.append(self.ctx.int(f"clock{len(self.shown)}", 10 ** 6, 10 ** 12))
    self.blocks.append(block)
    return block
  def close(self): self.open = False


def clock(ctx, module):
  """a clock of milliseconds that shows anything, and anything else after every block"""
  shown = []
  ctx.stub(module, "get_timestamp_ms", lambda: shown[-1] if shown else 0)
  return shown


def finish(ctx, r, device, n, end):
  """lets n blocks pass; then the task is stopped, or the device fails"""
  device.turns = r.turns
  for _ in range(40):
    if len(device.blocks) >= n or r.job.done(): break
    r.loop.advance(0.02)
  if end == "stop": r.job.cancel()
  r.loop.advance(0.2)
  ctx.check(r.job.done(), "a source ends when it is stopped, or its device fails")
  ctx.check(not device.open, "the device of a source that ended is closed", r.job)
  if end == "fail": ctx.check(r.job.exception() is not None and str(r.job.exception()) == "unplugged", "the failure of a device is reported", r.job)
  got = [d for k, d in r.new() if k == "data"]
  read = len(device.blocks)
  ctx.check(len(got) <= read and len(got) >= (read if end == "fail" else min(n, read)), "every block is sent once", (len(got), read))
  return got


# ---------------------------------------------------------------- microphones
@harness("C48", "microphone", shards=lambda tier: [dict(fmt=f, end=e, n=3 if tier == "quick" else 4) for f in TYPES for e in ("stop", "fail")], must=["blocks do not overlap", "the device of a source that ended is closed"], model_patch=True)
def c48_mic(ctx, fmt, end, n):
  channels, size, rate = 1 + ctx.choice("channels", 2), [1, 4, 64][ctx.choice("size", 3)], ctx.int("rate", 8000, 192000)
  made, shown = [], clock(ctx, audioinput)
  class Mic(Device):
    def __init__(self, **kw):
      super().__init__(ctx, n if end == "fail" else None, shown)
      self.kw, self.started = kw, False
      made.append(self)
      self.turns = Rigs.turns
    def start(self): self.started = True
    def read(self, frames):
      ctx.check(self.started, "a device is started before it is read")
      return memoryview(self.take(bytes([len(self.blocks) + 1]) * (frames * self.kw["channels"] * SIZES[fmt]))), False
  Rigs = SimpleNamespace(turns=None)
  ctx.stub(audioinput, "sounddevice", SimpleNamespace(RawInputStream=Mic))
  index = ctx.choice("device", 3) - 1
  cfg = audioinput.AudioInputConfig.model_construct(sample_format=fmt, channels=channels, rate=rate, device_index=index, buffer_size=size, out_topic=OUT)
  r = media_rig(ctx, audioinput, lambda c: audioinput.AudioInputTask(c, cfg))
  Rigs.turns = r.turns
  for _ in range(10):
    if made: break
    r.loop.advance(0.01)
  ctx.check(len(made) == 1, "one device is opened", len(made))
  mic = made[0]
  ctx.check(mic.kw["samplerate"] is rate or mic.kw["samplerate"] == rate, "a device is opened as configured")
  ctx.check((mic.kw["channels"], mic.kw["dtype"], mic.kw["device"]) == (channels, TYPES[fmt], None if index == -1 else index), "a device is opened as configured", mic.kw)
  got = finish(ctx, r, mic, n, end)
  last = None
  for k, m in enumerate(got):
    ctx.check(m["data"] == mic.blocks[k] and len(m["data"]) == size * channels * SIZES[fmt], "blocks are sent unchanged and in order", (k, m["data"]))
    ctx.check(m["timestamp"] >= shown[k], "no block is stamped before its time")
    if last is not None:      # its length in milliseconds, cut
      d = m["timestamp"] - last
      ctx.check((d + 1) * rate > size * 1000, "blocks do not overlap", (last, m["timestamp"]))
      ctx.check(ctx.Or(m["timestamp"] == shown[k], d * rate <= size * 1000), "a block is stamped with the clock, or with the end of the one before it", (last, m["timestamp"], shown[k]))
    else: ctx.check(m["timestamp"] == shown[0], "a block is stamped with the clock, or with the end of the one before it")
    last = m["timestamp"]


# ---------------------------------------------------------------- cameras
@harness("C48", "camera", shards=lambda tier: [dict(fmt=f, end=e, n=3 if tier == "quick" else 4) for f in ("rgb24", "bgra", "gray", "bgr24") for e in ("stop", "fail", "none")], must=["pictures do not overlap"], truediv="real", model_patch=True)
def c48_camera(ctx, fmt, end, n):
  if end == "none" : n = 0
  rate = Fraction([1, 24, 25, 30, 60, 1000][ctx.choice("rate", 6)])      # exact, so that the times are
  sizes = [(2, 2), (4, 2), (1, 3)]
  size = sizes[ctx.choice("size", 3)]
  native = size if ctx.flag("native") else (3, 3)
  made, shown = [], clock(ctx, videoinput)
  class Camera(Device):
    def __init__(self, i):
      super().__init__(ctx, None, shown)
      self.i = i
      made.append(self)
      self.turns = Rigs.turns
    def set(self, what, v): ctx.check(what == cv2.CAP_PROP_FPS and v == rate, "a device is opened as configured", (what, v))
    def isOpened(self): return end != "none"
    def read(self):
      if end == "fail" and len(self.blocks) == n: return False, None
      w, h = native
      return True, self.take(np.array([[[10 * x + 3 * len(self.blocks), 20 + 10 * y, 100 + x + y] for x in range(w)] for y in range(h)], np.uint8))
    def release(self): self.close()
  Rigs = SimpleNamespace(turns=None)
  ctx.stub(videoinput, "cv2", SimpleNamespace(VideoCapture=Camera, CAP_PROP_FPS=cv2.CAP_PROP_FPS, resize=cv2.resize, cvtColor=cv2.cvtColor))
  cfg = videoinput.VideoInputConfig.model_construct(width=size[0], height=size[1], rate=rate, pixel_format=fmt, camera_id=2, out_topic=OUT)
  r = media_rig(ctx, videoinput, lambda c: videoinput.VideoInputTask(c, cfg))
  Rigs.turns = r.turns
  for _ in range(10):
    if made: break
    r.loop.advance(0.01)
  ctx.check(len(made) == 1 and made[0].i == 2, "one device is opened", made)
  cam = made[0]
  for _ in range(40):
    if len(cam.blocks) >= n or r.job.done(): break
    r.loop.advance(0.02)
  if end == "stop": r.job.cancel()
  r.loop.advance(0.2)
  ctx.check(r.job.done(), "a source ends when it is stopped, or its device fails")
  ctx.check(not cam.open, "the device of a source that ended is closed")
  if end != "stop": ctx.check(r.job.exception() is not None, "the failure of a device is reported", r.job)
  got = [d for k, d in r.new() if k == "data"]
  ctx.check(min(n, len(cam.blocks)) <= len(got) <= len(cam.blocks), "every block is sent once", (len(got), len(cam.blocks)))
  last = None
  for k, m in enumerate(got):
    bpp = {"gray": 1, "bgra": 4}.get(fmt, 3)
    ctx.check(len(m["data"]) == size[0] * size[1] * bpp, "pictures have the configured size", len(m["data"]))
    if native == size:
      b, g, r_ = (cam.blocks[k][:, :, i].reshape(-1).astype(int) for i in range(3))
      px = np.frombuffer(m["data"], np.uint8).reshape(-1, bpp).astype(int)
      if fmt == "gray": ok = abs(px[:, 0] - (0.299 * r_ + 0.587 * g + 0.114 * b)).max() <= 1
      else: ok = all((px[:, i] == c).all() for i, c in enumerate((r_, g, b) if fmt == "rgb24" else (b, g, r_))) and (bpp == 3 or (px[:, 3] == 255).all())
      ctx.check(ok, "pictures are sent unchanged and in order", (k, m["data"]))
    ctx.check(m["timestamp"] >= shown[k], "no picture is stamped before its time")
    if last is None: ctx.check(m["timestamp"] == shown[0], "a picture is stamped with the clock, or with the end of the one before it")
    else:
      d = m["timestamp"] - last
      ctx.check((d + 1) * rate > 1000, "pictures do not overlap", (last, m["timestamp"]))
      ctx.check(ctx.Or(m["timestamp"] == shown[k], d * rate <= 1000), "a picture is stamped with the clock, or with the end of the one before it", (last, m["timestamp"], shown[k]))
    last = m["timestamp"]
  ctx.reach("pictures do not overlap")


# ---------------------------------------------------------------- screens
W, H = 8, 6


class Screen(mss.base.MSSBase):
  """a screen whose pixels tell where they are, and which picture they are of"""
  def __init__(self, **kw): super().__init__(**{k: v for k, v in kw.items() if v is not None})
  def _monitors_impl(self): self._monitors.append({"left": 0, "top": 0, "width": W, "height": H})
  def _cursor_impl(self): return None
  def _grab_impl(self, m):
    d = self.device
    raw = bytearray(b for y in range(m["top"], m["top"] + m["height"]) for x in range(m["left"], m["left"] + m["width"]) for b in (x, y, len(d.blocks), 77))
    d.take(bytes(raw))
    return self.cls_image(raw, m)
  def close(self): self.device.close()


REGIONS = [(0, 0, 4, 3), (0, 0, W, H), (1, 0, 3, 2), (0, 1, 2, 3), (2, 1, 4, 3), (4, 3, 4, 3), (3, 2, 1, 1), (5, 0, 3, 6), (0, 5, 8, 1), (2, 2, 2, 2), (6, 4, 2, 2), (1, 1, 7, 5), (4, 4, 1, 2), (7, 5, 1, 1)]


@harness("C48", "screen", shards=lambda tier: [dict(n=3 if tier == "quick" else 4, alpha=a, end=e) for a in (0, 255, 9) for e in ("stop", "fail")], must=["a picture is taken when it is due, or at once when it is late", "pictures show the configured region"], truediv="real", model_patch=True)
def c48_screen(ctx, n, alpha, end):
  left, top, w, h = REGIONS[ctx.choice("region", len(REGIONS))]
  rate = [1, 10, 25, 30, 60][ctx.choice("rate", 5)] if (left, top) == (2, 1) else 30
  stamps = clock(ctx, screencapture)
  device = Device(ctx, n if end == "fail" else None, stamps)
  Screen.device = device
  delays, state = [], {"now": ctx.real("start", 10 ** 3, 10 ** 9)}
  def passes(what):
    delays.append(d := ctx.real(f"{what}{len(delays)}", 0, 1))
    state["now"] = state["now"] + d
  def sleep(d):
    ctx.check(d >= 0, "no negative sleep")
    state["now"] = state["now"] + d
    state["slept"] = state["now"]
    passes("over")
  taken, opened = [], []
  def make(**kw):
    opened.append(kw)
    return Screen(**{k: v for k, v in kw.items() if k == "with_cursor"})
  take = device.take
  def grab(block):
    taken.append((state["now"], state.get("slept")))
    state["slept"] = None
    r_ = take(block)
    passes("grabbing")
    return r_
  device.take = grab
  reads = []
  def read():
    reads.append(state["now"])
    return state["now"]
  ctx.stub(screencapture, "time", SimpleNamespace(time=read, sleep=sleep))
  ctx.stub(screencapture, "mss", SimpleNamespace(mss=make))
  cursor = ctx.flag("cursor")
  cfg = screencapture.ScreenCaptureConfig.model_construct(left_offset=left, top_offset=top, width=w, height=h, rate=rate, set_alpha=alpha, display="", with_cursor=cursor, out_topic=OUT)
  r = media_rig(ctx, screencapture, lambda c: screencapture.ScreenCaptureTask(c, cfg))
  device.turns = r.turns
  got = finish(ctx, r, device, n, end)
  ctx.check(len(opened) == 1 and opened[0].get("with_cursor") == cursor, "a device is opened as configured", opened)
  for k, m in enumerate(got):
    want = b"".join(bytes([x, y, k, alpha or 77]) for y in range(top, top + h) for x in range(left, left + w))
    ctx.check(bytes(m["data"]) == want, "pictures show the configured region", (k, bytes(m["data"]), want))
    ctx.check(m["timestamp"] == stamps[k], "a picture is stamped with the clock")
  due0 = reads[0]
  for k, (at, slept) in enumerate(taken):
    due = due0 + (k + 1) * (1.0 / rate)
    ctx.check(at >= due - 1e-6, "no picture is taken before it is due", (at, due))
    if slept is not None: ctx.check(slept <= due + 1e-6, "a picture is taken when it is due, or at once when it is late", (slept, due))


# ---------------------------------------------------------------- images
@harness("C48", "image", must=["an image is sent at once and then at every interval"], truediv="real", model_patch=True)
def c48_image(ctx):
  every = [0.5, 1, 2.5][ctx.choice("interval", 3)]
  mode = ["rgb24", "rgba", "gray"][ctx.choice("format", 3)]
  calls = []
  class Img:
    def convert(self, m): calls.append(("convert", m)); return self
    def resize(self, s): calls.append(("resize", tuple(s))); return self
    def tobytes(self): return b"picture"
  ctx.stub(imagerenderer, "Image", SimpleNamespace(open=lambda p: calls.append(("open", p)) or Img()))
  async def to_thread(f, *a): return f(*a)
  ctx.stub(imagerenderer, "asyncio", SimpleNamespace(**{**{k: getattr(asyncio, k) for k in ("sleep",)}, "to_thread": to_thread}))
  loop = ctx.loop()
  off = ctx.int("clock", 10 ** 6, 10 ** 12)
  ctx.stub(imagerenderer, "get_timestamp_ms", lambda: off + int(loop.time() * 1000))
  cfg = imagerenderer.ImageRendererConfig.model_construct(source="file.png", pixel_format=mode, width=4, height=2, repeat_interval=every, out_topic=OUT)
  t_start = loop.time()
  r = Rig(ctx, lambda c: imagerenderer.ImageRendererTask(c, cfg))
  n = 0
  for k in range(4):
    if k:
      r.loop.advance(t_start + k * every - 0.01 - r.loop.time())
      ctx.check(not r.new(), "an image is sent at once and then at every interval")
      r.loop.advance(0.02)
    got = [d for kind, d in r.new() if kind == "data"]
    ctx.check(len(got) == 1, "an image is sent at once and then at every interval", (k, got))
    ctx.check(got[0]["data"] == b"picture", "an image is sent unchanged")
    t = got[0]["timestamp"] - off - int(t_start * 1000)
    ctx.check(ctx.And(t >= int(k * every * 1000) - 1, t <= int(k * every * 1000) + 25 * (k + 1)), "an image is stamped with the clock", t)
  modes = {"rgb24": "RGB", "rgba": "RGBA", "gray": "L"}
  ctx.check(calls == [("open", "file.png"), ("convert", modes[mode]), ("resize", (4, 2))], "an image has the configured format and size", calls)


# ---------------------------------------------------------------- texts
@harness("C48", "texts", shards=lambda tier: [dict(n=3 if tier == "quick" else 4, mode=m, slow=s) for m, s in (("rgba", False), ("gray", True))], must=["every text is drawn once, in order", "a pause of the texts is passed on"], model_patch=True)
def c48_texts(ctx, n, mode, slow):
  class Img:
    def __init__(self, m, size): self.m, self.size, self.drawn = m, tuple(size), []
    def tobytes(self): return repr((self.m, self.size, self.drawn)).encode()
  class Draw:
    def __init__(self, img): self.img = img
    def text(self, at, value, font, fill): self.img.drawn.append((tuple(at), value, font, fill))
  ctx.stub(textrenderer, "Image", SimpleNamespace(new=Img))
  ctx.stub(textrenderer, "ImageDraw", SimpleNamespace(Draw=Draw))
  ctx.stub(textrenderer, "ImageFont", SimpleNamespace(truetype=lambda f, size: f"{f}-{size}"))
  cfg = textrenderer.TextRendererConfig.model_construct(pixel_format=mode, width=4, height=2, x=1, y=0, font_size=12, font="A.ttf", font_color="#ff0000", in_topic=1, out_topic=OUT)
  r = media_rig(ctx, textrenderer, lambda c: textrenderer.TextRendererTask(c, cfg))
  r.loop.advance(0.1)
  r.new()
  want, pauses = [], []
  for k in range(n):
    op = ctx.choice(f"op{k}", 3)
    if op == 0:
      t = ctx.int(f"t{k}", 0, 2 ** 63)
      r.data(1, {"timestamp": t, "value": f"text {k}"})
      want.append((t, f"text {k}"))
    elif op == 1: r.data(1, [{"timestamp": 1}, {"value": "x"}, 17, {"timestamp": 1, "value": [2]}][ctx.choice(f"bad{k}", 4)])
    else:
      p = ctx.flag(f"paused{k}")
      r.pause(1, p)
      if (pauses[-1] if pauses else False) != p: pauses.append(p)
    if not slow: r.loop.advance(0.1)
    ctx.check(r.alive(), "the task keeps running", r.job)
  r.loop.advance(2)
  out = r.new()
  got = [d for kind, d in out if kind == "data"]
  ctx.check(len(got) == len(want), "every text is drawn once, in order", (got, want))
  for m, (t, text) in zip(got, want):
    ctx.check(m["timestamp"] == t, "a text keeps its timestamp", m)
    ctx.check(m["data"] == repr(({"rgba": "RGBA", "gray": "L"}[mode], (4, 2), [((1, 0), text, "A.ttf-12", "#ff0000")])).encode(), "every text is drawn once, in order", m)
  ctx.check([p for kind, p in out if kind == "pause"] == pauses, "a pause of the texts is passed on", (out, pauses))
  r.job.cancel()
  r.loop.advance(1)
  ctx.check(r.job.done(), "a source ends when it is stopped, or its device fails")
