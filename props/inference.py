"""Tasks around models: what goes into a model, and what comes of its answers.

The models and their libraries are not installed: they are replaced by ones whose answers are known.
"""
import sys, types
from types import SimpleNamespace
import numpy as np


class _Anything(types.ModuleType):
  """a library whose names all exist"""
  __path__ = []
  def __getattr__(self, n):
    if n.startswith("__"): raise AttributeError(n)
    v = type(n, (), {})
    setattr(self, n, v)
    return v


for _n in ("torch", "llama_cpp", "speechbrain", "speechbrain.inference", "speechbrain.inference.ASR", "speechbrain.inference.TTS", "speechbrain.inference.vocoders", "speechbrain.inference.enhancement",
  "speechbrain.utils", "speechbrain.utils.dynamic_chunk_training"):
  if _n not in sys.modules: sys.modules[_n] = _Anything(_n)

import streamtasks.client, streamtasks.utils
from streamtasks.system.tasks.inference import asrspeechrecognition, fastspeech2tts, llamacppchat, smespeechenhancement, waveformspeechenhancement
from symx.harness import harness, meta
from props.tasks import OUT
from props.timing import media_rig

meta("C49", bounds="enhancement: 2 (thorough 3) messages of 8, 24 and 40 samples and a last one, pauses, silence and data of wrong sizes, buffers of 16 samples, models that change nothing or the volume; recognition: 3 (thorough 4) messages of 160, 320 and 800 samples, chunks of 320; speech: 2 (thorough 3) texts of up to 3 sentences of every length up to a million samples; sentences: every text of up to 5 (thorough 6) letters, spaces, line ends and punctuation, lengths of 1 to 4; chat: 3 (thorough 4) texts, every size of texts and answers, every context length; every timestamp",
     outside="the models and their libraries; texts that fit no context by themselves, which end the chat with an error")


class Tensor:
  def __init__(self, a): self.a = np.asarray(a)
  def flatten(self): return Tensor(self.a.flatten())
  def abs(self): return Tensor(np.abs(self.a))
  def mean(self): return Tensor(self.a.mean())
  def max(self): return Tensor(self.a.max())
  def item(self): return self.a.item()
  def cpu(self): return self
  def detach(self): return self
  def numpy(self): return self.a
  def __mul__(self, x): return Tensor(self.a * np.float32(x))
  __rmul__ = __mul__
  def __truediv__(self, x): return Tensor(self.a / np.float32(x))
  @property
  def shape(self): return self.a.shape


TORCH = SimpleNamespace(from_numpy=Tensor, tensor=lambda x: Tensor(x), Tensor=Tensor)
WRONG = [b"\1", b"\1\2\3", b"\1\2\3\4\5"]


def tell(ctx, r, op, k, pauses, wrong=None):
  """malformed messages and pauses"""
  if op == "pause":
    p = ctx.flag(f"paused{k}")
    r.pause(1, p)
    if (pauses[-1] if pauses else False) != p: pauses.append(p)
  elif op == "bad": r.data(1, [{"timestamp": 1}, 17, {"data": b"", "value": "x"}, {"timestamp": "soon", "data": b"", "value": "x"}][ctx.choice(f"bad{k}", 4)])
  else: r.data(1, {"timestamp": 5, "data": wrong[ctx.choice(f"wrong{k}", len(wrong))]})


def end(ctx, r, pauses, out):
  ctx.check([p for kind, p in out if kind == "pause"] == pauses, "a pause of the input is passed on", (out, pauses))
  ctx.check(r.alive(), "the task keeps running", r.job)
  r.job.cancel()
  r.loop.advance(1)
  ctx.check(r.job.done(), "the task ends when it is stopped")


# ---------------------------------------------------------------- enhancement
ENHANCERS = {"spectral": (smespeechenhancement, "SMESpeechEnhancement", "SpectralMaskEnhancement"), "waveform": (waveformspeechenhancement, "WaveformSpeechEnhancement", "WaveformEnhancement")}


@harness("C49", "enhancement", shards=lambda tier: [dict(kind=k, gain=g, n=2 if tier == "quick" else 3) for k in ENHANCERS for g in (1.0, 0.25)], must=["a model that changes nothing but the volume changes nothing", "blocks follow each other"], model_patch=True)
def c49_enhancement(ctx, kind, gain, n):
  module, name, model = ENHANCERS[kind]
  seen = []
  class Model:
    @classmethod
    def from_hparams(cls, source, savedir=None, run_opts=None): return cls()
    def enhance_batch(self, samples, lengths):
      seen.append(samples.shape)
      return Tensor(samples.a * np.float32(gain))
  ctx.stub(module, model, Model)
  ctx.stub(module, "torch", TORCH)
  ctx.stub(module, "get_model_data_dir", lambda s: "/none")
  Config = getattr(module, name + "Config")
  r = media_rig(ctx, module, lambda c: getattr(module, name + "Task")(c, Config(buffer_duration=1, in_topic=1, out_topic=OUT)))
  r.loop.advance(0.1)
  r.new()
  ctx.check(seen == [], "a model is asked only with samples")
  t0, sent, pauses, at = ctx.int("t0", 0, 10 ** 12), [], [], 0
  for k in range(n):
    what = ("data", "silence", "pause", "bad", "wrong")[ctx.choice(f"op{k}", 5)]
    if what in ("data", "silence"):
      size = [8, 24, 40][ctx.choice(f"size{k}", 3)]
      block = [0.0] * size if what == "silence" else [((7 * (at + i)) % 11 - 5) / 16 for i in range(size)]
      r.data(1, {"timestamp": t0 + at * 1000 // 16000, "data": np.array(block, np.float32).tobytes()})
      at += size
      sent += block
    else: tell(ctx, r, what, k, pauses, WRONG)
    r.loop.advance(0.1)
    ctx.check(r.alive(), "the task keeps running", (what, r.job))
  # a last block, so that all of the ones before it are out
  block = [0.5] * 48
  r.data(1, {"timestamp": t0 + at * 1000 // 16000, "data": np.array(block, np.float32).tobytes()})
  sent += block
  r.loop.advance(1)
  out = r.new()
  got = [d for kind_, d in out if kind_ == "data"]
  ctx.check(len(got) == max(0, (len(sent) - 24) // 16 + 1) and all(s == (1, 24) for s in seen), "blocks are processed as soon as they are complete", (len(got), len(sent), seen))
  for i, m in enumerate(got):
    x = np.frombuffer(m["data"], np.float32)
    want = np.array(sent[4 + 16 * i:4 + 16 * (i + 1)], np.float32)
    ctx.check(len(x) == 16, "blocks follow each other", len(x))
    ctx.check(bool(np.all(np.abs(x - want) <= 1e-5)), "a model that changes nothing but the volume changes nothing", (i, x.tolist(), want.tolist()))
    d = m["timestamp"] - t0 - (4 + 16 * i) * 1000 // 16000
    ctx.check(ctx.And(d >= -1, d <= 1), "a block has the time of its samples", (i, m["timestamp"]))
  end(ctx, r, pauses, out)


# ---------------------------------------------------------------- recognition
@harness("C49", "recognition", shards=lambda tier: [dict(n=3 if tier == "quick" else 4)], must=["what is recognized is sent once, in order", "the samples are recognized in order"], model_patch=True)
def c49_recognition(ctx, n):
  module, chunks, streams = asrspeechrecognition, [], []
  class Model:
    @classmethod
    def from_hparams(cls, source, savedir=None, run_opts=None): return cls()
    def make_streaming_context(self, cfg):
      streams.append(cfg)
      return SimpleNamespace(cfg=cfg)
    def transcribe_chunk(self, context, samples):
      ctx.check(context.cfg is streams[0] and len(streams) == 1, "one stream is recognized")
      chunks.append(samples.a.flatten().tolist())
      return ["" if len(chunks) % 3 == 2 else f"WORD {len(chunks)}"]
  ctx.stub(module, "StreamingASR", Model)
  ctx.stub(module, "torch", TORCH)
  ctx.stub(module, "DynChunkTrainConfig", lambda chunk_size, left_context_size: SimpleNamespace(chunk_size=chunk_size, left=left_context_size))
  ctx.stub(module, "get_model_data_dir", lambda s: "/none")
  r = media_rig(ctx, module, lambda c: module.ASRSpeechRecognitionTask(c, module.ASRSpeechRecognitionConfig(chunk_size=1, left_context_size=2, in_topic=1, out_topic=OUT)))
  r.loop.advance(0.1)
  r.new()
  t0, sent, pauses = ctx.int("t0", 0, 10 ** 12), [], []
  for k in range(n):
    what = ("data", "pause", "bad", "wrong")[ctx.choice(f"op{k}", 4)]
    if what == "data":
      size = [160, 320, 800][ctx.choice(f"size{k}", 3)]
      block = [float(len(sent) + i) for i in range(size)]
      r.data(1, {"timestamp": t0 + len(sent) // 16, "data": np.array(block, np.float32).tobytes()})
      sent += block
    else: tell(ctx, r, what, k, pauses, WRONG)
    r.loop.advance(0.1)
    ctx.check(r.alive(), "the task keeps running", (what, r.job))
  r.loop.advance(1)
  out = r.new()
  got = [d for kind, d in out if kind == "data"]
  ctx.check(chunks == [sent[i * 320:(i + 1) * 320] for i in range(len(sent) // 320)], "the samples are recognized in order", [c[0] for c in chunks])
  words = [(i, f"word {i + 1}") for i in range(len(chunks)) if (i + 1) % 3 != 2]
  ctx.check([m["value"] for m in got] == [w for _, w in words], "what is recognized is sent once, in order", (got, words))
  for m, (i, w) in zip(got, words): ctx.check(m["timestamp"] == t0 + 20 * i, "a text has the time of its samples", (m, i))
  if streams: ctx.check((streams[0].chunk_size, streams[0].left) == (1, 2), "the model is used as configured")
  end(ctx, r, pauses, out)


@harness("C49", "missing", must=["a model that cannot be loaded is reported"], model_patch=True)
def c49_missing(ctx):
  """models that fail to load, or are missing"""
  none = ctx.flag("none")
  class Model:
    @classmethod
    def from_hparams(cls, *a, **kw):
      if none: return None
      raise OSError("no model")
  which = ctx.choice("task", 4)
  if which < 2:
    module, name, model = list(ENHANCERS.values())[which]
    ctx.stub(module, model, Model)
    make = lambda c: getattr(module, name + "Task")(c, getattr(module, name + "Config")(in_topic=1, out_topic=OUT))
  elif which == 2:
    module = asrspeechrecognition
    ctx.stub(module, "StreamingASR", Model)
    make = lambda c: module.ASRSpeechRecognitionTask(c, module.ASRSpeechRecognitionConfig(in_topic=1, out_topic=OUT))
  else:
    module = fastspeech2tts
    class Other:
      @classmethod
      def from_hparams(cls, *a, **kw): return cls()
    first = ctx.flag("first")
    ctx.stub(module, "HIFIGAN", Model if first else Other)
    ctx.stub(module, "FastSpeech2", Other if first else Model)
    make = lambda c: module.FastSpeech2TTSTask(c, module.FastSpeech2TTSConfig(in_topic=1, out_topic=OUT))
  ctx.stub(module, "get_model_data_dir", lambda s: "/none")
  r = media_rig(ctx, module, make)
  r.loop.advance(0.5)
  ctx.check(r.job.done() and isinstance(r.job.exception(), FileNotFoundError if none else OSError), "a model that cannot be loaded is reported", r.job)


# ---------------------------------------------------------------- speech
class Sound:
  """samples, as many as are said"""
  def __init__(self, tag, size): self.tag, self.size, self.dtype = tag, size, np.float32
  def __len__(self): return self.size
  shape = property(lambda self: (self.size,))
  def flatten(self, *a): return self
  cpu = numpy = detach = squeeze = flatten
  def tobytes(self, order="C"): return bytes([self.tag])


@harness("C49", "speech", shards=lambda tier: [dict(n=2 if tier == "quick" else 3)], must=["the sentences of a text follow each other", "every sentence is spoken once, in order"], model_patch=True)
def c49_speech(ctx, n):
  module, asked = fastspeech2tts, []
  class Speech:
    @classmethod
    def from_hparams(cls, source=None, savedir=None, run_opts=None): return cls()
    def encode_text(self, texts, pace, pitch_rate, energy_rate):
      ctx.check((pace, pitch_rate) == (1.5, 0.5), "the model is used as configured", (pace, pitch_rate))
      return (texts[0], None, None, None)
  class Voice:
    @classmethod
    def from_hparams(cls, source=None, savedir=None, run_opts=None): return cls()
    def decode_batch(self, text):
      if "!" in text: raise RuntimeError("too short")
      asked.append((text, ctx.int(f"length{len(asked)}", 1, 10 ** 6)))
      return Sound(len(asked), asked[-1][1])
  ctx.stub(module, "FastSpeech2", Speech)
  ctx.stub(module, "HIFIGAN", Voice)
  ctx.stub(module, "get_model_data_dir", lambda s: "/none")
  r = media_rig(ctx, module, lambda c: module.FastSpeech2TTSTask(c, module.FastSpeech2TTSConfig(pace=1.5, pitch=0.5, in_topic=1, out_topic=OUT)))
  r.loop.advance(0.1)
  r.new()
  want, pauses = [], []
  for k in range(n):
    what = ("data", "pause", "bad")[ctx.choice(f"op{k}", 3)]
    if what == "data":
      t = ctx.int(f"t{k}", 0, 10 ** 12)
      texts = [["one"], ["first", "second"], ["a b", "c", "d"], ["can!not"]][ctx.choice(f"text{k}", 4)]
      r.data(1, {"timestamp": t, "value": ". ".join(texts) + "."})
      want += [(t, x, i) for i, x in enumerate(texts) if "!" not in x]      # one the model cannot speak
    else: tell(ctx, r, what, k, pauses)
    if ctx.flag(f"wait{k}"): r.loop.advance(0.1)
    ctx.check(r.alive(), "the task keeps running", (what, r.job))
  r.loop.advance(2)
  out = r.new()
  got = [d for kind, d in out if kind == "data"]
  ctx.check([a for a, _ in asked] == [w for _, w, _ in want] and len(got) == len(want), "every sentence is spoken once, in order", (asked, want, len(got)))
  before = 0
  for j, (m, (t, w, i)) in enumerate(zip(got, want)):
    ctx.check(m["data"] == bytes([j + 1]), "every sentence is spoken once, in order", j)
    before = 0 if i == 0 else before + asked[j - 1][1]
    d = m["timestamp"] - t - before * 1000 // 22050
    ctx.check(ctx.And(d >= -i, d <= i), "the sentences of a text follow each other", (m["timestamp"], before))
  end(ctx, r, pauses, out)


@harness("C49", "sentences", shards=lambda tier: [dict(n=n, most=m) for n in range(1, 6 if tier == "quick" else 7) for m in (1, 2, 4)], must=["no word is lost", "no sentence is longer than allowed"], strings=True)
def c49_sentences(ctx, n, most):
  text = ctx.str("text", n, alphabet="ab .\n")
  got = fastspeech2tts.split_sentences(text, most)
  other = lambda c: not any(c == x for x in " .\n")
  letters = [c for c in text if other(c)]
  said = [c for s in got for c in s if other(c)]
  ctx.check(len(said) == len(letters) and ctx.And(*[a == b for a, b in zip(said, letters)]), "no word is lost", (got, text))
  for s in got:
    ctx.check(0 < len(s) <= most, "no sentence is longer than allowed", s)
    ctx.check(s.strip() == s, "no sentence begins or ends with a space", s)
    ctx.check(all(s.find(x) < 0 for x in (". ", ".\n")), "a sentence ends where it ends", s)


# ---------------------------------------------------------------- chat
@harness("C49", "chat", shards=lambda tier: [dict(n=3 if tier == "quick" else 4, system=s) for s in (False, True)], must=["every text is answered once, in order", "only what does not fit is forgotten, the oldest first"], model_patch=True)
def c49_chat(ctx, n, system):
  module, asked, sizes = llamacppchat, [], {}
  room = ctx.int("context", 10, 1000)
  def size(content):
    if content not in sizes: sizes[content] = ctx.int(f"size of {content}", 1, 100)
    return sizes[content]
  class Model:
    def __init__(self, model_path, n_gpu_layers=0, verbose=False, n_ctx=0):
      ctx.check(n_ctx is room and model_path == "m" and n_gpu_layers == 0, "the model is used as configured", (model_path, n_gpu_layers))
    def n_ctx(self): return room
    def create_chat_completion(self, messages, max_tokens=None):
      ctx.check(max_tokens is None, "the model is used as configured", max_tokens)
      used = sum(size(m["content"]) for m in messages)
      fits = bool(used < room)
      asked.append(([m["content"] for m in messages], [m["role"] for m in messages], fits))
      if not fits: raise ValueError("too long")
      k = messages[-1]["content"]
      answer = used + size(f"re {k}")
      cut = bool(answer >= room)
      asked[-1] = (*asked[-1][:2], "cut" if cut else True)
      return {"usage": {"total_tokens": room if cut else answer}, "choices": [{"message": {"role": "assistant", "content": f"re {k}"}}]}
  ctx.stub(module, "Llama", Model)
  cfg = module.LLamaCppChatConfig.model_construct(src_model="m", use_gpu=False, context_length=room, max_tokens=0, system_message="sys" if system else "", in_topic=1, out_topic=OUT)
  r = media_rig(ctx, module, lambda c: module.LLamaCppChatTask(c, cfg))
  r.loop.advance(0.1)
  r.new()
  want, pauses = [], []
  for k in range(n):
    what = ("data", "pause", "bad")[ctx.choice(f"op{k}", 3)] if k < n - 1 else "data"
    if what == "data":
      t = ctx.int(f"t{k}", 0, 10 ** 12)
      ctx.assume(size(f"text {k}") + (size("sys") if system else 0) < room)      # fits by itself
      r.data(1, {"timestamp": t, "value": f"text {k}"})
      want.append((t, f"text {k}"))
    else: tell(ctx, r, what, k, pauses)
    r.loop.advance(0.1)
    ctx.check(r.alive(), "the task keeps running", (what, r.job))
  r.loop.advance(1)
  out = r.new()
  got = [d for kind, d in out if kind == "data"]
  ctx.check([m["value"] for m in got] == [f"re {w}" for _, w in want], "every text is answered once, in order", (got, want))
  for m, (t, w) in zip(got, want): ctx.check(m["timestamp"] == t, "an answer has the time of its text", m)
  history, forgotten = [x for _, w in want for x in (w, f"re {w}")], 0
  for contents, roles, fits in asked:
    if system: ctx.check(contents[0] == "sys" and roles[0] == "system", "a model is told its system message first", contents)
    c, ro = (contents[1:], roles[1:]) if system else (contents, roles)
    upto = history.index(c[-1]) + 1
    ctx.check(c == history[forgotten:upto], "only what does not fit is forgotten, the oldest first", (c, history, forgotten))
    ctx.check(ro == ["user" if history.index(x) % 2 == 0 else "assistant" for x in c], "a model is told who said what", (c, ro))
    if fits is not True and len(c) > 1: forgotten += 1
  end(ctx, r, pauses, out)
