"""Controls and displays with a page of their own."""
import asyncio
import json
import pydantic
import streamtasks.client, streamtasks.utils
from streamtasks import asgi, asgiserver
from streamtasks.net.utils import endpoint_to_str
from streamtasks.services.constants import NetworkPorts
from streamtasks.system.task import MetadataFields
from streamtasks.system.tasks import pulsegenerator
from streamtasks.system.tasks.ui import controlbase, sliderui, switchui, radiobuttonsui, textinput, textdisplay, valuedisplaybar, statusdisplay
from symx.harness import harness, meta
from symx.modelpatch import stub_json
from props.tasks import OUT
from props.web import Net


# ---------------------------------------------------------------- C44 controls and displays
meta("C44", bounds="slider, switch, radio buttons and text input, with and without repetition: every history of 3 (thorough 4) of a valid value (symbolic: any finite number, truth value, topic, text of up to 2 characters), an invalid one, waiting, a viewer that comes and one that leaves; a second and a third change at every step (0..99) of the first; a viewer that leaves at every step (0..79) of a change or of its own arrival; value bar and status display: every history of 4 (5) valid (any finite number) and malformed messages; text display: 3 (4) messages of up to 2 characters for every combination of appending, separator and maximum length -1, 0, 1 and 3; pulse generator: four intervals, both types, 5 pulses",
     outside="the pages themselves (JavaScript), values that are no finite numbers, viewers that stop reading")
IN = 7


class UI:
  def __init__(self, ctx, make):
    self.ctx, self.n = ctx, Net(ctx, raw=False)
    self.json = stub_json(ctx, asgiserver, controlbase)
    n, self.loop = self.n, self.n.loop
    self.link = n.link()
    self.out = []
    send = self.link.send
    async def record(m):
      if isinstance(m, n.msgs.TopicDataMessage): self.out.append((self.loop.time(), m.topic, m.data.data))
      await send(m)
    self.link.send = record
    self.client = self.loop.call(streamtasks.client.Client, self.link)
    self.probe = n.client()
    self.task = self.loop.call(make, self.client)
    md = self.loop.run_until_complete(self.task.setup())
    self.job = self.loop.spawn(self.task.run())
    self.start = self.loop.time()
    from streamtasks.net.utils import str_to_endpoint
    self.app = self.loop.call(asgi.ASGIProxyApp, self.probe, str_to_endpoint(md[MetadataFields.ASGISERVER]))
    self.loop.advance(0.1)
    self.viewers = []
  def scope(self, typ, path, method=None):
    s = {"type": typ, "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "",
         "headers": [(b"content-type", b"application/json")], "client": ("a", 1), "server": ("b", 2)}
    return {**s, "method": method} if method else s
  def request(self, method, path, body=None):
    """a job that ends with (status, body)"""
    out, events = [], [{"type": "http.request", "body": b"" if body is None else self.json.dumps(body).encode(), "more_body": False}]
    async def receive():
      if events: return events.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    async def f():
      await asyncio.wait_for(self.app(self.scope("http", path, method), receive, send), 30)
      return [e["status"] for e in out if e["type"] == "http.response.start"], b"".join(e.get("body", b"") for e in out if e["type"] == "http.response.body")
    return self.loop.spawn(f())
  def http(self, *a):
    job = self.request(*a)
    self.loop.advance(0.05)
    self.ctx.check(job.done() and job.exception() is None, "requests are answered", job)
    return job.result()
  def get(self):
    status, body = self.http("GET", "/value")
    self.ctx.check(status == [200], "the value can be read", status)
    return self.json.loads(body)
  def view(self):
    """a viewer: what it is sent, and how it leaves"""
    got, events = [], asyncio.Queue()
    events.put_nowait({"type": "websocket.connect"})
    async def send(e):
      if e["type"] == "websocket.send": got.append(self.json.loads(e["text"]))
      elif e["type"] != "websocket.accept": got.append(e["type"])
    job = self.loop.spawn(self.app(self.scope("websocket", "/value"), events.get, send))
    v = type("Viewer", (), {})()
    v.got, v.n, v.job, v.here = got, 0, job, True
    def leave():
      v.here = False
      events.put_nowait({"type": "websocket.disconnect", "code": 1000})
    v.leave = leave
    self.viewers.append(v)
    return v
  def sent(self):
    r, self.out = self.out, []
    return r


def number(ctx, name):
  v = ctx.float(name)
  ctx.assume(v == v)
  ctx.assume(ctx.And(v < 1e300, v > -1e300))
  return v


class Control:
  """one control: values, and what it sends for them"""
  def __init__(self, ctx, kind, repeat):
    self.ctx, self.kind, self.repeat = ctx, kind, repeat
    r = {"repeat_interval": repeat}
    if kind == "slider":
      make = lambda c: sliderui.SliderUITask(c, sliderui.SliderUIConfig(out_topic=OUT, default_value=0.25, **r))
      self.value = {"value": 0.25}
    elif kind == "switch":
      make = lambda c: switchui.SwitchUITask(c, switchui.SwitchUIConfig(out_topic=OUT, default_value=True, **r))
      self.value = {"value": True}
    elif kind == "radio":
      make = lambda c: radiobuttonsui.RadioButtonsUITask(c, radiobuttonsui.RadioButtonsUIConfig(button_tracks=[{"out_topic": OUT + i} for i in range(3)], **r))
      self.value = {"selected_topic": -1}
    else:
      make = lambda c: textinput.TextInputTask(c, textinput.TextInputConfig(out_topic=OUT, **r))
      self.value = {"value": ""}
    self.ui = UI(ctx, make)
    self.last = self.ui.start
  def new(self, k):
    ctx = self.ctx
    if self.kind == "slider": return {"value": number(ctx, f"value{k}")}
    if self.kind == "switch": return {"value": ctx.flag(f"value{k}")}
    if self.kind == "radio": return {"selected_topic": ctx.int(f"value{k}", OUT - 1, OUT + 3)}
    return {"value": ctx.str(f"value{k}", ctx.choice(f"length{k}", 3))}
  def bad(self, k): return ({"value": "bad", "selected_topic": "bad"} if self.kind != "text" else {"value": 5}, {}, 7)[self.ctx.choice(f"bad{k}", 3)]
  def want(self, v):
    """what is sent for a value: [(topic, value)]"""
    if self.kind == "slider": return [(OUT, v["value"])]
    if self.kind == "switch": return [(OUT, 1 if v["value"] else 0)]
    if self.kind == "radio": return [(OUT + i, 1 if v["selected_topic"] == OUT + i else 0) for i in range(3)]
    return [(OUT, v["value"])] if len(v["value"].strip()) > 0 else []
  def expect(self, values, label, times=None):
    """exactly these values were sent since, at these times"""
    ctx, out = self.ctx, self.ui.sent()
    want = [(t, topic, x) for k, v in enumerate(values) for topic, x in self.want(v) for t in [times[k] if times else None]]
    ctx.check(len(out) == len(want), label, (out, want))
    for (at, topic, d), (t, wt, x) in zip(out, want):
      ctx.check(topic == wt and set(d) == {"timestamp", "value"}, label, (out, want))
      ctx.check(ctx.same(d["value"], x), label, (out, want))
      if t is not None: ctx.check(abs(at - t) < 1e-6, label, (out, want))


KINDS = ("slider", "switch", "radio", "text")


def same(ctx, a, b):
  return isinstance(a, dict) and set(a) == set(b) and ctx.And(*[ctx.same(a[k], b[k]) for k in b])


@harness("C44", "controls", shards=lambda tier: [dict(kind=k, repeat=r, n=3 if tier == "quick" else 4, first=f) for k in KINDS for r in (0, 1.5) for f in range(5)], must=["a change is sent once", "the value can be read", "a change is shown to every viewer once"], model_patch=True, strings=True)
def c44(ctx, kind, repeat, n, first):
  c = Control(ctx, kind, repeat)
  ui = c.ui
  c.expect([c.value], "the value is sent at the start", [c.last])
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 5)
    t0 = ui.loop.time()
    if op == 0:
      v = c.new(k)
      status, _ = ui.http("POST", "/value", v)
      ctx.check(status == [200], "a valid value is taken", status)
      c.value, c.last = v, t0
      c.expect([v], "a change is sent once", [t0])
      for w in ui.viewers:
        if w.here:
          ctx.check(len(w.got) == w.n + 1, "a change is shown to every viewer once", (w.got, v))
          ctx.check(same(ctx, w.got[-1], v), "a change is shown to every viewer once", (w.got, v))
        w.n = len(w.got)
    elif op == 1:
      status, _ = ui.http("POST", "/value", c.bad(k))
      ctx.check(status == [400], "an invalid value is refused", status)
    elif op == 2:
      wait = (0.43, 1.21, 4.07)[ctx.choice(f"wait{k}", 3)]
      ui.loop.advance(wait)
      times = []
      while repeat and c.last + repeat <= ui.loop.time() + 1e-9:
        c.last += repeat
        times.append(c.last)
      c.expect([c.value] * len(times), "the value is repeated at its interval", times)
    elif op == 3: ui.view()
    elif op == 4:
      for w in ui.viewers[:1]:
        if w.here: w.leave()
    if op != 2: ui.loop.advance(0.01)
    due = repeat and c.last + repeat <= ui.loop.time()
    ctx.assume(not due)
    c.expect([], "nothing else is sent")
    for w in ui.viewers:
      ctx.check(w.job.done() == (not w.here), "a viewer stays until it leaves", (w.got, w.job))
      ctx.check(len([x for x in w.got if isinstance(x, dict)]) == w.n, "viewers are told of changes only", w.got)
    ctx.check(same(ctx, ui.get(), c.value), "the value can be read")
    ctx.check(not ui.job.done(), "the control keeps running", ui.job)
  if not ui.viewers: ctx.reach("a change is shown to every viewer once")


@harness("C44", "changes at once", shards=lambda tier: [dict(kind=k, repeat=r, lo=lo, hi=lo + 9) for k, r in ((KINDS[0], 0), (KINDS[1], 1.5), (KINDS[2], 0), (KINDS[3], 0), (KINDS[0], 1.5), (KINDS[3], 1.5))[:4 if tier == "quick" else 6] for lo in range(0, 100, 10)], must=["the value sent last is the value", "a viewer's last is the value"], model_patch=True, strings=True)
def c44_at_once(ctx, kind, repeat, lo, hi):
  c = Control(ctx, kind, repeat)
  ui = c.ui
  a = ui.view()
  ui.loop.advance(0.2)
  ui.sent()
  fixed = {"slider": ({"value": 0.5}, {"value": 0.75}), "switch": ({"value": False}, {"value": True}), "radio": ({"selected_topic": OUT}, {"selected_topic": OUT + 1}), "text": ({"value": "a"}, {"value": "b"})}[kind]
  jobs = [ui.request("POST", "/value", fixed[0])]
  ui.loop.steps_(int(ctx.int("step", lo, hi)))
  jobs.append(ui.request("POST", "/value", fixed[1]))
  b = None
  if ctx.flag("more"):
    ui.loop.steps_(ctx.choice("later", 4 if ctx.tier == "quick" else 12))
    jobs.append(ui.request("POST", "/value", fixed[0]))
  ui.loop.advance(0.5)
  ctx.check(all(j.done() and j.result()[0] == [200] for j in jobs), "a valid value is taken", jobs)
  value = ui.get()
  out = ui.sent()
  width = 3 if kind == "radio" else 1
  want = [w for f in [value] for w in c.want(f)]
  ctx.check([(t, d["value"]) for _, t, d in out[-width:]] == want, "the value sent last is the value", (out, want))
  ctx.check(len(out) % width == 0 and 1 <= len(out) // width <= len(jobs), "nothing is sent twice", out)
  ctx.check(a.got and a.got[-1] == value and len(a.got) <= len(jobs), "a viewer's last is the value", (a.got, value))
  ctx.check(not ui.job.done(), "the control keeps running", ui.job)


@harness("C44", "leaving", shards=lambda tier: [dict(lo=lo, hi=lo + 9) for lo in range(0, 80, 10)], must=["a change is shown to every viewer once"], model_patch=True, strings=True)
def c44_leaving(ctx, lo, hi):
  """a viewer leaves at any step of a change or of its own arrival"""
  c = Control(ctx, "slider", 0)
  ui = c.ui
  arriving = ctx.flag("arriving")
  a, b = ui.view(), ui.view()
  if not arriving: ui.loop.advance(0.2)
  job = ui.request("POST", "/value", {"value": 0.5}) if not arriving else None
  ui.loop.steps_(int(ctx.int("step", lo, hi)))
  a.leave()
  ui.loop.advance(0.5)
  ctx.check(a.job.done(), "a viewer that leaves is gone", a.job)
  if not arriving: ctx.check(b.got == [{"value": 0.5}], "a change is shown to every viewer once", b.got)
  before = len(b.got)
  ui.http("POST", "/value", {"value": 0.75})
  ui.loop.advance(0.5)
  ctx.check(b.got[before:] == [{"value": 0.75}], "a change is shown to every viewer once", b.got)
  ctx.check(not ui.job.done(), "the control keeps running", ui.job)


DISPLAYS = {"bar": (valuedisplaybar, "ValueDisplayBar", dict(default_value=0.25)), "status": (statusdisplay, "StatusDisplay", dict(threshold=0.25))}


def feed(ui):
  topic = ui.probe.out_topic(IN)
  async def f():
    async with topic, topic.RegisterContext(): await asyncio.Future()
  ui.loop.spawn(f())
  ui.loop.advance(0.2)
  def send(data):
    ui.loop.run_until_complete(topic.send(ui.n.ser.RawData(data)))
    ui.loop.advance(0.1)
  return send


def shown(ctx, ui, viewer, value, new):
  ctx.check(same(ctx, ui.get(), {"value": value}), "a display shows the last message")
  ctx.check(len(viewer.got) == new, "a viewer is told of every message", (viewer.got, new))
  if new: ctx.check(same(ctx, viewer.got[-1], {"value": value}), "a viewer is told of every message", viewer.got)


@harness("C44", "displays", shards=lambda tier: [dict(kind=k, n=4 if tier == "quick" else 5) for k in DISPLAYS], must=["a display shows the last message", "a viewer is told of every message"], model_patch=True)
def c44_displays(ctx, kind, n):
  mod, name, cfg = DISPLAYS[kind]
  ui = UI(ctx, lambda c: getattr(mod, name + "Task")(c, getattr(mod, name + "Config")(in_topic=IN, **cfg)))
  send, viewer, value, new = feed(ui), ui.view(), 0.25, 0
  ui.loop.advance(0.1)
  shown(ctx, ui, viewer, value, new)
  for k in range(n):
    if ctx.flag(f"good{k}"):
      value = number(ctx, f"value{k}")
      new += 1
      send({"timestamp": k, "value": value})
    else: send(({"timestamp": k}, {"timestamp": k, "value": "x"}, 5)[ctx.choice(f"bad{k}", 3)])
    shown(ctx, ui, viewer, value, new)
    ctx.check(not ui.job.done(), "the display keeps running", ui.job)


@harness("C44", "texts", shards=lambda tier: [dict(append=a, length=l, sep=s, n=3 if tier == "quick" else 4) for a in (True, False) for l in (-1, 0, 1, 3) for s in ("", "; ")], must=["a display shows the last message", "a viewer is told of every message"], model_patch=True, strings=True)
def c44_texts(ctx, append, length, sep, n):
  ui = UI(ctx, lambda c: textdisplay.TextDisplayTask(c, textdisplay.TextDisplayConfig(in_topic=IN, max_length=length, seperator=sep, append=append)))
  send, viewer, value, new = feed(ui), ui.view(), "", 0
  ui.loop.advance(0.1)
  for k in range(n):
    how = ctx.choice(f"how{k}", 4)
    if how < 3:
      t = ctx.str(f"text{k}", how)
      value = value + sep + t if append else t
      if length != -1: value = value[max(0, len(value) - length):]
      new += 1
      send({"timestamp": k, "value": t})
    else: send(({"timestamp": k}, {"timestamp": k, "value": 3}, 5)[ctx.choice(f"bad{k}", 3)])
    shown(ctx, ui, viewer, value, new)
    ctx.check(not ui.job.done(), "the display keeps running", ui.job)


@harness("C44", "pulses", shards=lambda tier: [dict(kind=k) for k in ("ts", "id")], must=["a pulse per interval"], model_patch=True)
def c44_pulses(ctx, kind):
  from props.tasks import Rig
  interval = (0.001, 0.5, 1, 3)[ctx.choice("interval", 4)]
  times = []
  r = Rig(ctx, lambda c: pulsegenerator.PulseGeneratorTask(c, pulsegenerator.PulseGeneratorConfig(out_topic=OUT, interval=interval, message_type=kind)))
  first = r.new()
  ctx.check(len(first) == 1, "a pulse per interval", first)
  seen = [first[0][1]]
  for k in range(4):
    r.loop.advance(interval * 0.5)
    ctx.check(not r.new(), "a pulse per interval")
    r.loop.advance(interval * 0.5 + 1e-9)
    out = r.new()
    ctx.check(len(out) == 1, "a pulse per interval", out)
    seen.append(out[0][1])
  ctx.check(all(set(d) == ({"timestamp"} if kind == "ts" else {"id"}) for d in seen), "a pulse is of the configured type", seen)
  if kind == "id": ctx.check(len({d["id"] for d in seen}) == len(seen), "every id is new", seen)
  ctx.check(r.alive(), "the generator keeps running")
