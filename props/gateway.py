"""The web gateway: pages of tasks and hosts, registered paths, topics, dashboards."""
import asyncio
import base64
import json
from uuid import UUID
from streamtasks import asgi, asgiserver
from streamtasks.net.utils import endpoint_to_str
from streamtasks.services.constants import NetworkAddressNames
from streamtasks.system import task as task_module, task_web
from symx.harness import harness, meta
from symx.modelpatch import stub_json
from props import web as W

# ---------------------------------------------------------------- C45 the web gateway
meta("C45", bounds="web backend, task manager and one or two hosts on connections that serialise, used through the HTTP interface; pages: every history of 3 (thorough 4) of starting, ending, stopping two tasks, hosts leaving and coming back elsewhere, from three starting points, each followed by requests with every method, a symbolic body and web sockets to every page; paths: every history of 3 (4) registrations and removals over two ids (the first registers, the other histories are these with the ids exchanged, or shorter), three nested and disjoint paths and two endpoints; topics: every history of 2 (3) messages and pauses with symbolic payloads to one or two viewers, directly and through a topic space; dashboards: every history of 3 (4) requests over two dashboards of two deployments with symbolic contents",
     outside="pages of a task that ends while it answers, the front end (JavaScript), the files behind the store (C31), which of two nested paths wins")


def echo(name):
  """an application that tells what it was asked, and by what name it goes"""
  async def app(scope, receive, send):
    if scope["type"] == "http":
      body = b""
      while True:
        e = await receive()
        body = body + e.get("body", b"")
        if not e.get("more_body"): break
      app.asked.append((scope["method"], scope["path"], bytes(scope["query_string"]), body))
      await send({"type": "http.response.start", "status": 210, "headers": [(b"x-name", name.encode())]})
      await send({"type": "http.response.body", "body": name.encode() + b" " + body, "more_body": False})
    elif scope["type"] == "websocket":
      await receive()
      await send({"type": "websocket.accept"})
      while True:
        e = await receive()
        if e["type"] == "websocket.disconnect": return
        await send({"type": "websocket.send", "text": name + scope["path"] + e["text"]})
  app.asked = []
  return app


class PageTask(W.ScriptTask):
  async def setup(self):
    r = await super().setup()
    self.client.start()
    await self.client.request_address()
    self.name = f"task{self.config['page']}.{len(self.host.made)}"
    self.app = echo(self.name)
    return {**r, task_module.MetadataFields.ASGISERVER: endpoint_to_str((self.client.address, 5)), "file:/own.js": "own " + self.name, "file:/data.css": "data:text/css;base64," + base64.b64encode(self.name.encode()).decode()}
  async def run(self):
    page = asyncio.create_task(asgi.ASGIAppRunner(self.client, self.app, 5).run())
    try: await super().run()
    finally: page.cancel()


class PageHost(W.ScriptHost):
  async def create_task(self, config, topic_space_id):
    t = PageTask(await self.create_client(topic_space_id), self, config)
    self.made.append(t)
    return t
  async def register_routes(self, router):
    self.app = echo(f"host{self.nth}")
    router.add_handler(self.app)


class Gateway(W.Web):
  def __init__(self, ctx):
    self.nth = 0
    super().__init__(ctx)
    self.ctx, self.loop = ctx, self.n.loop
  def add_host(self, k):
    h = self.n.loop.call(PageHost, [NetworkAddressNames.TASK_MANAGER])
    h.id, h.nth = f"host{k}", self.nth
    self.nth += 1
    self.n.attach(h.switch)
    self.hosts.append(h)
    self.hostjobs.append(self.n.loop.spawn(h.run()))
    self.n.loop.advance(2)
  def scope(self, typ, path, method=None):
    s = {"type": typ, "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": b"q=1", "root_path": "",
         "headers": [(b"content-type", b"application/json")], "client": ("a", 1), "server": ("b", 2)}
    return {**s, "method": method} if method else s
  def ask(self, method, path, body=b""):
    """-> (status, headers, body), or None when there is no answer"""
    out, events = [], [{"type": "http.request", "body": body, "more_body": False}]
    async def receive():
      if events: return events.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    async def f(): await asyncio.wait_for(self.app(self.scope("http", path, method), receive, send), 20)
    try: self.loop.run_until_complete(f())
    except TimeoutError: return None, {}, b""
    start = [e for e in out if e["type"] == "http.response.start"]
    if len(start) != 1: return None, {}, b""
    b = b""
    for e in out:
      if e["type"] == "http.response.body": b = b + e.get("body", b"")
    return start[0]["status"], dict(start[0]["headers"]), b
  def page(self, path):
    """a web socket: what it is sent, and how to talk to it"""
    got, events = [], asyncio.Queue()
    events.put_nowait({"type": "websocket.connect"})
    async def send(e): got.append(e)
    job = self.loop.spawn(self.app(self.scope("websocket", path), events.get, send))
    v = type("Page", (), {})()
    v.got, v.job, v.put = got, job, events.put_nowait
    v.texts = lambda: [e["text"] for e in got if e["type"] == "websocket.send"]
    self.loop.advance(1)
    return v
  def reaches(self, path, app, name, inner, body):
    """requests to this path are answered by this application, which sees this path; without one they are refused"""
    ctx = self.ctx
    for method in ("GET", "POST"):
      n = len(app.asked) if app else 0
      status, headers, answer = self.ask(method, path, body)
      if app is None:
        ctx.check(status in (404, 400, 500), "a page that is not there is refused", (path, status, answer))
        continue
      ctx.check(status == 210 and headers.get(b"x-name") == name.encode() and answer == name.encode() + b" " + body, "a page is answered by the application it belongs to", (path, name, status, answer))
      ctx.check(len(app.asked) == n + 1 and app.asked[-1] == (method, inner, b"q=1", body), "the application is asked what was asked", (app.asked, inner))
    v = self.page(path)
    if app is None: ctx.check(v.job.done() and not any(e["type"] == "websocket.accept" for e in v.got), "a page that is not there is refused", (path, v.got, v.job))
    else:
      v.put({"type": "websocket.receive", "text": "hi"})
      self.loop.advance(1)
      ctx.check(v.texts() == [name + inner + "hi"], "web sockets reach the application they belong to", (path, v.got))
      v.put({"type": "websocket.disconnect", "code": 1000})
      self.loop.advance(1)
      ctx.check(v.job.done(), "web sockets that leave are gone", v.job)


OPS45 = ["start0", "start1", "gone", "back", "end0", "end1", "stop0"]


@harness("C45", "pages", shards=lambda tier: [dict(state=s, first=f, n=3 if tier == "quick" else 4) for s in range(3) for f in range(len(OPS45))], must=["a page is answered by the application it belongs to", "a page that is not there is refused"], model_patch=True)
def c45_pages(ctx, state, first, n):
  s = Gateway(ctx)
  body = ctx.bytes("body", 1)
  ids = [s.schedule(), s.schedule()]
  running = {}
  host = s.hosts[0]
  def look():
    for k in (0, 1):
      t = running.get(k)
      base = f"/task/{ids[k]}/"
      s.reaches(base + "a/b", t and t.app, t and t.name, "/a/b", body)
      for f, want, typ in (("own.js", t and b"own " + t.name.encode(), b"javascript"), ("data.css", t and t.name.encode(), b"text/css")):
        status, headers, answer = s.ask("GET", base + f)
        if t: ctx.check(status == 200 and answer == want and typ in headers.get(b"content-type", b""), "a task's own files are served", (f, status, headers, answer))
        else: ctx.check(status in (404, 400, 500), "a page that is not there is refused", (f, status))
    s.reaches("/task-host/host0/x", host and host.app, host and f"host{host.nth}", "/x", body)
    s.reaches("/task-host/other/x", None, None, None, body)
    st, b = s.http("GET", "/api/task-hosts")
    ctx.check(st == 200 and [x["id"] for x in json.loads(b)] == ([host.id] if host else []), "the hosts that are there are listed", b)
  def do(op):
    nonlocal host
    k = int(op[-1]) if op[-1].isdigit() else None
    if op.startswith("start"):
      if host is None or k in running or k in ended: return
      r = s.do(s.tc.start_task(ids[k], {"page": k}))
      if k not in lost: running[k] = host.made[-1]
    elif op.startswith("end"):
      if k in running:
        running.pop(k).gate.set()
        ended.add(k)
    elif op.startswith("stop"):
      if k in running:
        s.do(s.tc.cancel_task(ids[k]))
        running.pop(k)
        ended.add(k)
    elif op == "gone" and host is not None:
      s.hostjobs[-1].cancel()
      host = None
      lost.update((0, 1))
      ended.update((0, 1))
      running.clear()
    elif op == "back" and host is None:
      s.add_host(0)
      host = s.hosts[-1]
    s.n.loop.advance(3)
  ended, lost = set(), set()
  for op in (["start0"], [], ["gone"])[state]: do(op)
  look()
  for k in range(n):
    do(OPS45[first if k == 0 else ctx.choice(f"op{k}", len(OPS45))])
    look()
  ctx.check(not s.webjob.done(), "the backend keeps running", s.webjob)


PATHS = ["/x/", "/x/y/", "/z/"]
OPS45P = [("register", i, p, e) for i in range(2) for p in range(3) for e in range(2)] + [("unregister", 0), ("unregister", 1)]


@harness("C45", "paths", shards=lambda tier: [dict(first=f, n=3 if tier == "quick" else 4) for f in range(len(OPS45P)) if tier != "quick" or OPS45P[f][:2] == ("register", 0)], must=["a page is answered by the application it belongs to"], model_patch=True)
def c45_paths(ctx, first, n):
  from streamtasks.client.signal import send_signal
  s = Gateway(ctx)
  body = ctx.bytes("body", 1)
  apps, clients = [echo("app0"), echo("app1")], [s.n.client(), s.n.client()]
  for a, c in zip(apps, clients): s.loop.spawn(s.loop.call(asgi.ASGIAppRunner, c, a).run())
  s.loop.advance(1)
  model = {}
  def do(op, i, p=None, e=None):
    if op == "register":
      r = s.do(s.c.fetch(NetworkAddressNames.TASK_MANAGER_WEB, task_module.TaskConstants.FD_TMW_REGISTER_PATH, task_web.PathRegistration(id=f"id{i}", path=PATHS[p], endpoint=clients[e].address, frontend=task_web.PathRegistrationFrontend(path="std:f", label=f"l{e}") if e else None).model_dump()))
      ctx.check(r is None, "a path can be registered", r)
      model.pop(i, None)
      model[i] = (p, e)
    else:
      s.do(send_signal(s.c, NetworkAddressNames.TASK_MANAGER_WEB, task_module.TaskConstants.SD_TMW_UNREGISTER_PATH, task_module.ModelWithStrId(id=f"id{i}").model_dump()))
      s.loop.advance(1)
      model.pop(i, None)
  def look():
    for path in ("/x/a", "/x/y/a", "/z/", "/zw"):
      fits = [(p, e) for p, e in model.values() if path.startswith(PATHS[p])]
      n = [len(a.asked) for a in apps]
      status, headers, answer = s.ask("GET", path, body)
      if not fits: ctx.check(status == 404, "a page that is not there is refused", (path, status, model))
      else:
        hit = [k for k in (0, 1) if len(apps[k].asked) > n[k]]
        ctx.check(status == 210 and len(hit) == 1 and answer == f"app{hit[0]} ".encode() + body, "a page is answered by the application it belongs to", (path, status, answer, model))
        ctx.check(any(e == hit[0] and apps[e].asked[-1] == ("GET", path[len(PATHS[p]) - 1:], b"q=1", body) for p, e in fits), "the application is asked what was asked", (path, apps[hit[0]].asked, model))
    st, b = s.http("GET", "/api/path-registrations")
    want = sorted([f"id{i}", PATHS[p], {"label": "l1", "path": "std:f"} if e else None] for i, (p, e) in model.items())
    ctx.check(st == 200 and sorted([x["id"], x["path"], x["frontend"]] for x in json.loads(b)) == want, "the paths that are registered are listed", (b, model))
  for k in range(n):
    do(*(OPS45P[first] if k == 0 else ctx.pick(f"op{k}", OPS45P)))
    look()
  if model and ctx.flag("web socket"):
    p, e = list(model.values())[0]
    v = s.page(PATHS[p] + "s")
    v.put({"type": "websocket.receive", "text": "hi"})
    s.loop.advance(1)
    fits = [f"app{ee}" + (PATHS[p] + "s")[len(PATHS[pp]) - 1:] + "hi" for pp, ee in model.values() if PATHS[p].startswith(PATHS[pp])]
    ctx.check(len(v.texts()) == 1 and v.texts()[0] in fits, "web sockets reach the application they belong to", (v.got, fits))


@harness("C45", "topics", shards=lambda tier: [dict(space=sp, first=f, n=2 if tier == "quick" else 3) for sp in (False, True) for f in range(4)], must=["a topic is shown as it is"], model_patch=True)
def c45_topics(ctx, space, first, n):
  from streamtasks.client.discovery import register_topic_space
  s = Gateway(ctx)
  j = stub_json(ctx, task_web, asgiserver)
  topic = 700
  path = f"/topic/{topic}"
  if space:
    sid, m = s.loop.run_until_complete(register_topic_space(s.c, {5, 6}))
    topic = dict(m)[6]
    path = f"/topic/{sid}/6"
  source, other = s.n.client(), s.n.client()
  outs = {}
  async def register(c, t):
    outs[t] = ot = c.out_topic(t)
    async with ot, ot.RegisterContext(): await asyncio.Future()
  s.loop.spawn(register(source, topic))
  s.loop.spawn(register(other, topic + 50))
  s.loop.advance(1)
  vs = [s.page(path)]
  ctx.check([e["type"] for e in vs[0].got] == ["websocket.accept"], "a topic can be viewed", vs[0].got)
  late = s.page(path) if ctx.flag("second viewer") else None
  if late: vs.append(late)
  want, paused = [], False
  for k in range(n):
    op = first if k == 0 else ctx.choice(f"op{k}", 4)
    if op == 0:
      v = ctx.int(f"value{k}", -1000, 1000)
      s.loop.run_until_complete(outs[topic].send(s.n.ser.RawData({"a": v, "b": [v, "x"]})))
      want.append(("data", {"a": v, "b": [v, "x"]}))
    elif op == 1:
      v = ctx.pick(f"special{k}", [float("nan"), float("inf"), float("-inf"), b"\x01\xff", None, True, 1.5])
      s.loop.run_until_complete(outs[topic].send(s.n.ser.RawData({"v": v})))
      want.append(("special", v))
    elif op == 2:
      paused = not paused
      s.loop.run_until_complete(outs[topic].set_paused(paused))
      want.append(("control", {"paused": paused}))
    else:
      s.loop.run_until_complete(outs[topic + 50].send(s.n.ser.RawData({"other": k})))
    s.loop.advance(0.5 if ctx.flag(f"wait{k}") else 0)
  s.loop.advance(1)
  for v in vs:
    got = [j.loads(t) for t in v.texts()]
    if got and got[0] == {"type": "control", "data": {"paused": False}} and (not want or want[0] != ("control", {"paused": False})): got.pop(0) # the state it was in
    ctx.check(len(got) == len(want), "a topic is shown as it is", (got, want))
    for g, (kind, d) in zip(got, want):
      if kind == "special":
        ctx.check(g["type"] == "data" and set(g["data"]) == {"v"}, "a topic is shown as it is", (g, d))
        if d is None or d is True or d == 1.5: ctx.check(g["data"]["v"] == d, "a topic is shown as it is", (g, d))
      else: ctx.check(g["type"] == kind and g["data"] == d, "a topic is shown as it is", (g, d))
  for v in vs: v.put({"type": "websocket.disconnect", "code": 1000})
  s.loop.advance(1)
  ctx.check(all(v.job.done() for v in vs), "web sockets that leave are gone")
  ctx.check(not s.webjob.done(), "the backend keeps running", s.webjob)


BD = [str(UUID(int=(4 << 76) | (8 << 60) | (0xb0 + k))) for k in range(2)]
OPS45D = [("put", b, d) for b in range(2) for d in range(2)] + [("delete", 0), ("delete", 1), ("bad", 0)]


@harness("C45", "dashboards", shards=lambda tier: [dict(first=f, n=3 if tier == "quick" else 4) for f in range(len(OPS45D))], must=["dashboards are what was last put"], model_patch=True)
def c45_dashboards(ctx, first, n):
  s = Gateway(ctx)
  j = stub_json(ctx, task_web, asgiserver)
  model = {}
  for k in range(n):
    op = OPS45D[first] if k == 0 else ctx.pick(f"op{k}", OPS45D)
    if op[0] == "put":
      x = ctx.float(f"x{k}")
      ctx.assume(x == x)
      ctx.assume(ctx.And(x < 1e300, x > -1e300))
      d = {"id": BD[op[1]], "deployment_id": W.D[op[2]], "label": ctx.str(f"label{k}", 1), "windows": [{"task_id": W.T[0], "x": x, "y": 1.0, "width": 2.0, "height": 3.0}]}
      status, _, body = s.ask("PUT", "/api/dashboard", j.dumps(d).encode())
      ctx.check(status == 200 and j.loads(body) == d, "dashboards are what was last put", status)
      model.pop(op[1], None)
      model[op[1]] = d
    elif op[0] == "delete":
      ctx.check(s.ask("DELETE", "/api/dashboard/" + BD[op[1]])[0] == 200, "dashboards can be deleted")
      model.pop(op[1], None)
    else: ctx.check(s.ask("PUT", "/api/dashboard", j.dumps({"id": BD[0], "label": "no deployment"}).encode())[0] == 400, "a dashboard that is none is refused")
    for b in range(2):
      status, _, body = s.ask("GET", "/api/dashboard/" + BD[b])
      if b in model: ctx.check(status == 200 and j.loads(body) == model[b], "dashboards are what was last put", (status, model))
      else: ctx.check(status in (400, 404), "dashboards are what was last put", status)
    for d in range(2):
      status, _, body = s.ask("GET", f"/api/deployment/{W.D[d]}/dashboards")
      ctx.check(status == 200, "a deployment lists its dashboards", status)
      here = j.loads(body)
      want = [v for v in model.values() if v["deployment_id"] == W.D[d]]
      ctx.check(len(here) == len(want) and all(h == w for h, w in zip(here, want)), "a deployment lists its dashboards", (here, want))
    ctx.check(len(s.web.store.dashboards.saved) == len(model), "dashboards are saved")
