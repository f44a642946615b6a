"""HTTP and ASGI: path patterns and routing, transport over the network, bodies and files."""
import asyncio
import base64
import json
import streamtasks.client, streamtasks.utils
from streamtasks import asgi, asgiserver
from symx.harness import harness, meta
from symx import values as V


# ---------------------------------------------------------------- C26 path patterns and routing
meta("C26", bounds="16 patterns covering every shape used in the repository, every ASCII path of up to 10 (quick) / 14 (thorough) characters; constructing with symbolic parameter values of up to 2 characters each; routers of up to 8 routes of all kinds with every path of up to 8 (11) characters and every method and connection type",
     outside="longer paths, non-ASCII paths, patterns in which a parameter that may contain slashes is followed by another parameter, and adjacent parameters (checked for soundness only)")
PATTERNS = ["/x", "/x/", "/x/{a}", "/x/{a}/y", "/x/{a}/{b}", "/x/{a}/{b*}", "/{b*}", "/{b*}/y", "/{a}.js", "/{a}-{b}", "/x{}/y", "/x/{a}y/{b}z", "/x{*}", "{a}", "/{a}/yx/{b*}/y", "/xy{a}xy"]


def _parse(pattern):
  """independent reading of a pattern: literals and (name, slashes allowed)"""
  lits, pars, cur, rest = [], [], "", pattern.rstrip("/")
  while rest:
    if rest[0] == "{":
      name, rest = rest[1:].split("}", 1)
      lits.append(cur)
      cur = ""
      pars.append((name.rstrip("*") or None, name.endswith("*")))
    else: cur, rest = cur + rest[0], rest[1:]
  return lits + [cur], pars


def _fits(lits, pars, path, start=0):
  """condition that path[start:] reads as the pattern"""
  n = len(path)
  e = start + len(lits[0])
  if e > n: return False
  head = path[start:e] == lits[0]
  if head is False: return False
  if not pars: return head if e == n else False
  opts = []
  for j in range(e, n + 1):
    ok = True if pars[0][1] else V.sym_and(*[V.sym_not(path[i:i + 1] == "/") for i in range(e, j)])
    rest = _fits(lits[1:], pars[1:], path, j)
    if rest is not False: opts.append(V.sym_and(ok, rest))
  return V.sym_and(head, V.sym_or(*opts)) if opts else False


def _join(lits, pars, vals):
  s = lits[0]
  for l, v in zip(lits[1:], vals): s = s + v + l
  return s


def _held(client):
  """receivers that a client keeps"""
  return len(getattr(client, "_receivers", ()))


@harness("C26", "match", shards=lambda tier: [dict(k=k, n=n) for n in range(0, 11 if tier == "quick" else 15) for k in range(len(PATTERNS))], strings=True)
def c26_match(ctx, k, n):
  lits, pars = _parse(PATTERNS[k])
  p = asgiserver.PathPattern(PATTERNS[k])
  path = ctx.str("path", n)
  m = p.match(path)
  fits = _fits(lits, pars, path)
  if m is None: return ctx.check(ctx.Not(fits), "a path that reads as the pattern matches", (PATTERNS[k], path))
  ctx.check(fits, "a path that does not read as the pattern does not match", (PATTERNS[k], path, m))
  ctx.check(set(m) == {x for x, _ in pars if x}, "every named parameter gets a value", m)
  for name, slashes in pars:
    if name and not slashes: ctx.check("/" not in m[name], "a parameter spans slashes only if it may", m)
  if all(x for x, _ in pars):
    ctx.check(_join(lits, pars, [m[x] for x, _ in pars]) == path, "the parameters put into the pattern give the path", (PATTERNS[k], path, m))
    ctx.check(p.construct(m) == path, "constructing undoes matching", (PATTERNS[k], path, m))
  ctx.observe("m", m)


@harness("C26", "construct", shards=lambda tier: [dict(k=k, l=l) for k in range(len(PATTERNS)) if "{}" not in PATTERNS[k] and "{*}" not in PATTERNS[k] for l in range(0, 3 if tier == "quick" else 4)], strings=True)
def c26_construct(ctx, k, l):
  lits, pars = _parse(PATTERNS[k])
  p = asgiserver.PathPattern(PATTERNS[k])
  vals = {x: ctx.str("v_" + x, l) for x, _ in pars}
  bad = ctx.Or(*["/" in vals[x] for x, s in pars if not s]) if pars else False
  try: r = p.construct(vals)
  except ValueError: return ctx.check(bad, "values that may be put in are put in", (PATTERNS[k], vals))
  ctx.check(ctx.Not(bad), "a slash is put only where one may be", (PATTERNS[k], vals))
  ctx.check(r == _join(lits, pars, [vals[x] for x, _ in pars]), "the values are put in their places", (PATTERNS[k], vals, r))
  ctx.check(p.match(r) is not None, "what was constructed matches", (PATTERNS[k], r))


ROUTES = [("GET", "/a"), ("PUT", "/a"), ("ws", "/a"), ("GET", "/a/{x}"), ("ws", "/a/{x}"), ("GET", "/a/{x}/b"), ("t", "/t/{x}/{y*}"), ("GET", "/{y*}"), ("ws", "/{x}/b"), ("PUT", "/a/{x}/{y}"), ("t", "/a/{x}")]
ROUTERS = [[0, 1, 2, 3, 5, 6, 8], [7, 0, 2, 6], [10, 3, 4, 7], [3, 10, 9, 6], [5, 3, 9, 4, 8], [6, 2, 1]]


async def _call(app, typ, method, path, body=b""):
  """-> list of events the application sent"""
  out, events = [], [{"type": "http.request", "body": body, "more_body": False}] if typ == "http" else [{"type": "websocket.connect"}]
  async def receive():
    if events: return events.pop(0)
    await asyncio.Future()
  async def send(e): out.append(e)
  scope = {"type": typ, "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "http", "path": path, "raw_path": None, "query_string": b"", "root_path": "", "headers": [], "client": ("a", 1), "server": ("b", 2)}
  if typ == "http": scope["method"] = method
  await asyncio.wait_for(app(scope, receive, send), 60)
  return out


@harness("C26", "routing", shards=lambda tier: [dict(k=k, n=n, typ=t) for n in range(1, 9 if tier == "quick" else 12) for k in range(len(ROUTERS)) for t in ("GET", "PUT", "ws")], strings=True)
def c26_routing(ctx, k, n, typ):
  server, router = asgiserver.ASGIServer(), asgiserver.ASGIRouter()
  server.add_handler(asgi.asgi_default_http_error_handler)
  server.add_handler(router)
  hit = []
  for i in ROUTERS[k]:
    kind, pat = ROUTES[i]
    def make(i):
      @asgiserver.transport_context_handler
      async def f(c):
        hit.append((i, dict(c.params)))
        if c.scope["type"] == "http": await c.respond_status(200)
        else: await c.accept()
      return f
    if kind == "t": router.add_transport_route(make(i), pat)
    elif kind == "ws": router.add_websocket_route(make(i), pat)
    else: router.add_http_route(make(i), pat, [kind.lower()])
  path = "/" + ctx.str("path", n - 1) if n > 1 else "/"
  ctype = "websocket" if typ == "ws" else "http"
  out = ctx.run(_call(server, ctype, typ, path))
  fits = [(i, _fits(*_parse(ROUTES[i][1]), path)) for i in ROUTERS[k] if ROUTES[i][0] in ("t", typ)]
  ctx.check(len(hit) <= 1, "one route answers", hit)
  if not hit:
    ctx.check(ctx.Not(ctx.Or(*[f for _, f in fits])) if fits else True, "the first route that fits answers", (path, typ))
    if ctype == "http": ctx.check([e["status"] for e in out if e["type"] == "http.response.start"] == [404], "a path without a route is not found", out)
    else: ctx.check(out[-1]["type"] == "websocket.close", "a path without a route is not found", out)
    return
  i, params = hit[0]
  before = [f for j, f in fits if ROUTERS[k].index(j) < ROUTERS[k].index(i)]
  ctx.check(ctx.And(dict(fits).get(i, False), *[ctx.Not(f) for f in before]), "the first route that fits answers", (path, typ, i))
  lits, pars = _parse(ROUTES[i][1])
  ctx.check(set(params) == {x for x, _ in pars}, "the route gets its parameters", params)
  ctx.check(_join(lits, pars, [params[x] for x, _ in pars]) == path, "the route gets its parameters", (path, params))
  if ctype == "http": ctx.check([e["status"] for e in out if e["type"] == "http.response.start"] == [200], "the route's answer is the answer", out)
  else: ctx.check([e["type"] for e in out] == ["websocket.accept"], "the route's answer is the answer", out)


# ---------------------------------------------------------------- C25 applications reached through the network
meta("C25", bounds="scope and event values of every type in every container up to two levels deep with symbolic leaves (integers below 2^63, texts of 0 or 2 characters, byte strings of 0 or 2 bytes); 1 or 2 requests at a time, each with up to 2 (thorough 3) events in either direction, on connections that serialise, the second request (at the same or another server) or a disconnection at every step (callback of the event loop) of the first; applications that fail",
     outside="connections that break (C05), servers that cancel a request, values the transport does not carry (they become None)")
from props.web import Net
LEAVES = ["int", "float", "str", "bytes", "bool", "none"]


def _leaf(ctx, name, kind):
  if kind == "int": return ctx.int(name, -2 ** 63, 2 ** 63 - 1)
  if kind == "float": return ctx.float(name, nan=False)
  if kind == "str": return ctx.str(name, 2) if ctx.flag(name + "n") else ""
  if kind == "bytes": return ctx.bytes(name, 2) if ctx.flag(name + "n") else b""
  if kind == "bool": return ctx.bool(name)
  return None


def _value(ctx, name, kind, depth):
  if kind in LEAVES: return _leaf(ctx, name, kind)
  if kind == "set": return {ctx.pick(name + "e", ["a", 1, b"x", (1, b"y"), None, True])} | ({"z"} if ctx.flag(name + "z") else set())
  n = ctx.choice(name + "n", 3)
  kinds = LEAVES + (["list", "tuple", "dict", "set"] if depth > 1 else [])
  vs = [_value(ctx, f"{name}.{i}", ctx.pick(f"{name}k{i}", kinds) if i == 0 else "str", depth - 1) for i in range(n)]
  if kind == "list": return vs
  if kind == "tuple": return tuple(vs)
  return {"ab"[i]: v for i, v in enumerate(vs)}


def _eq(ctx, a, b):
  """same value of the same type"""
  if V.is_sym(a) or V.is_sym(b):
    if V.is_sym(a) and V.is_sym(b) and type(a) is not type(b): return False
    if type(a) is V.SymFloat and type(b) is V.SymFloat: return ctx.same(a, b)
    return a == b
  if type(a) is not type(b): return False
  if isinstance(a, (list, tuple)): return len(a) == len(b) and ctx.And(*[_eq(ctx, x, y) for x, y in zip(a, b)])
  if isinstance(a, dict): return set(a) == set(b) and ctx.And(*[_eq(ctx, a[k], b[k]) for k in a])
  return a == b


def _wire(x):
  """what the encodings keep of a value that holds no bytes, tuples or sets unless they support them"""
  if isinstance(x, (list, tuple)) : return [_wire(v) for v in x]
  if isinstance(x, dict): return {k: _wire(v) for k, v in x.items()}
  if isinstance(x, (set, frozenset)): raise TypeError("not serialisable")
  return x


@harness("C25", "values", shards=lambda tier: [dict(cls=c, kind=k, depth=2 if tier == "quick" else 3) for c in ("JSON", "MessagePack") for k in LEAVES + ["list", "tuple", "dict", "set"]], strings=True)
def c25_values(ctx, cls, kind, depth):
  t = getattr(asgi, cls + "ValueTransformer")
  v = _value(ctx, "v", kind, depth)
  a = t.annotate_value(v)
  if cls == "JSON" and not ctx.symbolic: json.dumps(a)
  r = t.deannotate_value(_wire(a))
  ctx.check(_eq(ctx, r, v), "a value arrives as what it was", (v, a, r))
  r = t.deannotate_value(_wire(t.annotate_value({"f": len, "v": v})))
  ctx.check(set(r) == {"f", "v"} and r["f"] is None and _eq(ctx, r["v"], v), "a value arrives as what it was", r)


class Wire(Net):
  def __init__(self, ctx, app):
    super().__init__(ctx)
    self.host, self.front, self.other = self.client(), self.client(), None
    self.runner = self.loop.call(asgi.ASGIAppRunner, self.host, app)
    self.job = self.loop.spawn(self.runner.run())
    self.loop.advance(1)
    self.proxy = self.loop.call(asgi.ASGIProxyApp, self.front, self.host.address)
  def request(self, scope, events, other=False):
    """start one request (at the proxy of another client); -> job, events sent by the application, function to feed further events"""
    proxy = self.proxy
    if other:
      if self.other is None:
        self.other = self.loop.call(asgi.ASGIProxyApp, self.client(), self.host.address)
      proxy = self.other
    out, q = [], asyncio.Queue()
    for e in events: q.put_nowait(e)
    async def send(e): out.append(e)
    return self.loop.spawn(proxy(scope, q.get, send)), out, q.put_nowait


@harness("C25", "request", shards=lambda tier: [dict(kind=k, at=a, up=u, down=d) for k in LEAVES + ["list", "tuple", "dict"] for a in ("scope", "up", "down") for u, d in (((1, 2), (2, 1)) if tier == "quick" else ((1, 2), (2, 1), (3, 3)))], must=["the request ends with the application"], strings=True, model_patch=True)
def c25_request(ctx, kind, at, up, down):
  depth = 1 if ctx.tier == "quick" else 2
  val = lambda name, where: _value(ctx, name, kind, depth) if at == where else None
  seen, events, replies = [], [], []
  scope = {"type": "http", "v": val("scope", "scope"), "headers": [(b"k", ctx.bytes("h", 2))], "state": {"f": None}}
  for i in range(up): events.append({"type": "http.request", "body": ctx.bytes(f"up{i}", 2), "more_body": i < up - 1, "v": val(f"e{i}", "up") if i == 0 else None})
  for i in range(down): replies.append({"type": "http.response.body", "body": ctx.bytes(f"down{i}", 2), "v": val(f"r{i}", "down") if i == 0 else None, "headers": [(b"a", b"b")]})
  async def app(s, receive, send):
    seen.append(s)
    for i in range(max(up, down)):
      if i < up: seen.append(await receive())
      if i < down: await send(replies[i])
  w = Wire(ctx, app)
  n = _held(w.front), _held(w.host)
  job, out, feed = w.request(scope, events)
  w.loop.advance(5)
  ctx.check(job.done() and job.exception() is None, "the request ends with the application", job)
  ctx.check(_eq(ctx, seen, [scope] + events), "the application gets the scope and the events in order", (seen, scope, events))
  ctx.check(_eq(ctx, out, replies), "the server gets what the application sends in order", (out, replies))
  ctx.check((_held(w.front), _held(w.host)) == n, "nothing is left of a request that ended")
  ctx.check(not w.job.done(), "the application keeps being served")


@harness("C25", "moments", shards=lambda tier: [dict(what=a, lo=lo, hi=lo + 29) for a in ("second", "elsewhere", "disconnect", "late") for lo in range(0, 90, 30)], must=["settled"], strings=True, model_patch=True)
def c25_moments(ctx, what, lo, hi):
  """a second request, or a disconnection, at every step of a request"""
  seen = {}
  async def app(s, receive, send):
    got = seen.setdefault(s["path"], [])
    e = await receive()
    got.append(e)
    await send({"type": "http.response.start", "status": 200, "p": s["path"]})
    if what not in ("second", "elsewhere"): got.append(await receive())
    else: await send({"type": "http.response.body", "body": e["body"]})
  w = Wire(ctx, app)
  if what == "elsewhere": w.other = w.loop.call(asgi.ASGIProxyApp, w.client(), w.host.address)
  n = _held(w.front), _held(w.host)
  b = ctx.bytes("body", 2)
  job, out, feed = w.request({"type": "http", "path": "/1"}, [{"type": "http.request", "body": b}])
  w.loop.steps_(int(ctx.int("step", lo, hi)))
  start = lambda p: {"type": "http.response.start", "status": 200, "p": p}
  if what in ("second", "elsewhere"):
    c = ctx.bytes("other", 2)
    job2, out2, _ = w.request({"type": "http", "path": "/2"}, [{"type": "http.request", "body": c}], what == "elsewhere")
    w.loop.advance(5)
    for j, o, x, p in ((job, out, b, "/1"), (job2, out2, c, "/2")):
      ctx.check(j.done() and j.exception() is None, "the request ends with the application", (j, o))
      ctx.check(_eq(ctx, o, [start(p), {"type": "http.response.body", "body": x}]), "requests at the same time do not mix", (o, x))
      ctx.check(_eq(ctx, seen[p], [{"type": "http.request", "body": x}]), "requests at the same time do not mix", seen)
  else:
    if what == "late": w.loop.advance(5)
    feed({"type": "http.disconnect"})
    w.loop.advance(5)
    ctx.check(job.done() and job.exception() is None, "the request ends with the connection", job)
    ctx.check(_eq(ctx, seen["/1"], [{"type": "http.request", "body": b}, {"type": "http.disconnect"}]), "the application is told of the disconnection", seen)
    ctx.check(_eq(ctx, out, [start("/1")]) or len(out) == 0 or what != "late", "the server gets what the application sends in order", out)
  ctx.check((_held(w.front), _held(w.host)) == n, "nothing is left of a request that ended", (_held(w.front), _held(w.host), n))
  ctx.check(not w.job.done(), "the application keeps being served")
  ctx.reach("settled")


@harness("C25", "failing", shards=lambda tier: [dict(at=a) for a in range(3)], must=["settled"], strings=True, model_patch=True)
def c25_failing(ctx, at):
  """an application that fails does not affect other requests"""
  async def app(s, receive, send):
    for i in range(2):
      if s["bad"] and i == at: raise ValueError("failed")
      e = await receive()
      if s["bad"] and at == 2: raise ValueError("failed")
      await send({"type": "x", "body": e["body"]})
  w = Wire(ctx, app)
  bs = [ctx.bytes(f"b{i}", 2) for i in range(2)]
  first = ctx.flag("first")
  n = _held(w.front), _held(w.host)
  jobs = [w.request({"type": "http", "bad": bad}, [{"type": "a", "body": b} for b in bs]) for bad in ((True, False) if first else (False, True))]
  w.loop.advance(5)
  (j1, o1, _), (j2, o2, _) = jobs if first else jobs[::-1]
  ctx.check(j1.done() and j2.done() and j2.exception() is None, "the request ends with the application", (j1, j2))
  ctx.check(_eq(ctx, o1, [{"type": "x", "body": b} for b in bs[:at if at < 2 else 0]]), "the server gets what the application sends in order", o1)
  ctx.check(_eq(ctx, o2, [{"type": "x", "body": b} for b in bs]), "an application that fails does not affect other requests", o2)
  ctx.check((_held(w.front), _held(w.host)) == n, "nothing is left of a request that ended")
  ctx.reach("settled")


# ---------------------------------------------------------------- C28 static files stay inside their directory
meta("C28", bounds="every ASCII request path (NUL included) of up to 9 (quick) / 11 (thorough) characters against a tree with nested directories, directories without an index file, a sibling directory with the same name prefix, and symbolic links (to files and directories, inside and outside, as index file); every sequence of two such requests is independent of the first by construction",
     outside="longer and non-ASCII paths, trees that change during a request, file names without a known type; the model of the file system (lookup, symbolic links, '..') stands in for the operating system in the symbolic run, replays and validation samples use real files")
TREE = {("p",): "d", ("p", "i.js"): "f:in-i", ("p", "a.js"): "f:in-a", ("p", "d"): "d", ("p", "d", "i.js"): "f:in-di", ("p", "d", "b.js"): "f:in-db", ("p", "d", "x.js"): "f:in-dx", ("p", "e"): "d", ("p", "g"): "d", ("p", "g", "i.js"): "d", ("p", "l"): "l:../q", ("p", "m.js"): "l:../a.js",
        ("p", "n.js"): "l:a.js", ("p", "o"): "d", ("p", "o", "i.js"): "l:../../a.js", ("p", "k"): "l:d", ("pq",): "d", ("pq", "i.js"): "f:out-pqi", ("pq", "a.js"): "f:out-pqa", ("q",): "d", ("q", "i.js"): "f:out-qi", ("q", "a.js"): "f:out-qa", ("a.js",): "f:out-a", ("i.js",): "f:out-i"}


def _names(s):
  """components of a path text; forks on where the separators are"""
  out, cur = [], []
  for i in range(len(s)):
    c = s[i:i + 1]
    if c == "/":
      out.append(cur)
      cur = []
    else: cur.append(c)
  out.append(cur)
  def join(cs):
    r = ""
    for c in cs: r = r + c
    return r
  return [join(x) for x in out]


def _lookup(d, name):
  """name -> entry of the tree in directory d, None if there is none (forks on the comparison with every entry)"""
  for k, v in TREE.items():
    if k[:-1] == d and len(k[-1]) == len(name) and name == k[-1]: return k
  return None


class ModelPath:
  """pathlib.Path over TREE, rooted at /"""
  def __init__(self, p): self.parts_ = list(p.parts_) if isinstance(p, ModelPath) else list(p) if isinstance(p, (list, tuple)) else [n for n in _names(p) if len(n)]
  def joinpath(self, s):
    if len(s) and s[0:1] == "/": return ModelPath(s)
    return ModelPath(self.parts_ + [n for n in _names(s) if len(n)])
  def __truediv__(self, s): return self.joinpath(s)
  def resolve(self, strict=False):
    out, todo, links = [], list(self.parts_), 0
    for n in todo:
      for i in range(len(n)):
        if n[i:i + 1] == "\0": raise ValueError("embedded null byte")
    while todo:
      n = todo.pop(0)
      if n == ".": continue
      if n == "..":
        out = out[:-1]
        continue
      k = _lookup(tuple(out), n) if all(type(x) is str for x in out) else None
      if k is None:
        if strict: raise FileNotFoundError(n)
        out.append(n)
      elif TREE[k][0] == "l":
        links += 1
        if links > 20: raise RuntimeError("loop")
        todo = TREE[k][2:].split("/") + todo
      else: out.append(k[-1])
    return ModelPath(out)
  def _entry(self):
    p = self.resolve()
    if not p.parts_: return "d"
    return TREE.get(tuple(p.parts_)) if all(type(x) is str for x in p.parts_) else None
  def exists(self): return self._entry() is not None
  def is_dir(self): return self._entry() == "d"
  def is_file(self): return (self._entry() or "")[:1] == "f"
  def is_symlink(self): return False
  @property
  def parent(self): return ModelPath(self.parts_[:-1])
  @property
  def name(self): return self.parts_[-1]
  @property
  def suffix(self): return ".js"
  @property
  def parents(self): return [ModelPath(self.parts_[:i]) for i in range(len(self.parts_))][::-1]
  def is_relative_to(self, o): return len(o.parts_) <= len(self.parts_) and all(x == y for x, y in zip(o.parts_, self.parts_))
  def relative_to(self, o):
    if not self.is_relative_to(o): raise ValueError("not in the subpath")
    return ModelPath(self.parts_[len(o.parts_):])
  def __eq__(self, o): return isinstance(o, ModelPath) and len(o.parts_) == len(self.parts_) and all(x == y for x, y in zip(o.parts_, self.parts_))
  def __hash__(self): return 1
  def open(self, *a): return ModelFile(self)
  def as_posix(self):
    r = "/"
    for i, n in enumerate(self.parts_): r = r + ("/" if i else "") + n
    return r
  __symstr__ = as_posix
  @property
  def parts(self): return ("/", *self.parts_)


class ModelFile:
  def __init__(self, p):
    e = ModelPath(p)._entry()
    if e is None: raise FileNotFoundError("no such file")
    if e == "d": raise IsADirectoryError("a directory")
    self.b = e[2:].encode()
  def read(self, n=-1):
    r, self.b = (self.b, b"") if n < 0 else (self.b[:n], self.b[n:])
    return r
  def __enter__(self): return self
  def __exit__(self, *a): pass


class Above(Exception):
  """the path leaves the modelled tree: what is there is not specified"""


def _expected(path):
  """independent reading of a request path: content to serve, or None"""
  out, todo = ["p"], [n for n in _names(path) if len(n)]
  real = _walk(out, todo)
  if real is None: return None
  if TREE.get(real) == "d":
    if real[:1] != ("p",): return None
    real = next((r for r in (_walk(list(real), [i]) for i in ("x.js", "i.js")) if r is not None), None)
    if real is None: return None
  if real[:1] != ("p",) or TREE[real] == "d": return None
  return TREE[real][2:].encode()


def _walk(out, todo):
  """real location in the tree; unknown components are kept by name, as they can be left again with '..'"""
  out, todo, fuel = list(out), list(todo), 40
  while todo and fuel:
    fuel -= 1
    n = todo.pop(0)
    if n == ".": pass
    elif n == "..":
      if not out: raise Above()
      out = out[:-1]
    else:
      k = None if None in out else _lookup(tuple(out), n)
      if k is None: out.append(None)
      elif TREE[k][0] == "l": todo = TREE[k][2:].split("/") + todo
      else: out.append(k[-1])
  if None in out or (tuple(out) not in TREE and out): return None
  return tuple(out) if out else ()


def _tree(ctx):
  """-> served directory: the model in symbolic runs, real files in a scratch directory in replays"""
  if ctx.symbolic:
    from types import SimpleNamespace
    ctx.stub(asgiserver, "pathlib", SimpleNamespace(Path=ModelPath))
    ctx.stub(asgiserver, "open", lambda p, *a, **k: ModelFile(p))
    ctx.stub(asgiserver, "mimetypes", SimpleNamespace(guess_type=lambda p, *a: ("text/javascript", None)))
    ctx.stub(asgiserver, "os", SimpleNamespace(stat=lambda p: SimpleNamespace(st_size=4096 if ModelPath(p).is_dir() else len(ModelFile(p).b)), path=SimpleNamespace()))
    return "/p"
  import tempfile, os, pathlib
  t = ctx._stack.enter_context(tempfile.TemporaryDirectory())
  for k, v in TREE.items():
    f = pathlib.Path(t, *k)
    if v == "d": f.mkdir()
    elif v[0] == "f": f.write_bytes(v[2:].encode())
    else: os.symlink(v[2:], f)
  return os.path.join(t, "p")


PRE28 = ["", "/", "../", "/../", "d/", "/d/../", "/l/", "//", "\\", "o/", "/../pq/", "/x/../../", "e/", "g/"]


@harness("C28", "contained", shards=lambda tier: [dict(pre=p, n=n) for n in range(0, 7 if tier == "quick" else 9) for p in range(len(PRE28)) if len(PRE28[p]) + n <= (9 if tier == "quick" else 11)], must=["what is inside is served", "what is not inside is not found"], strings=True)
def c28(ctx, pre, n):
  server = asgiserver.ASGIServer()
  server.add_handler(asgiserver.static_files_handler(_tree(ctx), ["x.js", "i.js"], response_buffer_size=ctx.pick("buffer", [4, 1000]) if n < 4 else 3))
  path = PRE28[pre] + ctx.str("path", n, lo=0)
  nul = ctx.Or(*[path[i:i + 1] == "\0" for i in range(len(path))]) if len(path) else False
  out = ctx.run(_call(server, "http", "GET", path))
  status = [e["status"] for e in out if e["type"] == "http.response.start"]
  body = b"".join(e.get("body", b"") for e in out if e["type"] == "http.response.body")
  ctx.check(len(status) == 1 and not any(e.get("more_body", False) for e in out[-1:]), "every request is answered once", out)
  ctx.check(b"out-" not in body, "nothing outside the directory is sent", (path, body))
  if nul:
    return ctx.check(status[0] != 200, "what is not inside is not found", (path, status))
  rel = path
  while len(rel) and (rel[0:1] == "/" or rel[0:1] == "\\"): rel = rel[1:]
  try: want = _expected(rel)
  except Above: return ctx.check(b"in-" in body or status[0] == 404, "what is not inside is not found", (path, status, body))
  if want is None: ctx.check(status[0] == 404, "what is not inside is not found", (path, status, body))
  else:
    ctx.check(status[0] == 200 and body == want, "what is inside is served", (path, status, body))
    heads = dict(out[0]["headers"])
    ctx.check(heads[b"content-length"] == str(len(want)).encode(), "the length told is the length sent", heads)
  ctx.observe("status", status)
  ctx.observe("body", body)


# ---------------------------------------------------------------- C27 bodies
meta("C27", bounds="request bodies of up to 6 (thorough 8) symbolic bytes in every split into 1 to 3 (4) events, with and without empty events; responses of up to 6 (8) symbolic bytes from memory and from files with buffers of every size from 1 to 5 and without limit; web socket messages of up to 2 symbolic bytes or characters, the empty one included; data URIs with every ASCII payload of up to 4 (5) characters, every sequence of percent-encoded bytes included, plain and base64, with every combination of media type and character set",
     outside="requests that break off, character sets other than UTF-8 in request bodies, HTTP trailers; base64 payloads are decoded by the standard library and taken as given")


class SymBytesIO:
  """io.BytesIO for symbolic contents"""
  def __init__(self, initial=b""): self.b, self.pos = initial, 0
  def write(self, d):
    if self.pos > len(self.b): self.b = self.b + bytes(self.pos - len(self.b))
    self.b = self.b[:self.pos] + d + self.b[self.pos + len(d):]
    self.pos += len(d)
    return len(d)
  def getvalue(self): return self.b
  def seek(self, n, whence=0): self.pos = n if whence == 0 else len(self.b) + n if whence == 2 else self.pos + n
  def tell(self): return self.pos
  def truncate(self, n=None): self.b = self.b[:self.pos if n is None else n]
  def read(self, n=-1):
    r = self.b[self.pos:] if n is None or n < 0 else self.b[self.pos:self.pos + n]
    self.pos += len(r)
    return r


def _hexval(c):
  for lo, hi, d in (("0", "9", 48), ("a", "f", 87), ("A", "F", 55)):
    if ctx_between(c, lo, hi): return V.SymInt(V._cterm(c.cs[0]) - d) if V.is_sym(c) else ord(c) - d
  return None
def ctx_between(c, lo, hi): return bool(V.sym_and(c >= lo, c <= hi))


def _unquote_to_bytes(s):
  """urllib.parse.unquote_to_bytes on ASCII texts"""
  out, i, n = b"", 0, len(s)
  while i < n:
    c = s[i:i + 1]
    if c == "%" and i + 2 < n:
      h, l = _hexval(s[i + 1:i + 2]), _hexval(s[i + 2:i + 3])
      if h is not None and l is not None:
        out = out + V.symbytes([h * 16 + l])
        i += 3
        continue
    out = out + (c.encode() if V.is_sym(c) else c.encode())
    i += 1
  return out


def _unquote(s, encoding="utf-8", errors="replace"):
  b = _unquote_to_bytes(s)
  if type(b) is bytes: return b.decode(encoding, errors)
  for i in range(len(b)):
    if b[i] >= 128: raise V.Unsupported("unquoting to non-ASCII text")
  return b.decode("ascii")


def _s_unquote(s, *a, **k):
  import urllib.parse
  return _unquote(s, *a, **k) if V.is_sym(s) else urllib.parse.unquote(s, *a, **k)
def _s_unquote_plus(s, *a, **k):
  import urllib.parse
  return _unquote(s.replace("+", " "), *a, **k) if V.is_sym(s) else urllib.parse.unquote_plus(s, *a, **k)
def _s_unquote_to_bytes(s):
  import urllib.parse
  return _unquote_to_bytes(s) if V.is_sym(s) else urllib.parse.unquote_to_bytes(s)


class _Codecs:
  """codecs.getdecoder on symbolic bytes (UTF-8, ASCII values)"""
  def __getattr__(self, n):
    import codecs
    return getattr(codecs, n)
  def getdecoder(self, name):
    import codecs
    real = codecs.getdecoder(name)
    def f(b, errors="strict"):
      if not V.is_sym(b): return real(b, errors)
      if codecs.lookup(name).name not in ("utf-8", "ascii"): raise V.Unsupported("charset " + name)
      return b.decode("ascii"), len(b)
    return f


EXTRA27 = {"BytesIO": SymBytesIO, "codecs": _Codecs(), "unquote_plus": _s_unquote_plus, "unquote": _s_unquote, "unquote_to_bytes": _s_unquote_to_bytes}


async def _http(app, body, headers):
  out, events = [], list(body)
  async def receive():
    if events: return events.pop(0)
    await asyncio.Future()
  async def send(e): out.append(e)
  scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "http", "path": "/", "raw_path": None, "query_string": b"", "root_path": "", "headers": headers, "client": ("a", 1), "server": ("b", 2), "method": "POST"}
  await asyncio.wait_for(app(scope, receive, send), 60)
  return out


def _split(ctx, data, k):
  """the data in k pieces, any of them possibly empty"""
  cuts, lo = [], 0
  for i in range(k - 1):
    lo = lo + ctx.choice(f"cut{i}", len(data) - lo + 1)
    cuts.append(lo)
  return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]


@harness("C27", "request", shards=lambda tier: [dict(n=n, k=k, how=h) for n in range(0, 7 if tier == "quick" else 9) for k in range(1, 4 if tier == "quick" else 5) for h in ("bytes", "text")], strings=True, extra=EXTRA27)
def c27_request(ctx, n, k, how):
  data = ctx.bytes("body", n)
  if how == "text":
    for i in range(n): ctx.assume(data[i] < 128)
  parts = _split(ctx, data, k)
  got = []
  server = asgiserver.ASGIServer()
  @server.handler
  @asgiserver.http_context_handler
  async def _(c):
    got.append(await c.body.read_all() if how == "bytes" else await c.receive_text({"text/plain"}))
    await c.respond_status(200)
  events = [{"type": "http.request", "body": p, "more_body": i < k - 1} for i, p in enumerate(parts)]
  if len(parts[0]) == 0 and ctx.flag("omitted"): del events[0]["body"]
  head = ctx.pick("head", [b"text/plain", b"Text/Plain; charset=utf-8", b"text/plain; a=b; Charset=UTF-8"]) if how == "text" else b"x/y"
  out = ctx.run(_http(server, events, [(ctx.pick("case", [b"content-type", b"Content-Type"]), head)]))
  ctx.check(len(got) == 1, "the body is read", out)
  want = data if how == "bytes" else data.decode("ascii")
  ctx.check(got[0] == want, "the body is what was sent", (got, want))
  if how == "text" and n == 1:
    for bad in ([], [(b"content-type", b"application/json")], [(b"content-type", b"text/plain; charset=none-such")]):
      out = ctx.run(_http(server, [{"type": "http.request", "body": b"x"}], bad))
      ctx.check(out[0]["status"] == 500 and len(got) == 1, "a body of another type is refused", out)


@harness("C27", "response", shards=lambda tier: [dict(n=n, how=h) for n in range(0, 7 if tier == "quick" else 9) for h in ("buffer", "text", "file")], strings=True, extra=EXTRA27)
def c27_response(ctx, n, how):
  data = ctx.bytes("body", n)
  if how == "text":
    for i in range(n): ctx.assume(data[i] < 128)
    text = data.decode("ascii")
  server = asgiserver.ASGIServer()
  size = ctx.pick("size", [1, 2, 3, 4, 5, -1]) if how == "file" else None
  path = "/nowhere/x.html"
  if how == "file":
    if ctx.symbolic:
      from types import SimpleNamespace
      class File(SymBytesIO):
        def __enter__(self): return self
        def __exit__(self, *a): pass
      ctx.stub(asgiserver, "open", lambda p, *a, **k: File(data))
      ctx.stub(asgiserver, "os", SimpleNamespace(stat=lambda p: SimpleNamespace(st_size=n)))
    else:
      import tempfile, os
      path = os.path.join(ctx._stack.enter_context(tempfile.TemporaryDirectory()), "x.html")
      with open(path, "wb") as f: f.write(data)
  status = ctx.pick("status", [200, 404])
  @server.handler
  @asgiserver.http_context_handler
  async def _(c):
    if how == "buffer": await c.respond_buffer(status, data, "text/html")
    elif how == "text": await c.respond_text(text, status, "text/html")
    else: await c.respond_file(path, status, buffer_size=size)
  out = ctx.run(_http(server, [], []))
  ctx.check(out[0]["type"] == "http.response.start" and out[0]["status"] == status and all(e["type"] == "http.response.body" for e in out[1:]) and len(out) > 1, "a response is a start and a body", out)
  ctx.check([bool(e.get("more_body", False)) for e in out[1:]] == [True] * (len(out) - 2) + [False], "the end of the body is told once", out)
  total = b""
  for e in out[1:]: total = total + e["body"]
  ctx.check(total == data, "the body is what was given", (total, data))
  heads = dict(out[0]["headers"])
  ctx.check(heads[b"content-length"] == str(n).encode(), "the length told is the length sent", heads)
  ctx.check(heads[b"content-type"].split(b";")[0] == b"text/html", "the type told is the type given", heads)


@harness("C27", "websocket", shards=lambda tier: [dict(up=u, n=n) for u in ("bytes", "text") for n in range(3)], strings=True, extra=EXTRA27)
def c27_websocket(ctx, up, n):
  vals = [ctx.bytes(f"m{i}", n) if up == "bytes" else ctx.str(f"m{i}", n) for i in range(2)]
  style = ctx.choice("style", 2)
  events = [{"type": "websocket.connect"}] + [{"type": "websocket.receive", up: v, **({} if style else {"text" if up == "bytes" else "bytes": None})} for v in vals] + [{"type": "websocket.disconnect", "code": 1000}]
  out, got = [], []
  server = asgiserver.ASGIServer()
  @server.handler
  @asgiserver.websocket_context_handler
  async def _(c):
    async for m in c.messages():
      got.append(m)
      await c.send_message(m)
    got.append("end")
    await c.close()
  async def receive():
    if events: return events.pop(0)
    await asyncio.Future()
  async def send(e): out.append(e)
  ctx.run(asyncio.wait_for(server({"type": "websocket", "path": "/", "headers": []}, receive, send), 60))
  ctx.check(len(got) == 3 and _eq(ctx, got[:2], vals) and got[2] == "end", "messages arrive as what they are, in order, until the connection ends", (got, vals))
  ctx.check([e["type"] for e in out] == ["websocket.accept", "websocket.send", "websocket.send", "websocket.close"], "messages are sent as what they are", out)
  for e, v in zip(out[1:3], vals): ctx.check(_eq(ctx, e[up], v) and e["text" if up == "bytes" else "bytes"] is None, "messages are sent as what they are", e)


MIMES = ["", "text/html", "Text/HTML"]
CHARSETS = [None, "utf-8", "latin-1"]


@harness("C27", "data uri", shards=lambda tier: [dict(n=n, mime=m, cs=c, pre=p) for p in ("", "%", "%4") for n in range(0, 5 if tier == "quick" else 6) for m in range(len(MIMES)) for c in range(len(CHARSETS)) if n <= 2 or (m == 0 and c < 2)], strings=True, extra=EXTRA27)
def c27_uri(ctx, n, mime, cs, pre):
  payload = pre + ctx.str("payload", n, lo=0, hi=127)
  meta_ = MIMES[mime] + ("" if CHARSETS[cs] is None else ";charset=" + CHARSETS[cs])
  data, mt, charset = asgiserver.decode_data_uri("data:" + meta_ + "," + payload, ("x/p", "x/b"))
  ctx.check(_eq(ctx, data, _unquote_to_bytes(payload)), "the content of a data URI is its decoded payload", (payload, data))
  ctx.check(mt == (MIMES[mime].lower() or "x/p"), "the type of a data URI is the one it names", mt)
  ctx.check(charset == (CHARSETS[cs] or "utf-8"), "the character set of a data URI is the one it names", charset)


@harness("C27", "base64", shards=lambda tier: [dict(mime=m, cs=c) for m in range(len(MIMES)) for c in range(len(CHARSETS))], strings=True)
def c27_base64(ctx, mime, cs):
  raw = [b"", b"a", b"ab", b"\xff\x00\x10", b"hello, world"][ctx.choice("raw", 5)]
  meta_ = MIMES[mime] + ("" if CHARSETS[cs] is None else ";charset=" + CHARSETS[cs]) + ";base64"
  data, mt, charset = asgiserver.decode_data_uri("data:" + meta_ + "," + base64.b64encode(raw).decode(), ("x/p", "x/b"))
  ctx.check(data == raw, "the content of a data URI is its decoded payload", data)
  ctx.check(mt == (MIMES[mime].lower() or "x/b") and charset == CHARSETS[cs], "the type of a data URI is the one it names", (mt, charset))
  x = ctx.str("other", 3)
  ctx.assume(ctx.Not(x == "dat"))
  try: asgiserver.decode_data_uri(x + "a:,x")
  except ValueError: return
  ctx.check(False, "what is no data URI is refused", x)
