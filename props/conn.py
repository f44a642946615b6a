"""Connections to other nodes: reconnectors, servers, and the manager of both."""
import asyncio
import socket
import struct
import websockets
import streamtasks.client, streamtasks.utils
from streamtasks import asgi, connection as C
from streamtasks.system import connection_manager as cm
from symx.harness import harness, meta
from props.net import _mods
from props.web import Net
import json
import urllib.parse


# ---------------------------------------------------------------- the operating system
class Streams:
  """one connected pair of byte streams"""
  def __init__(self, net, key):
    self.net, self.key, self.open = net, key, True
    self.ends = []
    for _ in range(2): self.ends.append((asyncio.StreamReader(loop=net.loop), None))
    self.ends = [(self.ends[i][0], Writer(self, i)) for i in range(2)]
    net.pairs.append(self)
  def lose(self):
    """both ends notice that the connection is gone"""
    if not self.open: return
    self.open = False
    for r, _ in self.ends: self.net.loop.call_soon(r.feed_eof)
    self.net.loop.call_soon(self.net.gone)


class Writer:
  def __init__(self, pair, i): self.pair, self.i = pair, i
  def write(self, data):
    if self.pair.open: self.pair.net.loop.call_soon(self.pair.ends[1 - self.i][0].feed_data, bytes(data))
  async def drain(self):
    if not self.pair.open: raise ConnectionResetError("Connection lost")
    for _ in range(self.pair.net.slow): await asyncio.sleep(0) # waits for the other side; ends when the connection does
  def close(self): self.pair.lose()
  def is_closing(self): return not self.pair.open
  async def wait_closed(self): pass


class Server:
  """asyncio.Server of Python 3.12: closing it leaves connections alone, waiting for the close waits for them"""
  def __init__(self, net, key, cb): self.net, self.key, self.cb, self.closed = net, key, cb, False
  def close(self):
    self.closed = True
    if self.net.servers.get(self.key) is self: del self.net.servers[self.key]
  def is_serving(self): return not self.closed
  async def wait_closed(self):
    while any(p.open and p.server is self for p in self.net.pairs): await self.net.change()
  async def start_serving(self): pass
  async def serve_forever(self):
    try: await asyncio.Future()
    except asyncio.CancelledError:
      self.close()
      await self.wait_closed()
      raise
  async def __aenter__(self): return self
  async def __aexit__(self, *_):
    self.close()
    await self.wait_closed()


class WebSocket:
  def __init__(self, net, pair, i): self.net, self.pair, self.i, self.q = net, pair, i, asyncio.Queue()
  async def send(self, data):
    await asyncio.sleep(0)
    if not self.pair.open: raise websockets.ConnectionClosedError(None, None)
    self.pair.ws[1 - self.i].q.put_nowait(bytes(data))
  async def recv(self):
    if not self.pair.open and self.q.empty(): raise websockets.ConnectionClosedOK(None, None)
    d = await self.q.get()
    if d is None: raise websockets.ConnectionClosedOK(None, None)
    return d
  async def close(self, *a):
    await asyncio.sleep(0)
    self.pair.lose()


class WebPair:
  def __init__(self, net):
    self.net, self.open = net, True
    self.ws = [WebSocket(net, self, i) for i in range(2)]
    net.pairs.append(self)
  def lose(self):
    if not self.open: return
    self.open = False
    for w in self.ws: w.q.put_nowait(None)
    self.net.loop.call_soon(self.net.gone)


class WebServe:
  """websockets.serve: leaving it closes the connections and waits for their handlers"""
  def __init__(self, net, cb, key): self.net, self.cb, self.key, self.handlers, self.mine = net, cb, key, [], []
  async def __aenter__(self):
    if self.key in self.net.servers: raise OSError(98, "address in use")
    self.net.servers[self.key] = self
    return self
  async def __aexit__(self, *_):
    self.net.servers.pop(self.key, None)
    for p in self.mine: p.lose()
    if self.handlers: await asyncio.wait(self.handlers)


FAILURES = [lambda: ConnectionRefusedError(111, "Connection refused"), lambda: FileNotFoundError(2, "No such file or directory"), lambda: socket.gaierror(-3, "Temporary failure in name resolution"),
            lambda: OSError("Multiple exceptions: [Errno 111], [Errno 111]"), lambda: OSError(113, "No route to host"), lambda: TimeoutError(), lambda: ConnectionResetError(104, "reset")]


class Os:
  """the part of the operating system that connects nodes"""
  def __init__(self, ctx):
    self.ctx, self.loop = ctx, ctx.loop()
    self.servers, self.pairs, self.waiters = {}, [], []
    self.failure = FAILURES[0]
    self.attempts = 0
    self.mute, self.slow = False, 0
    async def open_(key):
      self.attempts += 1
      await asyncio.sleep(0.01)
      s = self.servers.get(key)
      if s is None: raise self.failure()
      p = Streams(self, key)
      p.server = s
      if self.mute: p.lose()
      else:
        t = self.loop.create_task(s.cb(*p.ends[1]))
        p.job = t
      return p.ends[0]
    async def serve(cb, key):
      await asyncio.sleep(0)
      if key in self.servers: raise OSError(98, "address in use")
      self.servers[key] = s = Server(self, key, cb)
      return s
    async def open_connection(host=None, port=None, **kw): return await open_((host, port))
    async def open_unix_connection(path=None, **kw): return await open_(path)
    async def start_server(cb, host=None, port=None, **kw): return await serve(cb, (host, port))
    async def start_unix_server(cb, path=None, **kw): return await serve(cb, path)
    for f in (open_connection, open_unix_connection, start_server, start_unix_server): ctx.stub(asyncio, f.__name__, f)
    async def connect(uri, **kw):
      self.attempts += 1
      await asyncio.sleep(0.01)
      s = self.servers.get(uri)
      if s is None: raise self.failure()
      p = WebPair(self)
      p.server = s
      s.mine.append(p)
      if self.mute: p.lose()
      else:
        async def handle():
          try: await s.cb(p.ws[1])
          finally: p.lose()
        s.handlers.append(self.loop.create_task(handle()))
      return p.ws[0]
    ctx.stub(C.websockets, "connect", connect)
    ctx.stub(C.websockets, "serve", lambda cb, host=None, port=None, **kw: WebServe(self, cb, f"ws://{host}:{port}"))
  async def change(self):
    f = self.loop.create_future()
    self.waiters.append(f)
    await f
  def gone(self):
    for f in self.waiters:
      if not f.done(): f.set_result(None)
    self.waiters.clear()
  def open(self): return [p for p in self.pairs if p.open]


URLS = {"unix": "unix:///s.sock", "tcp": "tcp://h:5", "ws": "ws://h:5"}


# ---------------------------------------------------------------- C47 connections are kept up and taken down
meta("C47", bounds="unix, TCP and web socket connections; one reconnector and one server; every history of up to 5 (thorough 6) of: the server starts, is stopped, the connection breaks, waiting, the reconnector is stopped; seven ways in which connecting fails and one in which the handshake is cut off; a break, a stop of the server or a stop of the reconnector at every step (0..79) of connecting; six things that are no message sent over a connection; two (thorough three) clients of one server, one leaving at every step of their arrival",
     outside="the operating system and the websockets library (modelled by their contract: byte streams in order, closing a server leaves its connections alone and waiting for it waits for them; leaving websockets.serve closes its connections), clients that are silent for ever")


class Node:
  """a switch with a client on it that owns an address and provides a topic, joined to a worker"""
  def __init__(self, net, k):
    self.net, self.k = net, k
    N = net.N
    self.switch = net.loop.call(N.Switch)
    async def f():
      a, b = N.create_queue_connection()
      await self.switch.add_link(a)
      return b
    self.end = net.loop.run_until_complete(f())
    self.heard = set()
    async def listen():
      while True:
        m = await self.end.recv()
        if isinstance(m, net.msgs.OutTopicsChangedRecvMessage): self.heard = (self.heard | {p.id for p in m.add}) - {p.id for p in m.remove}
    net.loop.spawn(listen())
    net.loop.run_until_complete(self.end.send(net.msgs.OutTopicsChangedMessage({net.msgs.PricedId(100 + k, 0)}, set())))
    net.loop.drain()
  def join(self, worker):
    async def f(): await self.switch.add_link(await worker.create_link())
    self.net.loop.run_until_complete(f())


class Conn:
  def __init__(self, ctx, kind):
    self.ctx, self.kind, self.url = ctx, kind, URLS[kind]
    self.N, self.msgs, _ = _mods()
    self.os = Os(ctx)
    self.loop = self.os.loop
    self.near, self.far = Node(self, 0), Node(self, 1)
    self.server = self.sjob = None
    self.rec = self.loop.call(C.AutoReconnector, lambda: C.connect(self.url))
    self.near.join(self.rec)
    self.job = self.loop.spawn(self.rec.run())
    self.stopped = False
  def up(self):
    self.server = self.loop.call(C.create_server, self.url)
    self.far.join(self.server)
    self.sjob = self.loop.spawn(self.server.run())
  def down(self):
    self.sjob.cancel()
    self.loop.advance(3)
    self.ctx.check(self.sjob.done(), "a server that is stopped ends", self.sjob)
    self.ctx.check(self.server.connection_count == 0, "a server counts its connections", self.server.connection_count)
    self.server = None
  def stop(self):
    self.job.cancel()
    self.stopped = True
    self.loop.advance(3)
    self.ctx.check(self.job.done(), "a reconnector that is stopped ends", self.job)
  def cut(self):
    for p in self.os.open(): p.lose()
  def settled(self):
    ctx = self.ctx
    self.loop.advance(5)
    ctx.check(self.stopped or not self.job.done(), "a reconnector keeps trying until it is stopped", self.job)
    should = self.server is not None and not self.stopped
    ctx.check(len(self.os.open()) == int(should), "connected exactly while both sides want it", (should, self.os.open()))
    ctx.check(self.rec.connected == should, "a reconnector knows whether it is connected", (should, self.rec.connected))
    if self.server is not None: ctx.check(self.server.connection_count == int(should), "a server counts its connections", self.server.connection_count)
    ctx.check((101 in self.near.heard) == should and (100 in self.far.heard) == should, "both sides see each other exactly while connected", (should, self.near.heard, self.far.heard))


@harness("C47", "histories", shards=lambda tier: [dict(kind=k, first=f, n=4 if tier == "quick" else 5) for k in URLS for f in range(4)], must=["connected exactly while both sides want it", "a reconnector keeps trying until it is stopped", "a server that is stopped ends"])
def c47(ctx, kind, first, n):
  c = Conn(ctx, kind)
  c.os.failure = FAILURES[ctx.choice("failure", len(FAILURES) if n > 4 else 3)]
  for k in range(n + 1):
    op = 0 if k == 0 and first else (first - 1 if k == 1 and first else ctx.choice(f"op{k}", 4))
    if op == 0:
      if c.server is None: c.up()
      else: c.down()
    elif op == 1: c.cut()
    elif op == 2 and not c.stopped: c.stop()
    elif op == 3: c.loop.advance(0.3)
    c.settled()


@harness("C47", "failures", shards=lambda tier: [dict(kind=k) for k in URLS], must=["connected exactly while both sides want it"])
def c47_failures(ctx, kind):
  c = Conn(ctx, kind)
  for k in range(3):
    c.os.failure = FAILURES[ctx.choice(f"failure{k}", len(FAILURES))]
    before = c.os.attempts
    c.loop.advance(1.5)
    ctx.check(c.os.attempts > before, "a reconnector keeps trying until it is stopped", c.job)
  if ctx.flag("mute"):
    c.os.mute = True
    c.up()
    c.loop.advance(4)
    ctx.check(not c.job.done() and not c.rec.connected, "a reconnector keeps trying until it is stopped", c.job)
    c.os.mute = False
  else: c.up()
  c.settled()


@harness("C47", "moments", shards=lambda tier: [dict(kind=k, what=w, lo=lo, hi=lo + 19) for k in URLS for w in ("cut", "down", "stop", "both") for lo in range(0, 80, 20)], must=["connected exactly while both sides want it"])
def c47_moments(ctx, kind, what, lo, hi):
  c = Conn(ctx, kind)
  c.os.slow = ctx.choice("slow", 2) * 6
  c.loop.advance(0.5)
  c.up()
  c.loop.next_timer() # the next attempt begins
  c.loop.next_timer() # and reaches the server
  c.loop.steps_(int(ctx.int("step", lo, hi)))
  if ctx.flag("announce"): c.loop.spawn(c.near.end.send(c.msgs.OutTopicsChangedMessage({c.msgs.PricedId(200, 0)}, set())))
  if what in ("cut", "both"): c.cut()
  if what == "down": c.down()
  if what in ("stop", "both"): c.stop()
  c.settled()


@harness("C47", "garbage", shards=lambda tier: [dict(kind=k) for k in URLS], must=["connected exactly while both sides want it"])
def c47_garbage(ctx, kind):
  """the other side sends something that is no message"""
  c = Conn(ctx, kind)
  c.up()
  c.settled()
  for k in range(2):
    end = ctx.choice(f"end{k}", 2)
    data = GARBAGE[ctx.choice(f"garbage{k}", len(GARBAGE))]
    p = c.os.open()[0]
    if kind == "ws": p.ws[end].q.put_nowait(data)
    else: c.loop.call(p.ends[1 - end][1].write, C.RawStreamConnection.SYNC_WORD + struct.pack("<L", len(data)) + data)
    c.loop.drain()
    ctx.check(not p.open, "a connection that carries no messages is closed", p)
    c.settled()


GARBAGE = [b"", b"\xc1", b"\xff\x00", b"\x01", b"\x80", b"\x91\x01"]


@harness("C47", "clients", shards=lambda tier: [dict(kind=k, n=n, lo=lo, hi=lo + 9) for k in URLS for n in ((2,) if tier == "quick" else (2, 3)) for lo in range(0, 60, 10)], must=["a server counts its connections"])
def c47_clients(ctx, kind, n, lo, hi):
  """clients that come and leave at any moment"""
  c = Conn(ctx, kind)
  c.os.slow = ctx.choice("slow", 2) * 6
  c.stop()
  c.up()
  c.loop.advance(0.5)
  made = []
  async def client():
    made.append(await C.connect(c.url))
  jobs = [c.loop.spawn(client()) for _ in range(n)]
  c.loop.next_timer()
  while not c.os.pairs: c.loop.steps_(1)
  c.loop.steps_(int(ctx.int("step", lo, hi)))
  c.os.pairs[0].lose()
  c.loop.advance(1)
  ctx.check(c.server.connection_count == len(c.os.open()) == n - 1, "a server counts its connections", (c.server.connection_count, c.os.open()))
  for l in list(made): c.loop.call(l.close)
  c.loop.advance(1)
  ctx.check(c.server.connection_count == 0 == len(c.os.open()), "a server counts its connections", (c.server.connection_count, c.os.open()))
  ctx.check(not c.sjob.done(), "a server keeps serving", c.sjob)
  c.stopped = True
  c.down()


# ---------------------------------------------------------------- C46 the connection manager
meta("C46", bounds="every history of 2 to 3 (thorough 3 to 4) of adding, adding again and removing connections and servers over four URLs each (among them ones that cannot work), other nodes appearing and vanishing, and restarts, from three starting points; a change at every step (0..59) of the notification of the one before; URLs with symbolic user, password and query",
     outside="the file behind it (dbm), the operating system (modelled as in C47), host names that are IPv6 addresses")


class Dbm(dict):
  """contract of a dbm file: bytes by name"""
  def __setitem__(self, k, v): super().__setitem__(k, bytes(v))
  def close(self): pass


CONNS = ["tcp://u:pw@h:5?cost=7&auth=key", "unix:///s.sock?auth=key", "tcp://h:5", "ftp://h:5", "tcp://h:99999"]
SERVERS = ["tcp://u:pw@0.0.0.0:7?auth=key", "unix:///t.sock", "tcp://busy:9", "ftp://h:5", "tcp://h:99999"]
WORKS = 3  # URLs that name something one can connect to


class Manager:
  def __init__(self, ctx, db=None):
    self.ctx = ctx
    self.n = Net(ctx, raw=False)
    self.n.N = self.n.net
    self.loop = self.n.loop
    self.os = Os(ctx)
    self.os.loop = self.loop
    self.db = Dbm()
    ctx.stub(cm.dbm, "open", lambda *a, **k: self.db)
    ctx.stub(cm, "get_data_sub_dir", lambda *a: "/nowhere")
    self.probe = self.n.client()
    self.end = self.n.link()
    self.heard = set()
    async def listen():
      while True:
        m = await self.end.recv()
        if isinstance(m, self.n.msgs.OutTopicsChangedRecvMessage): self.heard = (self.heard | {p.id for p in m.add}) - {p.id for p in m.remove}
    self.loop.spawn(listen())
    self.begin()
    self.far, self.remote = {}, {}
  def begin(self):
    self.m = self.loop.call(cm.ConnectionManager, [])
    async def attach():
      self.link, b = self.n.net.create_queue_connection()
      await self.n.sw.add_link(self.link)
      await self.m.switch.add_link(b)
    self.loop.run_until_complete(attach())
    self.job = self.loop.spawn(self.m.run())
    self.loop.advance(2)
    self.ctx.check(not self.job.done(), "the manager runs", self.job)
    self.app = self.loop.call(asgi.ASGIProxyApp, self.probe, self.m.client.address)
  def end_(self):
    self.job.cancel()
    self.loop.advance(3)
    self.ctx.check(self.job.done(), "the manager ends", self.job)
    self.loop.call(self.link.close) # its process is gone
    self.loop.drain()
  def http(self, method, path, body=None):
    out, events = [], [{"type": "http.request", "body": b"" if body is None else json.dumps(body).encode(), "more_body": False}]
    async def receive():
      if events: return events.pop(0)
      await asyncio.Future()
    async def send(e): out.append(e)
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": path.encode(), "query_string": b"",
             "root_path": "", "headers": [(b"content-type", b"application/json")], "client": ("a", 1), "server": ("b", 2)}
    async def f(): await asyncio.wait_for(self.app(scope, receive, send), 30)
    try: self.loop.run_until_complete(f())
    except TimeoutError: return None, None
    status = [e["status"] for e in out if e["type"] == "http.response.start"]
    return (status[0] if status else None), b"".join(e.get("body", b"") for e in out if e["type"] == "http.response.body")
  def list(self, kind):
    status, body = self.http("GET", f"/api/{kind}s")
    self.ctx.check(status == 200, "the lists can be read", (kind, status))
    r = json.loads(body)
    text = body.decode()
    self.ctx.check("pw" not in text and "key" not in text and "auth" not in text, "lists show no credentials", text)
    return r
  def up(self, key):
    """another node starts serving at a URL"""
    self.far[key] = f = Node(self.n, 1)
    w = self.loop.call(C.create_server, key)
    f.join(w)
    f.job, f.server = self.loop.spawn(w.run()), w
    self.remote[key] = f
    self.loop.advance(0.1)
  def down(self, key):
    f = self.remote.pop(key)
    f.job.cancel()
    self.loop.advance(3)


def shown(url):
  """what may be shown of a URL: scheme, host, port and path"""
  p = urllib.parse.urlsplit(url)
  return p.scheme, p.hostname, p.port, p.path


def where(url):
  p = urllib.parse.urlsplit(url)
  return (p.hostname, p.port) if p.scheme == "tcp" else p.path


@harness("C46", "changes", shards=lambda tier: [dict(kind=k, lo=lo, hi=lo + 19) for k in ("connection", "server") for lo in range(0, 60, 20)], must=["a viewer is told of the last change"])
def c46_changes(ctx, kind, lo, hi):
  """viewers hear of the last change, however close it is to the one before"""
  m = Manager(ctx)
  m.http("POST", f"/api/{kind}", {"url": (CONNS if kind == "connection" else SERVERS)[0]})
  m.loop.advance(1)
  told, events = [], asyncio.Queue()
  def state():
    x = m.list(kind)[0]
    return x["connected"] if kind == "connection" else x["connection_count"]
  events.put_nowait({"type": "websocket.connect"})
  async def send(e):
    if e["type"] == "websocket.send": told.append((e["text"], state_now(m, kind)))
    elif e["type"] != "websocket.accept": told.append((e["type"], None))
  scope = {"type": "websocket", "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "ws", "path": "/on-change", "raw_path": b"/on-change", "query_string": b"", "root_path": "", "headers": [], "client": ("a", 1), "server": ("b", 2)}
  job = m.loop.spawn(m.app(scope, events.get, send))
  m.loop.advance(0.1)
  far = "tcp://h:5?auth=key&username=u&password=pw"
  near = "tcp://0.0.0.0:7?auth=key&username=u&password=pw"
  if kind == "connection": m.up(far)
  else: m.loop.spawn(C.connect(near))
  while not m.os.pairs: m.loop.next_timer()
  while not state_now(m, kind): m.loop.steps_(1)
  m.loop.steps_(int(ctx.int("step", lo, hi)))
  again = ctx.flag("again") if kind == "server" else False
  if again: m.loop.spawn(C.connect(near))
  else: m.os.pairs[-1].lose()
  if kind == "connection" and ctx.flag("stays away"): m.down(far)
  m.loop.advance(5)
  ctx.check(told and told[-1] == (kind, state()), "a viewer is told of the last change", (told, state()))
  ctx.check(all(t[0] == kind for t in told), "a viewer is told what changed", told)
  events.put_nowait({"type": "websocket.disconnect", "code": 1000})
  m.loop.advance(1)
  ctx.check(not m.job.done(), "viewers that leave disturb nobody", job)
  ctx.check(isinstance(state(), (bool, int)), "viewers that leave disturb nobody")


def state_now(m, kind):
  name = "connected" if kind == "connection" else "connection_count"
  for v in vars(m.m).values():
    for x in v if isinstance(v, (list, tuple)) else v.values() if isinstance(v, dict) else ():
      if hasattr(getattr(x, "worker", None), name): return getattr(x.worker, name)


@harness("C46", "sanitized", shards=lambda tier: [dict(scheme=s, n=n) for s in ("tcp", "ws", "unix") for n in ((1, 2) if tier == "quick" else (1, 2, 3))], strings=True, must=["lists show no credentials"])
def c46_sanitized(ctx, scheme, n):
  """what a list shows of a URL does not depend on its credentials and query"""
  user, pw, q = (ctx.str(x, n) for x in ("user", "password", "query"))
  for s, reserved in ((user, "/?#[]:%"), (pw, "/?#[]%"), (q, "#[]%")):
    for c in s: ctx.assume(ctx.Not(ctx.Or(*(c == x for x in reserved))))
    for c in s: ctx.assume(ctx.And(c > " ", c < "\x7f"))
  rest = "h:5" if scheme != "unix" else ""
  url = f"{scheme}://" + user + ":" + pw + "@" + rest + "/p/q?auth=" + q
  m = Manager(ctx)
  d = m.loop.call(m.m.create_connection_url_data, url)
  ctx.check(d.sanitized_url in (f"{scheme}://{rest}/p/q", f"{scheme}:/p/q"), "lists show no credentials", d.sanitized_url)


OPS46 = [("add", 0), ("add", 1), ("remove", 0), ("remove", 1), ("far", None), ("client", None), ("restart", None)]


@harness("C46", "histories", shards=lambda tier: [dict(state=s, first=f, second=g, n=(3 if s == 2 else 2) if tier == "quick" else (4 if s == 2 else 3)) for s in range(3) for f in range(len(OPS46)) for g in range(len(OPS46))], must=["settled"])
def c46(ctx, state, first, second, n):
  m = Manager(ctx)
  busy = m.os.servers[("busy", 9)] = object()
  urls = [[], []]          # the model: what was added, in order
  K, U = ("connection", "server"), (CONNS, SERVERS)
  far = "tcp://h:5?auth=key&username=u&password=pw"
  clients = []
  def add(kind, i):
    url = U[kind][i]
    st, body = m.http("POST", f"/api/{K[kind]}", {"url": url})
    if url in urls[kind]: ctx.check(st == 400, "a URL is listed once", st)
    elif i < WORKS:
      ctx.check(st == 200, "a URL can be added", (url, st))
      urls[kind].append(url)
    else: ctx.check(st == 400, "a URL that cannot work is refused", (url, st))
  def remove(kind, i):
    here = m.list(K[kind])
    url = U[kind][i]
    if url in urls[kind]:
      st, _ = m.http("DELETE", f"/api/{K[kind]}/" + here[urls[kind].index(url)]["id"])
      ctx.check(st == 200, "what was added can be removed", (url, st))
      urls[kind].remove(url)
    else: ctx.check(m.http("DELETE", f"/api/{K[kind]}/nothing")[0] == 404, "there is nothing to remove", url)
  def settled():
    m.loop.advance(4)
    ctx.check(not m.job.done(), "the manager runs", m.job)
    serving = {where(u): u for u in urls[1] if where(u) != ("busy", 9)}
    ctx.check(set(m.os.servers) == {("busy", 9)} | set(serving) | ({("h", 5)} if m.remote else set()), "serves exactly at the servers' URLs", (list(m.os.servers), urls[1]))
    accepted = [u for u in urls[0] if where(u) == ("h", 5) and u != "tcp://h:5"] if m.remote else []
    mine = [p for p in m.os.open() if p.server.key == ("h", 5)]
    ctx.check(len(mine) == len(accepted), "connected exactly to the connections' URLs", (urls[0], mine))
    ctx.check((101 in m.heard) == bool(accepted), "what comes over a connection is announced exactly while it is there", (accepted, m.heard))
    links = len(m.m.switch.link_manager.links)
    ctx.check(links == 2 + len(urls[0]) + len(serving), "nothing is left of what was removed", (links, urls))
    for kind in (0, 1):
      here = m.list(K[kind])
      ctx.check([shown(x["url"]) for x in here] == [shown(u) for u in urls[kind]], "the lists show what was added", (here, urls[kind]))
      for x, u in zip(here, urls[kind]):
        if kind == 0: ctx.check(x["running"] is True and x["connected"] is (u in accepted), "the lists show what is connected", (x, accepted))
        else: ctx.check(x["running"] is (where(u) in serving) and x["connection_count"] == sum(1 for p in clients if p.open and p.server.key == where(u)), "the lists show what is running and how many are connected", (x, clients))
      ctx.check(json.loads(m.db.get(K[kind], b"[]")) == urls[kind], "what was added is saved", m.db)
    ctx.reach("settled")
  def do(k, op, kind):
    if op == "add": add(kind, ctx.choice(f"url{k}", 5))
    elif op == "remove": remove(kind, ctx.choice(f"url{k}", WORKS))
    elif op == "far":
      if m.remote: m.down(far)
      else: m.up(far)
    elif op == "client":
      if clients and clients[-1].open: clients[-1].lose()
      elif SERVERS[0] in urls[1]:
        m.loop.run_until_complete(C.connect("tcp://0.0.0.0:7?auth=key&username=u&password=pw"))
        clients.append(m.os.pairs[-1])
    elif op == "restart":
      m.end_()
      ctx.check(not [p for p in m.os.open()] and set(m.os.servers) <= {("h", 5), ("busy", 9)}, "nothing is left when the manager ended", (m.os.open(), m.os.servers))
      before = m.os.attempts
      m.loop.advance(5)
      ctx.check(m.os.attempts == before, "nothing is left when the manager ended", m.os.attempts)
      m.begin()
  if state: add(0, 0)
  if state: add(1, 0)
  if state == 2: m.up(far)
  for k in range(n):
    do(k, *OPS46[(first, second)[k] if k < 2 else ctx.choice(f"op{k}", len(OPS46))])
    settled()
