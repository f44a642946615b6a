import importlib.metadata
"""Wire format, framing, handshake, endpoints."""
import asyncio
import streamtasks.connection, streamtasks.net.utils     # loaded before the proxies are injected
from symx.harness import harness, meta
from props.net import stub_hash, _mods, T0, T1

meta("C08", bounds="every message kind, ids/costs/ports in [0, 2^63), sets of up to 2 (quick) / 3 (thorough) ids, payloads of 6 shapes with symbolic integers and strings of length <= 2; every value",
     outside="the msgpack C library itself (modelled by its documented canonical form and validated on sampled paths); integers outside 64 bits, which msgpack rejects",
     assumptions=["msgpack round-trips the canonical structure", "z3 is sound"])


def payload(ctx, shape):
  a, b = ctx.int("pa", -2 ** 63, 2 ** 63 - 1), ctx.int("pb", -2 ** 63, 2 ** 63 - 1)
  s = ctx.str("ps", 2)
  return {"int": lambda: a, "str": lambda: s, "dict": lambda: {"timestamp": a, "value": s}, "list": lambda: [a, [b, s], None],
          "nested": lambda: {"x": {"y": [a, {"z": b}]}, "s": s}, "bytes": lambda: {"data": b"\x00\xffabc", "n": a}, "flag": lambda: {"f": ctx.flag("pf"), "n": a}}[shape]()


def deep_same(ctx, x, y):
  """structural equality as one condition"""
  if isinstance(x, dict):
    if not isinstance(y, dict) or len(x) != len(y) or any(k not in y for k in x): return False
    return ctx.And(*[deep_same(ctx, v, y[k]) for k, v in x.items()])
  if isinstance(x, (list, tuple)):
    if not isinstance(y, (list, tuple)) or len(x) != len(y): return False
    return ctx.And(*[deep_same(ctx, a, b) for a, b in zip(x, y)])
  if isinstance(x, bool) != isinstance(y, bool) or (x is None) != (y is None): return False
  return x == y


SHAPES = ["int", "str", "dict", "list", "nested", "bytes", "flag"]


@harness("C08", "message_round_trip",
         shards=lambda tier: [dict(kind=k, n=n, m=m) for k in ("addr", "in", "out") for n in range(3 if tier == "quick" else 4) for m in range(3 if tier == "quick" else 4)]
                           + [dict(kind=k, n=0, m=0, shape=s) for k in ("data", "addressed") for s in SHAPES] + [dict(kind="control", n=0, m=0)],
         must=["the received message equals the sent one"], strings=True)
def c08(ctx, kind, n, m, shape="int"):
  from symx.modelpatch import stub_msgpack
  net, msgs, ser = _mods()
  stub_hash(ctx)
  stub_msgpack(ctx)
  L = "the received message equals the sent one"
  def ids(p, k):
    r = [ctx.int(f"{p}{i}", 0, 2 ** 63 - 1) for i in range(k)]
    for i in range(k):
      for j in range(i): ctx.assume(r[i] != r[j])
    return r
  add, rem = ids("add", n), ids("rem", m)
  costs = [ctx.int(f"cost{i}", 0, 2 ** 31) for i in range(n)]
  t, port = ctx.int("topic", 0, 2 ** 63 - 1), ctx.int("port", 0, 2 ** 63 - 1)
  raw = kind in ("data", "addressed")
  pl = payload(ctx, shape) if raw else None
  msg = {"data": lambda: msgs.TopicDataMessage(t, ser.RawData(pl)), "control": lambda: msgs.TopicControlMessage(t, ctx.flag("paused")),
         "addressed": lambda: msgs.AddressedMessage(t, port, ser.RawData(pl)), "in": lambda: msgs.InTopicsChangedMessage(set(add), set(rem)),
         "addr": lambda: msgs.AddressesChangedMessage({msgs.PricedId(a, c) for a, c in zip(add, costs)}, set(rem)),
         "out": lambda: msgs.OutTopicsChangedMessage({msgs.PricedId(a, c) for a, c in zip(add, costs)}, set(rem))}[kind]()
  got = ser.deserialize_message(ser.serialize_message(msg))
  ctx.check(type(got) is type(msg), "the kind of message survives")
  if kind == "control": ctx.check(ctx.And(got.topic == t, got.paused == msg.paused), L)
  elif raw:
    ctx.check(deep_same(ctx, pl, got.data.data), L)
    ctx.check(got.topic == t if kind == "data" else ctx.And(got.address == t, got.port == port), L)
    again = ser.deserialize_message(ser.serialize_message(got))
    ctx.check(deep_same(ctx, pl, again.data.data), "forwarding a received message keeps its payload")
  else:
    ctx.check(len(got.add) == n and len(got.remove) == m, L)
    for r in rem: ctx.check(r in got.remove, L)
    for a, c in zip(add, costs or add):
      ctx.check(a in got.add if kind == "in" else ctx.Or(*[ctx.And(p.id == a, p.cost == c) for p in got.add]), L)


@harness("C08", "priced_id_identity", must=["equal priced ids are one set member", "different ids are different"])
def c08_pid(ctx):
  net, msgs, ser = _mods()
  a, b = msgs.PricedId(ctx.int("a", 0, 3), ctx.int("ca", 0, 3)), msgs.PricedId(ctx.int("b", 0, 3), ctx.int("cb", 0, 3))
  if a.id == b.id and a.cost == b.cost:
    ctx.check(type(a).__hash__(a) == type(b).__hash__(b), "equal priced ids are one set member")
    ctx.check(a == b, "equal priced ids are one set member")
  else: ctx.check(not (a == b), "different ids are different")


@harness("C08", "payload_object", shards=[dict(shape=s) for s in ("dict", "nested", "list")] , must=["a changed payload is sent changed", "a copy is independent"], strings=True)
def c08_raw(ctx, shape):
  from symx.modelpatch import stub_msgpack
  net, msgs, ser = _mods()
  stub_msgpack(ctx)
  pl = payload(ctx, shape)
  r = ser.RawData(pl)
  ops = [ctx.pick(f"op{i}", ["serialize", "read", "none"]) for i in range(2)]
  for o in ops:
    if o == "serialize": r.serialize()
    elif o == "read": ctx.check(deep_same(ctx, pl, r.data), "reading gives the payload")
  src = ser.RawData(memoryview(bytes(r.serialize()))) if ctx.flag("received") else r
  if ctx.flag("touch"): src.update()     # announced, but nothing read or changed so far
  elif ctx.flag("look"): ctx.check(deep_same(ctx, pl, src.data), "reading gives the payload")
  c = src.copy()
  new = ctx.int("new", -2 ** 63, 2 ** 63 - 1)
  # change the payload in place, announce the change, send it
  def mutate(d):
    if isinstance(d, list): d[0] = new
    else: d["added"] = new
  src.update()
  mutate(src.data)
  got = ser.RawData(src.serialize()).data
  ctx.check(deep_same(ctx, src.data, got), "a changed payload is sent changed")
  ctx.check((got[0] if isinstance(got, list) else got["added"]) == new, "a changed payload is sent changed")
  if not isinstance(c.data, list): ctx.check("added" not in c.data, "a copy is independent")
  else: ctx.check(deep_same(ctx, c.data[1:], pl[1:]), "a copy is independent")
  if isinstance(src.data, dict):
    sh = src.shallow_copy()
    sh.data["only"] = 1
    ctx.check("only" not in src.data, "a shallow copy has its own keys")


# ---------------------------------------------------------------- C09
meta("C09", bounds="up to 2 (quick) / 3 (thorough) frames of up to 3 symbolic bytes, preceded by up to 4 / 6 symbolic garbage bytes that do not contain the start mark (alone or together with the frame); every order of 3 concurrent sends with a transport that blocks in between",
     outside="frames longer than 3 bytes (the length only scales the copy); a connection cut inside a frame ends the connection")


class _Reader:
  """a stream that delivers the given bytes; symbolic bytes possible"""
  def __init__(self, data): self.data, self.pos = data, 0
  async def readexactly(self, n):
    n = int(n)
    if self.pos + n > len(self.data): raise asyncio.IncompleteReadError(b"", n)
    r = self.data[self.pos:self.pos + n]
    self.pos += n
    return r


class _Writer:
  def __init__(self, block=False): self.parts, self.block, self.closed = [], block, False
  def write(self, b): self.parts.append(b)
  async def drain(self):
    if self.block: await asyncio.sleep(1)
  def close(self): self.closed = True
  def is_closing(self): return self.closed
  def get_extra_info(self, *a): return None


def _concat(parts):
  r = b""
  for p in parts: r = r + p
  return r


@harness("C09", "frames_survive_garbage",
         shards=lambda tier: [dict(g=g, lens=l) for g in range(5 if tier == "quick" else 7) for l in ([[0], [2], [1, 2]] if tier == "quick" else [[0], [3], [1, 2], [2, 0, 1]])],
         must=["every frame is received"])
def c09(ctx, g, lens):
  import streamtasks.connection as C
  loop = ctx.loop()
  w = _Writer()
  tx = loop.call(C.RawStreamConnection, _Reader(b""), w)
  data = [ctx.bytes(f"frame{i}", n) for i, n in enumerate(lens)]
  for d in data: loop.run_until_complete(tx.send(d))
  stream = _concat(w.parts)
  garbage = ctx.bytes("garbage", g)
  mark = C.RawStreamConnection.SYNC_WORD
  whole = garbage + stream
  for i in range(g): ctx.assume(ctx.Not(whole[i:i + len(mark)] == mark))
  rx = loop.call(C.RawStreamConnection, _Reader(whole), _Writer())
  for d in data:
    got = loop.run_until_complete(rx.recv())
    ctx.check(len(got) == len(d) and got == d, "every frame is received", (got, d))
  ctx.observe("frames", data)
  try:
    loop.run_until_complete(rx.recv())
    ctx.check(False, "the end of the stream is reported as a closed connection")
  except (C.ConnectionClosedError, EOFError): ctx.reach("the end of the stream is reported as a closed connection")


@harness("C09", "concurrent_sends", must=["concurrent sends do not mix"])
def c09_conc(ctx):
  import streamtasks.connection as C
  loop = ctx.loop()
  w = _Writer(block=True)
  tx = loop.call(C.RawStreamConnection, _Reader(b""), w)
  data = [ctx.bytes(f"frame{i}", 1 + i) for i in range(3)]
  tasks = []
  for d in data:
    tasks.append(loop.spawn(tx.send(d)))
    if ctx.flag(f"gap{len(tasks)}"): loop.advance(0.5)
  cancelled = ctx.choice("cancel", 4)
  if cancelled < 3: loop.call(tasks[cancelled].cancel)
  loop.advance(10)
  rx = loop.call(C.RawStreamConnection, _Reader(_concat(w.parts)), _Writer())
  got = []
  while True:
    try: got.append(loop.run_until_complete(rx.recv()))
    except (C.ConnectionClosedError, EOFError): break
  exp = [d for i, d in enumerate(data) if i != cancelled or len(got) == 3]
  ctx.check(len(got) == len(exp), "concurrent sends do not mix", (len(got), cancelled))
  for a, b in zip(got, exp): ctx.check(a == b, "concurrent sends do not mix")


# ---------------------------------------------------------------- C10
meta("C10", bounds="up to 2 (quick) / 3 (thorough) clients connecting to one server one after the other; each password present or absent with symbolic content of up to 2 characters; version equal or different; additional handshake fields",
     outside="transport security")


class _Pipe:
  def __init__(self): self.q = asyncio.Queue()


@harness("C10", "every_client_is_checked",
         shards=lambda tier: [dict(n=2 if tier == "quick" else 3, server_auth=a) for a in (0, 1, 2)],
         must=["accepted exactly with the right password and version", "a rejected client gets no connection", "the password is not sent to clients"], strings=True)
def c10(ctx, n, server_auth):
  from symx.modelpatch import stub_msgpack
  import streamtasks.connection as C
  stub_msgpack(ctx)
  loop = ctx.loop()

  class Conn(C.RawConnection):
    def __init__(self, rx, tx):
      super().__init__()
      self.rx, self.tx, self.closed, self.seen = rx, tx, False, []
    def close(self):
      self.closed = True
      self.tx.put_nowait(None)
    async def _send(self, data): self.tx.put_nowait(data)
    async def _recv(self):
      d = await self.rx.get()
      if d is None: raise ConnectionError("closed")
      self.seen.append(d)
      return d

  own = ".".join(importlib.metadata.version("streamtasks").split(".")[:2])
  hs = {"name": "x"}
  if server_auth: hs["auth"] = ctx.str("server_auth", server_auth)
  secret = hs.get("auth")
  for i in range(n):
    a, b = loop.call(asyncio.Queue), loop.call(asyncio.Queue)
    server, client = loop.call(Conn, a, b), loop.call(Conn, b, a)
    k = ctx.choice(f"client_auth_len{i}", 3)
    extra = {"who": i}
    if k: extra["auth"] = ctx.str(f"client_auth{i}", k)
    right = ctx.flag(f"version{i}")
    version = own if right else "0.0"
    st = loop.spawn(server.init_server(hs))
    if right: ct = loop.spawn(client.init_client(extra))
    else:
      async def wrong():
        await client.send(C.msgpack.packb({**extra, "version": version}))
        return C.msgpack.unpackb(await client.recv())
      ct = loop.spawn(wrong())
    loop.advance(1)
    ctx.check(st.done() and ct.done(), "the handshake ends")
    cauth = extra.get("auth")
    if secret is None: ok = ctx.And(right, cauth is None)
    elif cauth is None: ok = False
    else: ok = ctx.And(right, cauth == secret)
    accepted = st.exception() is None
    ctx.check(accepted == ok if isinstance(ok, bool) else (ok if accepted else ctx.Not(ok)), "accepted exactly with the right password and version", (i, accepted))
    if right: ctx.check((ct.exception() is None) == accepted, "a rejected client gets no connection")
    else: ctx.check(ct.result().get("accepted") is False, "a rejected client gets no connection")
    if not accepted: ctx.check(server.closed, "a rejected client gets no connection")
    for d in client.seen: ctx.check("auth" not in C.msgpack.unpackb(d), "the password is not sent to clients")


# ---------------------------------------------------------------- C12
meta("C12", bounds="names of up to 3 (quick) / 4 (thorough) symbolic printable characters, numeric addresses and ports 0..9999, strings of up to 4 / 5 symbolic characters",
     outside="non-ASCII names, longer strings")


@harness("C12", "endpoint_round_trip", shards=lambda tier: [dict(n=n) for n in range(0, 4 if tier == "quick" else 5)], must=["the endpoint survives"], strings=True)
def c12(ctx, n):
  import streamtasks.net.utils as U
  port = ctx.int("port", 0, 9999)
  addr = ctx.str("name", n, lo=32, hi=126) if n else ctx.int("address", 0, 9999)
  try: s = U.endpoint_to_str((addr, port))
  except ValueError:
    ctx.check(n > 0 and (":" in addr or addr[0].isdigit()), "only names that cannot be told apart are rejected")
    return
  if n: ctx.check(not (":" in addr or addr[0].isdigit()), "names that cannot be told apart are rejected")
  got = U.str_to_endpoint(s)
  ctx.check(isinstance(got[0], str) == (n > 0), "the endpoint survives")
  ctx.check(ctx.And(got[0] == addr, got[1] == port), "the endpoint survives", (got,))


@harness("C12", "endpoint_text_is_unambiguous", shards=lambda tier: [dict(n=n) for n in range(0, 5 if tier == "quick" else 6)], must=["what was parsed prints back to the same endpoint", "text without exactly one colon is rejected"], strings=True)
def c12_parse(ctx, n):
  import streamtasks.net.utils as U
  s = ctx.str("text", n, alphabet="0a:_-")
  colons = s.count(":")
  try: got = U.str_to_endpoint(s)
  except ValueError:
    ctx.reach("text without exactly one colon is rejected")
    if n == 4 and colons == 1: ctx.check(not (s[:-2].replace("0", "").replace(":", "") == "" and s[-1] == "0" and s[-2] == ":" and s[:2] == "00"), "a plain number endpoint is accepted")
    return
  ctx.check(colons == 1, "text without exactly one colon is rejected")
  if isinstance(got[0], int) or ":" not in got[0]:
    back = U.str_to_endpoint(U.endpoint_to_str(got))
    ctx.check(ctx.And(back[0] == got[0], back[1] == got[1]), "what was parsed prints back to the same endpoint")
