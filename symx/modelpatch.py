"""pydantic models holding symbolic values.

pydantic-core is C/Rust code and only sees concrete values: every symbolic leaf is replaced by a unique
stand-in of the same type, the real validator / serializer runs, and the stand-ins are replaced back
(an int that pydantic turned into a float becomes the real number of the same value)."""
import contextlib
import copy
import dataclasses
import pydantic
import z3
from symx import values as V

INT_BASE = 7_301_000_000_000


class Holes:
  def __init__(self): self.n, self.num, self.txt = 0, {}, {}
  def put(self, v):
    t = type(v)
    if t is V.SymBool: return bool(v)
    self.n += 1
    if t is V.SymInt: k = INT_BASE + self.n
    elif t in (V.SymReal, V.SymFloat): k = INT_BASE + self.n + 0.5
    elif t is V.SymStr:
      k = f"sym_hole_{self.n}_"
      self.txt[k] = v
      return k
    elif t is V.SymBytes:
      k = b"\x00sym_hole_%d_" % self.n
      self.txt[k] = v
      return k
    else: raise V.Unsupported("hole for " + t.__name__)
    self.num[k] = v
    return k
  def out(self, x): return walk(x, lambda v: self.put(v) if V.is_sym(v) else v)
  def back(self, x): return walk(x, self._back1)
  def _back1(self, v):
    t = type(v)
    if t is int: return self.num.get(v, v)
    if t is float and v in self.num:
      s = self.num[v]
      if type(s) is V.SymInt: return V.SymReal(z3.ToReal(s.e)) if V.TRUEDIV["mode"] != "float" else V.SymFloat(V._fp_term(s))
      return s
    if t in (str, bytes): return self.txt.get(v, v)
    return v


def walk(x, f):
  if V.is_sym(x): return f(x)
  t = type(x)
  if t is dict: return {walk(k, f): walk(v, f) for k, v in x.items()}
  if t in (list, tuple, set, frozenset): return t(walk(v, f) for v in x)
  if isinstance(x, pydantic.BaseModel):
    new = x.model_copy()
    object.__setattr__(new, "__dict__", {k: walk(v, f) for k, v in x.__dict__.items()})
    if x.__pydantic_extra__ is not None: object.__setattr__(new, "__pydantic_extra__", {k: walk(v, f) for k, v in x.__pydantic_extra__.items()})
    return new
  if dataclasses.is_dataclass(x) and not isinstance(x, type) and t.__module__.startswith("streamtasks.media"):
    new = copy.copy(x)
    for k in dataclasses.fields(x): object.__setattr__(new, k.name, walk(getattr(x, k.name), f))
    return new
  return f(x)


def deep(x):
  if V.is_sym(x): return True
  t = type(x)
  if t is dict: return any(deep(k) or deep(v) for k, v in x.items())
  if t in (list, tuple, set, frozenset): return any(deep(v) for v in x)
  if isinstance(x, pydantic.BaseModel): return deep(x.__dict__) or deep(x.__pydantic_extra__ or {})
  if dataclasses.is_dataclass(x) and not isinstance(x, type) and t.__module__.startswith("streamtasks.media"): return deep(x.__dict__)
  return False


@contextlib.contextmanager
def patched_models():
  B, A = pydantic.BaseModel, pydantic.TypeAdapter
  o_init, o_validate, o_dump, o_adapt = B.__init__, B.__dict__["model_validate"], B.model_dump, A.validate_python

  def init(self, /, **data):
    if not deep(data): return o_init(self, **data)
    h = Holes()
    o_init(self, **h.out(data))
    for k, v in list(self.__dict__.items()): self.__dict__[k] = h.back(v)
  init.__pydantic_base_init__ = True     # BaseModel.__init__ is special to pydantic-core

  def validate(cls, obj, **kw):
    if not deep(obj): return o_validate.__func__(cls, obj, **kw)
    h = Holes()
    m = o_validate.__func__(cls, h.out(obj), **kw)
    for k, v in list(m.__dict__.items()): m.__dict__[k] = h.back(v)
    return m

  def dump(self, **kw):
    if not deep(self): return o_dump(self, **kw)
    h = Holes()
    return h.back(o_dump(h.out(self), **kw))

  def adapt(self, obj, **kw):
    if not deep(obj): return o_adapt(self, obj, **kw)
    h = Holes()
    return h.back(o_adapt(self, h.out(obj), **kw))

  B.__init__, B.model_validate, B.model_dump, A.validate_python = init, classmethod(validate), dump, adapt
  try: yield
  finally: B.__init__, B.model_validate, B.model_dump, A.validate_python = o_init, o_validate, o_dump, o_adapt


# ---------------------------------------------------------------- msgpack
class SymMsgpack:
  """stand-in for msgpack in symbolic runs: packing yields an opaque byte token for the canonical structure
  (what msgpack would give back: sequences become lists, buffers become bytes); everything else is rejected as msgpack does"""
  def __init__(self):
    import msgpack
    self._real, self._table, self._n = msgpack, {}, 0
  def __getattr__(self, name): return getattr(self._real, name)
  def _canon(self, x):
    if V.is_sym(x) or x is None or isinstance(x, (bool, int, float, str, bytes)): return x
    if isinstance(x, (bytearray, memoryview)): return bytes(x)
    if isinstance(x, dict): return {self._canon(k): self._canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [self._canon(v) for v in x]
    raise TypeError(f"can not serialize {type(x).__name__!r} object")
  def packb(self, x, **kw):
    self._n += 1
    tok = b"\xc1symx-msgpack-%d" % self._n      # 0xc1 is never a valid msgpack document
    self._table[tok] = self._canon(x)
    return tok
  def unpackb(self, raw, **kw):
    raw = bytes(raw)
    if raw not in self._table: return self._real.unpackb(raw, **kw)
    c = self._canon(self._table[raw])
    if isinstance(c, dict):
      for k in c:
        if not isinstance(k, (str, bytes)): raise ValueError(f"{type(k)} is not allowed for map key when strict_map_key=True")
    return c


def stub_msgpack(ctx):
  if not ctx.symbolic: return
  import streamtasks.net.serialization as ser
  import streamtasks.connection as conn
  m = SymMsgpack()
  ctx.stub(ser, "msgpack", m)
  ctx.stub(conn, "msgpack", m)
  return m


# ---------------------------------------------------------------- json
class SymJson:
  """stand-in for json in symbolic runs: a document with symbolic leaves is an opaque token for its structure"""
  def __init__(self):
    import json
    self._real, self._table, self._n = json, {}, 0
  def __getattr__(self, name): return getattr(self._real, name)
  def dumps(self, x, **kw):
    if not deep(x): return self._real.dumps(x, **kw)
    self._n += 1
    tok = '"symx-json-%d"' % self._n
    self._table[tok] = walk(x, lambda v: v)
    return tok
  def document(self, s):
    """the document a token stands for, None when it is none"""
    k = bytes(s).decode() if isinstance(s, (bytes, bytearray, memoryview)) else s
    return walk(self._table[k], lambda v: v) if k in self._table else None
  def loads(self, s, **kw):
    k = bytes(s).decode() if isinstance(s, (bytes, bytearray, memoryview)) else s
    if k in self._table: return walk(self._table[k], lambda v: v)
    return self._real.loads(s, **kw)


def stub_json(ctx, *modules):
  import json
  if not ctx.symbolic: return json
  j = SymJson()
  for m in modules:
    if hasattr(m, "json"): ctx.stub(m, "json", j)
  o, v, t = pydantic.BaseModel.model_dump_json, pydantic.BaseModel.__dict__["model_validate_json"], pydantic.TypeAdapter.dump_json
  ctx.stub(pydantic.BaseModel, "model_dump_json", lambda self, **kw: o(self, **kw) if not deep(self) else j.dumps(self.model_dump(mode="json")))
  def validate(cls, raw, **kw):
    d = j.document(raw)
    return v.__func__(cls, raw, **kw) if d is None else cls.model_validate(d)
  ctx.stub(pydantic.BaseModel, "model_validate_json", classmethod(validate))
  def dump(self, x, **kw):
    if not deep(x): return t(self, x, **kw)
    h = Holes()
    return j.dumps(h.back(self.dump_python(h.out(x), mode="json"))).encode()
  ctx.stub(pydantic.TypeAdapter, "dump_json", dump)
  return j
