"""numpy arrays with symbolic elements.

The shape, the element type and all views are numpy's own (the elements live in an object array);
element arithmetic follows the element type: integers wrap, floats are exact reals (rounding is not modelled),
conversions of floats to integers truncate and, out of range, do what the x86 instructions numpy compiles to do."""
import math
from fractions import Fraction
import numpy as np
import z3
from symx import values as V


def exact(x):
  """the value of an element as an int / Fraction / symbolic term"""
  if V.is_sym(x): return x._num() if type(x) is V.SymBool else x
  if isinstance(x, (bool, np.bool_)): return int(x)
  if isinstance(x, (int, np.integer)): return int(x)
  if isinstance(x, Fraction): return x
  f = float(x)
  if math.isnan(f) or math.isinf(f): return f
  return Fraction(f)


def wrap(x, dt):
  info = np.iinfo(dt)
  lo, n = int(info.min), int(info.max) - int(info.min) + 1
  if not V.is_sym(x): return (int(x) - lo) % n + lo
  e = z3.simplify(x.e)
  return V.mk_int((e - lo) % n + lo)


def within(x, lo, hi): return V.sym_and(x >= lo, x <= hi)


def cast(x, frm, to):
  """an element of type `frm` as an element of type `to`"""
  to = np.dtype(to)
  if to.kind == "f":
    return x if not isinstance(x, V.SymInt) else V.SymReal(z3.ToReal(x.e))
  if frm.kind in "iub":
    if np.can_cast(frm, to): return x
    return wrap(x, to)
  if isinstance(x, float): x = None      # nan, inf
  t = None if x is None else x.__trunc__() if V.is_sym(x) else math.trunc(x)
  wide = np.dtype(np.int64) if to.itemsize == 8 or to == np.uint32 else np.dtype(np.int32)
  lo, hi = int(np.iinfo(wide).min), int(np.iinfo(wide).max)
  if t is None or not bool(within(t, lo, hi)): t = lo
  return t if to == wide else wrap(t, to)


def scalar_type(x):
  if type(x) is V.SymBool: return True
  if type(x) is V.SymInt: return 1
  if V.is_sym(x) or isinstance(x, Fraction): return 1.0
  return x


class SymArray:
  __array_ufunc__ = None
  __array_priority__ = 1000
  __slots__ = ("a", "dtype")
  def __init__(self, a, dtype): self.a, self.dtype = a, np.dtype(dtype)
  # shape
  @property
  def shape(self): return self.a.shape
  @property
  def size(self): return self.a.size
  @property
  def ndim(self): return self.a.ndim
  @property
  def nbytes(self): return self.a.size * self.dtype.itemsize
  @property
  def itemsize(self): return self.dtype.itemsize
  @property
  def T(self): return SymArray(self.a.T, self.dtype)
  def __len__(self): return len(self.a)
  def _v(self, a): return SymArray(a, self.dtype) if isinstance(a, np.ndarray) else a
  def reshape(self, *s, **kw): return self._v(self.a.reshape(*[tuple(map(int, x)) if isinstance(x, (tuple, list)) else int(x) for x in s], **kw))
  def flatten(self, *a): return self._v(self.a.flatten(*a))
  def ravel(self, *a): return self._v(self.a.ravel(*a))
  def squeeze(self, *a, **kw): return self._v(self.a.squeeze(*a, **kw))
  def transpose(self, *a): return self._v(self.a.transpose(*a))
  def copy(self, *a): return self._v(self.a.copy())
  def __getitem__(self, k): return self._v(self.a[_key(k)])
  def __setitem__(self, k, v):
    k = _key(k)
    if isinstance(v, SymArray): self.a[k] = v.astype(self.dtype).a
    elif isinstance(v, np.ndarray): self.a[k] = lift(v).astype(self.dtype).a
    else: self.a[k] = cast(exact(v), np.dtype(np.result_type(scalar_type(v))), self.dtype)
  def __iter__(self):
    for x in self.a: yield self._v(x)
  def tolist(self): return self.a.tolist()
  # elements
  def _map(self, f, dtype):
    out = np.empty(self.a.shape, dtype=object)
    flat, src = out.reshape(-1), self.a.reshape(-1)
    for i in range(src.size): flat[i] = f(src[i])
    return SymArray(out, dtype)
  def astype(self, dt, **kw):
    dt = np.dtype(dt)
    return self._map(lambda x: cast(x, self.dtype, dt), dt)
  def _bin(self, o, f, rev=False, truediv=False, dtype=None):
    if isinstance(o, (list, tuple)): o = lift(np.array(o))
    if isinstance(o, np.ndarray): o = lift(o)
    if isinstance(o, SymArray):
      dt, od = np.result_type(self.dtype, o.dtype), o.a
    else:
      if not (V.is_sym(o) or isinstance(o, (int, float, Fraction, np.generic))): return NotImplemented
      dt = np.result_type(np.empty(1, self.dtype), scalar_type(o))
      v = exact(o)
      od = np.empty((), dtype=object)
      od[()] = v
    if truediv: dt = np.result_type(dt, np.float64) if dt.kind in "iub" else dt
    x, y = np.broadcast_arrays(self.a, od)
    out = np.empty(x.shape, dtype=object)
    xs, ys, flat = x.reshape(-1), y.reshape(-1), out.reshape(-1)
    for i in range(xs.size):
      p, q = (ys[i], xs[i]) if rev else (xs[i], ys[i])
      flat[i] = f(p, q)
    if dtype is not None: return SymArray(out, dtype)
    r = SymArray(out, dt)
    return r._map(lambda v: wrap(v, dt), dt) if dt.kind in "iu" else r
  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
  def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
  def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
  def __truediv__(self, o): return self._bin(o, _div, False, True)
  def __rtruediv__(self, o): return self._bin(o, _div, True, True)
  def __neg__(self): return 0 - self
  def __iadd__(self, o): return self._into(self + o)
  def __isub__(self, o): return self._into(self - o)
  def __imul__(self, o): return self._into(self * o)
  def _into(self, r):
    if not np.can_cast(r.dtype, self.dtype, "same_kind"): raise TypeError("Cannot cast ufunc output")
    self.a[...] = r.astype(self.dtype).a
    return self
  def __abs__(self): return self._map(lambda x: abs(x) if self.dtype.kind != "i" else wrap(abs(x), self.dtype), self.dtype)
  def __lt__(self, o): return self._bin(o, lambda a, b: a < b, dtype=bool)
  def __gt__(self, o): return self._bin(o, lambda a, b: a > b, dtype=bool)
  def mean(self, axis=None, **kw):
    if axis is not None: raise V.Unsupported("mean along an axis")
    v = self.a.reshape(-1)
    if v.size == 0: return math.nan
    t = 0
    for x in v: t = t + x
    return _div(t, v.size)
  def sum(self, axis=None, dtype=None, **kw):
    if axis is not None: return _axis_sum(self, axis)
    dt = np.dtype(dtype) if dtype is not None else np.dtype(np.int64 if self.dtype.kind == "i" else np.uint64) if self.dtype.kind in "iu" and self.dtype.itemsize < 8 else self.dtype
    t = 0
    for x in self.a.reshape(-1): t = t + x
    return wrap(t, dt) if dt.kind in "iu" else t
  def clip(self, lo=None, hi=None, **kw): return clip(self, lo, hi)
  def max(self): return _fold(self, lambda a, b: V.truth(a > b))
  def min(self): return _fold(self, lambda a, b: V.truth(a < b))
  def tobytes(self, order="C"):
    return BUFFERS.put(self.a.flatten("F" if order == "F" else "C"), self.dtype)
  def __repr__(self): return f"<SymArray {self.a.tolist()} {self.dtype}>"


def _fold(x, better):
  it = list(x.a.reshape(-1))
  r = it[0]
  for v in it[1:]:
    if better(v, r): r = v
  return r


def _axis_sum(x, axis):
  t = None
  n = x.a.shape[axis]
  for i in range(n):
    part = SymArray(np.take(x.a, i, axis), x.dtype)
    if part.dtype.kind in "iu" and part.dtype.itemsize < 8: part = part.astype(np.int64 if part.dtype.kind == "i" else np.uint64)
    t = part if t is None else t + part
  return t


def _div(a, b):
  a, b = exact(a), exact(b)
  if not V.is_sym(a) and not V.is_sym(b):
    if b == 0: return math.nan if a == 0 else math.copysign(math.inf, a)
    return Fraction(a) / Fraction(b)
  if not V.is_sym(a): a = Fraction(a)
  return V._truediv(a if type(a) is not V.SymInt else V.SymReal(z3.ToReal(a.e)), b)


def _key(k):
  if isinstance(k, tuple): return tuple(_key(x) for x in k)
  if isinstance(k, slice): return slice(*[None if v is None else int(v) for v in (k.start, k.stop, k.step)])
  if V.is_sym(k): return int(k)
  return k


def lift(x):
  if isinstance(x, SymArray): return x
  x = np.asarray(x)
  out = np.empty(x.shape, dtype=object)
  flat, src = out.reshape(-1), x.reshape(-1)
  for i in range(src.size): flat[i] = exact(src[i])
  return SymArray(out, x.dtype)


def array(items, dtype):
  """an array of the given (symbolic) elements"""
  a = np.empty(len(items), dtype=object)
  for i, v in enumerate(items): a[i] = v
  return SymArray(a, dtype)


class Buffers:
  """the bytes of symbolic arrays: tokens of the length of the real bytes, so that they pass through messages"""
  def __init__(self): self.table, self.n = {}, 0
  def put(self, flat, dtype):
    self.n += 1
    size = flat.size * dtype.itemsize
    tag = b"\xc1sb%d\xc1" % self.n
    tok = tag.ljust(size, b"\xc1")
    self.table[tok] = (flat.copy(), dtype)
    return tok
  def get(self, tok, dtype):
    tok, dtype = bytes(tok), np.dtype(dtype)
    if tok not in self.table: return lift(np.frombuffer(tok, dtype=dtype))
    flat, d = self.table[tok]
    if d == dtype: return SymArray(flat.copy(), d)
    if d.kind not in "iu" or dtype.kind not in "iu": raise V.Unsupported("reading floats of another format")
    if (flat.size * d.itemsize) % dtype.itemsize: raise ValueError("buffer size must be a multiple of element size")
    bs = []
    for v in flat:
      for k in range(d.itemsize):
        bs.append(v // (1 << 8 * k) % 256)
    out = []
    for i in range(0, len(bs), dtype.itemsize):
      t = 0
      for k in range(dtype.itemsize): t = t + bs[i + k] * (1 << 8 * k)
      out.append(wrap(t, dtype))
    return array(out, dtype)


BUFFERS = Buffers()


def clip(x, lo, hi):
  dt = np.result_type(np.empty(1, x.dtype), *[scalar_type(v) for v in (lo, hi) if v is not None])
  b = [None if v is None else v if V.is_sym(v) else exact(dt.type(v)) for v in (lo, hi)]
  def f(v):
    if b[0] is not None: v = _pick(v < b[0], b[0], v)
    if b[1] is not None: v = _pick(v > b[1], b[1], v)
    return v
  return x.astype(dt)._map(f, dt)


def _pick(c, a, b):
  if not V.is_sym(c): return a if c else b
  if any(type(v) in (V.SymReal, Fraction) for v in (a, b)): return V.SymReal(z3.If(c.e, V._real_term(a), V._real_term(b)))
  return V.mk_int(z3.If(c.e, V._int_term(a), V._int_term(b)))


def interp(x, xp, fp):
  """piecewise linear interpolation at concrete positions"""
  x, xp, fp = lift(x), lift(xp), lift(fp)
  xs, ps, fs = x.a.reshape(-1), list(xp.a), list(fp.a)
  out = []
  for v in xs:
    if v <= ps[0]: out.append(fs[0] * Fraction(1))
    elif v >= ps[-1]: out.append(fs[-1] * Fraction(1))
    else:
      j = max(i for i in range(len(ps)) if ps[i] <= v)
      w = (v - ps[j]) / (ps[j + 1] - ps[j])
      out.append(fs[j] * Fraction(1) + (fs[j + 1] - fs[j]) * w)
  return array(out, np.float64)


class SymNP:
  ndarray = np.ndarray
  def __getattr__(self, name):
    real = getattr(np, name)
    if not callable(real) or isinstance(real, type): return real
    def f(*a, **kw):
      if any(isinstance(x, SymArray) or V.is_sym(x) or isinstance(x, (list, tuple)) and any(isinstance(y, SymArray) or V.is_sym(y) for y in x) for x in a): raise V.Unsupported("numpy." + name)
      return real(*a, **kw)
    return f
  def frombuffer(self, buf, dtype=float, count=-1, offset=0):
    if count != -1 or offset != 0: raise V.Unsupported("frombuffer with count or offset")
    return BUFFERS.get(buf, dtype)
  def zeros(self, shape, dtype=float, order="C"): return lift(np.zeros(_shape(shape), dtype=dtype))
  def ones(self, shape, dtype=float, order="C"): return lift(np.ones(_shape(shape), dtype=dtype))
  def full(self, shape, v, dtype=None):
    r = self.zeros(shape, dtype or np.result_type(scalar_type(v)))
    r[...] = v
    return r
  def empty(self, shape, dtype=float, order="C"): return lift(np.zeros(_shape(shape), dtype=dtype))
  def empty_like(self, a, dtype=None, shape=None): return self.empty(a.shape if shape is None else shape, dtype or a.dtype)
  def zeros_like(self, a, dtype=None, shape=None): return self.zeros(a.shape if shape is None else shape, dtype or a.dtype)
  def array(self, x, dtype=None):
    if isinstance(x, SymArray): return x.copy() if dtype is None else x.astype(dtype)
    if isinstance(x, (list, tuple)) and any(V.is_sym(v) for v in x): return array([exact(v) for v in x], dtype or np.float64)
    return np.array(x, dtype=dtype)
  def asarray(self, x, dtype=None): return x if isinstance(x, SymArray) and dtype in (None, x.dtype) else self.array(x, dtype)
  def concatenate(self, parts, axis=0):
    parts = [lift(p) for p in parts]
    dt = np.result_type(*[p.dtype for p in parts])
    return SymArray(np.concatenate([p.astype(dt).a for p in parts], axis=axis), dt)
  def pad(self, x, width, mode="constant", **kw):
    if mode != "constant" or kw: raise V.Unsupported("np.pad")
    x = lift(x)
    out = np.pad(x.a, width)
    return SymArray(out, x.dtype)
  def linspace(self, a, b, num=50, **kw): return lift(np.linspace(int(a) if V.is_sym(a) else a, int(b) if V.is_sym(b) else b, num=int(num), **kw))
  def interp(self, x, xp, fp): return interp(x, xp, fp)
  def clip(self, x, lo, hi): return clip(lift(x), lo, hi)
  def abs(self, x): return abs(x) if V.is_sym(x) else abs(lift(x))
  absolute = fabs = abs
  def mean(self, x, axis=None): return lift(x).mean(axis)
  def sum(self, x, axis=None, dtype=None): return lift(x).sum(axis, dtype)
  def square(self, x): return lift(x) * lift(x) if not V.is_sym(x) else x * x
  def add(self, a, b, dtype=None):
    a, b = lift(a), lift(b)
    return a + b if dtype is None else a.astype(dtype) + b.astype(dtype)
  def subtract(self, a, b, dtype=None):
    a, b = lift(a), lift(b)
    return a - b if dtype is None else a.astype(dtype) - b.astype(dtype)
  def multiply(self, a, b): return lift(a) * (b if V.is_sym(b) else lift(b))
  def divide(self, a, b): return lift(a) / (b if V.is_sym(b) else lift(b))
  true_divide = divide
  def minimum(self, a, b): return lift(a)._bin(b, lambda x, y: _pick(V.sym_not(y < x) if V.is_sym(y < x) else not y < x, x, y))
  def maximum(self, a, b): return lift(a)._bin(b, lambda x, y: _pick(V.sym_not(y > x) if V.is_sym(y > x) else not y > x, x, y))
  def max(self, x): return lift(x).max()
  def min(self, x): return lift(x).min()
  def round(self, x, *a): return lift(x)._map(lambda v: round(v) * Fraction(1) if lift(x).dtype.kind == "f" else v, lift(x).dtype)
  rint = round
  def reshape(self, x, s, **kw): return lift(x).reshape(s, **kw)
  def ravel(self, x): return lift(x).ravel()
  def sqrt(self, x):
    if isinstance(x, (SymArray, np.ndarray)): return lift(x)._map(self.sqrt, np.float64)
    x = exact(x)
    if not V.is_sym(x): return math.nan if x < 0 or x != x else math.sqrt(x)
    if V.truth(x < 0): return math.nan
    return V.uf_real("np_sqrt", x)


def _shape(s): return tuple(int(x) for x in s) if isinstance(s, (tuple, list)) else int(s)
