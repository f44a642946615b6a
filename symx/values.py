"""z3-backed proxies for Python scalars, strings and byte strings."""
import math
import struct as _struct
from fractions import Fraction
import z3
from symx.core import Engine, Unsupported, PathAbort

FP64 = z3.Float64()
RNE = z3.RNE()
REALIZE_CAP = 4096


def eng():
  e = Engine.current
  if e is None: raise Unsupported("symbolic value used outside of symbolic execution")
  return e


def model_value(m, c, kind):
  v = m.eval(c, model_completion=True)
  if kind == "int": return v.as_long()
  if kind == "bv": return v.as_long()
  if kind == "bool": return z3.is_true(v)
  if kind == "real": return str(v.as_fraction()) if z3.is_rational_value(v) else str(v.approx(20).as_fraction())
  if kind == "float": return fp_value(v).hex() if not math.isnan(fp_value(v)) else "nan"
  raise ValueError(kind)


def fp_value(v):
  if z3.is_fp(v):
    if v.isNaN(): return math.nan
    if v.isInf(): return -math.inf if v.isNegative() else math.inf
    if v.isZero(): return -0.0 if v.isNegative() else 0.0
    bv = z3.simplify(z3.fpToIEEEBV(v))
    return _struct.unpack("<d", bv.as_long().to_bytes(8, "little"))[0]
  raise ValueError(v)


def float_to_fp(f):
  if math.isnan(f): return z3.fpNaN(FP64)
  if math.isinf(f): return z3.fpPlusInfinity(FP64) if f > 0 else z3.fpMinusInfinity(FP64)
  bits = _struct.unpack("<Q", _struct.pack("<d", f))[0]
  return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), FP64))


def is_sym(x): return isinstance(type(x), type) and issubclass(type(x), Sym)


def sym_deep(x):
  if is_sym(x): return True
  if type(x) in (list, tuple, set, frozenset): return any(sym_deep(v) for v in x)
  if type(x) is dict: return any(sym_deep(v) for kv in x.items() for v in kv)
  return False


class Sym: __slots__ = ()


def wrap_bool(e):
  e = z3.simplify(e)
  if z3.is_true(e): return True
  if z3.is_false(e): return False
  return SymBool(e)


def to_z3_bool(x):
  if type(x) is SymBool: return x.e
  return z3.BoolVal(bool(x))


class SymBool(Sym):
  __slots__ = ("e",)
  def __init__(self, e): self.e = e
  __class__ = property(lambda self: bool)
  def __bool__(self): return eng().branch(self.e)
  def __and__(self, o): return wrap_bool(z3.And(self.e, to_z3_bool(o)))
  __rand__ = __and__
  def __or__(self, o): return wrap_bool(z3.Or(self.e, to_z3_bool(o)))
  __ror__ = __or__
  def __xor__(self, o): return wrap_bool(z3.Xor(self.e, to_z3_bool(o)))
  __rxor__ = __xor__
  def __invert__(self): return ~int(bool(self))
  def __eq__(self, o):
    if isinstance(o, bool): return wrap_bool(self.e == to_z3_bool(o))
    if isinstance(o, (int, float)): return as_int(self) == o
    return False
  def __ne__(self, o): return sym_not(self == o)
  def __hash__(self): return hash(bool(self))
  def __int__(self): return int(bool(self))
  __index__ = __int__
  def __float__(self): return float(bool(self))
  def _num(self): return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
  def __add__(self, o): return self._num() + o
  __radd__ = __add__
  def __sub__(self, o): return self._num() - o
  def __rsub__(self, o): return o - self._num()
  def __mul__(self, o): return self._num() * o
  __rmul__ = __mul__
  def __lt__(self, o): return self._num() < o
  def __le__(self, o): return self._num() <= o
  def __gt__(self, o): return self._num() > o
  def __ge__(self, o): return self._num() >= o
  def __repr__(self): return f"<SymBool {self.e}>"
  def __deepcopy__(self, memo): return self
  def __copy__(self): return self


def sym_not(x):
  if type(x) is SymBool: return wrap_bool(z3.Not(x.e))
  return not x


def sym_and(*xs):
  return wrap_bool(z3.And(*[to_z3_bool(x) for x in xs])) if xs else True


def sym_or(*xs):
  return wrap_bool(z3.Or(*[to_z3_bool(x) for x in xs])) if xs else False


def implies(a, b): return sym_or(sym_not(a), b)


def as_int(x):
  if type(x) is SymBool: return x._num()
  return x


def _int_term(o):
  """z3 Int term for an int-like, or None"""
  t = type(o)
  if t is SymInt: return o.e
  if t is SymBool: return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
  if t is int or t is bool: return z3.IntVal(int(o))
  if isinstance(o, int) and not is_sym(o): return z3.IntVal(int(o))
  return None


def _real_term(o):
  t = type(o)
  if t is SymReal: return o.e
  i = _int_term(o)
  if i is not None: return z3.ToReal(i)
  if t is Fraction: return z3.RealVal(f"{o.numerator}/{o.denominator}")
  if t is float and math.isfinite(o):
    f = Fraction(o)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")
  return None


def _fp_term(o):
  t = type(o)
  if t is SymFloat: return o.e
  if t is float: return float_to_fp(o)
  if t is int or t is bool:
    try: return float_to_fp(float(o))
    except OverflowError: raise
  if t is SymInt: return z3.fpRealToFP(RNE, z3.ToReal(o.e), FP64)
  if t is SymBool: return z3.If(o.e, float_to_fp(1.0), float_to_fp(0.0))
  if isinstance(o, float) and not is_sym(o): return float_to_fp(float(o))
  return None


def mk_int(e):
  e = z3.simplify(e)
  return SymInt(e)


def realize_int(e, cap=REALIZE_CAP):
  """enumerate the feasible values of an Int term (forks)"""
  g = eng()
  e = z3.simplify(e)
  if z3.is_int_value(e): return e.as_long()
  g.stats["realizations"] += 1
  for _ in range(cap):
    # deterministic candidate: recorded in the trail so that re-execution replays the same candidate
    i = g.pos
    if i < len(g.trail):
      ent = g.trail[i]
      if ent[0] != "r": raise Unsupported("non-deterministic re-execution (realize)")
      cand = ent[1]
      g.pos += 1
    else:
      m = g.ensure_model()
      v = m.eval(e, model_completion=True)
      if not z3.is_int_value(v): raise Unsupported("cannot realize")
      cand = v.as_long()
      g._record(("r", cand), z3.BoolVal(True))
    if g.branch(e == cand): return cand
  raise Unsupported("realization cap exceeded")


class SymInt(Sym):
  __slots__ = ("e",)
  def __init__(self, e): self.e = e
  __class__ = property(lambda self: int)
  numerator = property(lambda self: self)
  denominator = property(lambda self: 1)
  real = property(lambda self: self)
  imag = property(lambda self: 0)

  def _arith(self, o, op, rev=False):
    i = _int_term(o)
    if i is not None:
      a, b = (i, self.e) if rev else (self.e, i)
      return mk_int(op(a, b))
    return None

  def __add__(self, o):
    r = self._arith(o, lambda a, b: a + b)
    return r if r is not None else _promote(self, o, "__add__")
  def __radd__(self, o):
    r = self._arith(o, lambda a, b: a + b, True)
    return r if r is not None else _promote(self, o, "__radd__")
  def __sub__(self, o):
    r = self._arith(o, lambda a, b: a - b)
    return r if r is not None else _promote(self, o, "__sub__")
  def __rsub__(self, o):
    r = self._arith(o, lambda a, b: a - b, True)
    return r if r is not None else _promote(self, o, "__rsub__")
  def __mul__(self, o):
    if isinstance(o, (str, bytes, list, tuple)) and not is_sym(o): return o * realize_int(self.e)
    r = self._arith(o, lambda a, b: a * b)
    return r if r is not None else _promote(self, o, "__mul__")
  def __rmul__(self, o): return self.__mul__(o)
  def __neg__(self): return mk_int(-self.e)
  def __pos__(self): return self
  def __abs__(self): return mk_int(z3.If(self.e < 0, -self.e, self.e))
  def __floordiv__(self, o): return _floordiv(self, o)
  def __rfloordiv__(self, o): return _floordiv(o, self)
  def __mod__(self, o): return _mod(self, o)
  def __rmod__(self, o):
    if isinstance(o, str): return NotImplemented
    return _mod(o, self)
  def __divmod__(self, o): return (_floordiv(self, o), _mod(self, o))
  def __rdivmod__(self, o): return (_floordiv(o, self), _mod(o, self))
  def __truediv__(self, o): return _truediv(self, o)
  def __rtruediv__(self, o): return _truediv(o, self)
  def __pow__(self, o, m=None):
    if type(o) is int and 0 <= o <= 4 and m is None:
      r = SymInt(z3.IntVal(1))
      for _ in range(o): r = r * self
      return r
    return int(self).__pow__(o)
  def __rpow__(self, o): return o ** realize_int(self.e)
  def __lshift__(self, o):
    if type(o) is int: return mk_int(self.e * (1 << o))
    return int(self) << int(o)
  def __rlshift__(self, o): return o << int(self)
  def __rshift__(self, o):
    if type(o) is int: return mk_int(self.e / (1 << o))
    return int(self) >> int(o)
  def __and__(self, o):
    if type(o) is int and o >= 0 and (o & (o + 1)) == 0: return mk_int(self.e % (o + 1))
    return mk_int(z3.BV2Int(self._bv() & _bv(o)))
  __rand__ = __and__
  def __or__(self, o): return mk_int(z3.BV2Int(self._bv() | _bv(o)))
  __ror__ = __or__
  def __xor__(self, o): return mk_int(z3.BV2Int(self._bv() ^ _bv(o)))
  __rxor__ = __xor__
  def __invert__(self): return mk_int(-self.e - 1)
  def _bv(self): return z3.Int2BV(self.e, 128)

  def _cmp(self, o, op, name):
    i = _int_term(o)
    if i is not None: return wrap_bool(op(self.e, i))
    t = type(o)
    if t is SymReal or t is Fraction or (t is float and math.isfinite(o)): return wrap_bool(op(z3.ToReal(self.e), _real_term(o)))
    if t is float:
      return bool(op(0.0, o))
    if t is SymFloat: return SymFloat(_fp_term(self))._cmp_op(o, name)
    return NotImplemented
  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, "lt")
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, "le")
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, "gt")
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, "ge")
  def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, "eq")
  def __ne__(self, o):
    r = self._cmp(o, lambda a, b: a == b, "eq")
    return NotImplemented if r is NotImplemented else sym_not(r)
  def __bool__(self): return eng().branch(self.e != 0)
  def __hash__(self): return 1
  def __int__(self): return realize_int(self.e)
  __index__ = __int__
  def __float__(self): return float(realize_int(self.e))
  def __round__(self, n=None): return self
  def __trunc__(self): return self
  def __floor__(self): return self
  def __ceil__(self): return self
  def is_integer(self): return True
  def bit_length(self): return int(self).bit_length()
  def to_bytes(self, length=1, byteorder="big", *, signed=False):
    return int_to_symbytes(self, length, byteorder, signed)
  def conjugate(self): return self
  def as_integer_ratio(self): return (self, 1)
  def __repr__(self): return f"<SymInt {self.e}>"
  def __str__(self): return fmt_sym(self)
  def __format__(self, spec): return fmt_sym(self)
  def __deepcopy__(self, memo): return self
  def __copy__(self): return self
  def __reduce__(self): raise Unsupported("pickling a symbolic value")


FORMAT_MODE = {"mode": "placeholder"}

def fmt_sym(x):
  if FORMAT_MODE["mode"] == "realize" and type(x) is SymInt: return str(realize_int(x.e))
  return repr(x)


def _bv(o):
  if type(o) is SymInt: return o._bv()
  return z3.BitVecVal(int(o), 128)


def _promote(a, o, name):
  """binary arithmetic SymInt `a` with a non-int operand"""
  t = type(o)
  if t is SymFloat or t is float: return getattr(SymFloat(_fp_term(a)), name)(o)
  if t is SymReal or t is Fraction: return getattr(SymReal(z3.ToReal(a.e)), name)(o)
  return NotImplemented


def _floordiv(a, b):
  ta, tb = _int_term(a), _int_term(b)
  if ta is None or tb is None:
    ra, rb = _real_term(a), _real_term(b)
    if ra is None or rb is None: return NotImplemented
    if eng().branch(rb == 0): raise ZeroDivisionError("division by zero")
    return mk_int(z3.ToInt(ra / rb))
  if eng().branch(tb == 0): raise ZeroDivisionError("integer division or modulo by zero")
  return mk_int(z3_floordiv(ta, tb))


def z3_floordiv(ta, tb):
  sb = z3.simplify(tb)
  if z3.is_int_value(sb):
    return ta / sb if sb.as_long() > 0 else (-ta) / (-sb)
  return z3.If(tb > 0, ta / tb, (-ta) / (-tb))


def _mod(a, b):
  ta, tb = _int_term(a), _int_term(b)
  if ta is None or tb is None:
    ra, rb = _real_term(a), _real_term(b)
    if ra is None or rb is None: return NotImplemented
    if eng().branch(rb == 0): raise ZeroDivisionError("modulo by zero")
    if TRUEDIV["mode"] == "uf": return uf_real("py_mod", a, b)
    return SymReal(z3.simplify(ra - rb * z3.ToReal(z3.ToInt(ra / rb))))
  if eng().branch(tb == 0): raise ZeroDivisionError("integer modulo by zero")
  return mk_int(ta - tb * z3_floordiv(ta, tb))


def _linear(e, f, acc):
  """acc[term id] += f * coefficient for a linear combination of integer terms; False if e is none"""
  k = e.decl().kind() if z3.is_app(e) else None
  if z3.is_rational_value(e): acc[None] = (None, acc.get(None, (None, 0))[1] + f * e.as_fraction())
  elif k == z3.Z3_OP_ADD: return all(_linear(c, f, acc) for c in e.children())
  elif k == z3.Z3_OP_SUB:
    cs = e.children()
    return _linear(cs[0], f, acc) and all(_linear(c, -f, acc) for c in cs[1:])
  elif k == z3.Z3_OP_UMINUS: return _linear(e.arg(0), -f, acc)
  elif k == z3.Z3_OP_MUL:
    rest, c = [], Fraction(1)
    for x in e.children():
      if z3.is_rational_value(x): c *= x.as_fraction()
      else: rest.append(x)
    if len(rest) != 1: return False
    return _linear(rest[0], f * c, acc)
  elif k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() != 0: return _linear(e.arg(0), f / e.arg(1).as_fraction(), acc)
  elif k == z3.Z3_OP_TO_REAL:
    x = e.arg(0)
    acc[x.get_id()] = (x, acc.get(x.get_id(), (x, 0))[1] + f)
  elif k == z3.Z3_OP_ITE:
    a, b = whole(e.arg(1)), whole(e.arg(2))
    if a is None or b is None: return False
    x = z3.If(e.arg(0), a, b)
    acc[x.get_id()] = (x, acc.get(x.get_id(), (x, 0))[1] + f)
  else: return False
  return True


def whole(e):
  """the integer term equal to the real term e if e is an integer combination of integer terms, else None"""
  acc = {}
  if not _linear(e, Fraction(1), acc): return None
  r = []
  for x, c in acc.values():
    if c == 0: continue
    if Fraction(c).denominator != 1: return None
    r.append(z3.IntVal(int(c)) if x is None else x if c == 1 else x * int(c))
  return z3.simplify(z3.Sum(r)) if r else z3.IntVal(0)


TRUEDIV = {"mode": "real"}   # how int/int divides: "real" (exact rational), "float" (IEEE) or "uf" (reals; products and quotients of two variables uninterpreted)

def _truediv(a, b):
  if type(a) in (SymFloat, float) or type(b) in (SymFloat, float):
    if type(a) in (SymReal,) or type(b) in (SymReal,): pass
    elif TRUEDIV["mode"] == "float" or type(a) is SymFloat or type(b) is SymFloat:
      fa, fb = _fp_term(a), _fp_term(b)
      if fa is None or fb is None: return NotImplemented
      if eng().branch(z3.fpIsZero(fb)): raise ZeroDivisionError("float division by zero")
      return SymFloat(z3.simplify(z3.fpDiv(RNE, fa, fb)))
  ra, rb = _real_term(a), _real_term(b)
  if ra is None or rb is None: return NotImplemented
  if eng().branch(rb == 0): raise ZeroDivisionError("division by zero")
  if TRUEDIV["mode"] == "float" and type(a) is not SymReal and type(b) is not SymReal and type(a) is not Fraction and type(b) is not Fraction:
    return SymFloat(z3.fpRealToFP(RNE, ra / rb, FP64))
  if TRUEDIV["mode"] == "uf" and not z3.is_rational_value(z3.simplify(rb)): return uf_real("py_div", a, b)
  return SymReal(z3.simplify(ra / rb))


def _real_mul(a, b):
  if TRUEDIV["mode"] == "uf" and not any(z3.is_rational_value(z3.simplify(x)) for x in (a, b)):
    if a.get_id() > b.get_id(): a, b = b, a
    return uf_real("py_mul", SymReal(a), SymReal(b)).e
  return a * b


class SymReal(Sym):
  """exact real; stands for Fraction values and (as a stated approximation) for clock floats"""
  __slots__ = ("e",)
  def __init__(self, e): self.e = e
  def _bin(self, o, op, rev=False):
    r = _real_term(o)
    if r is None: return NotImplemented
    a, b = (r, self.e) if rev else (self.e, r)
    return SymReal(z3.simplify(op(a, b)))
  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
  def __mul__(self, o): return self._bin(o, _real_mul)
  def __rmul__(self, o): return self._bin(o, _real_mul, True)
  def __truediv__(self, o): return _truediv(self, o)
  def __rtruediv__(self, o): return _truediv(o, self)
  def __floordiv__(self, o): return _floordiv(self, o)
  def __rfloordiv__(self, o): return _floordiv(o, self)
  def __mod__(self, o): return _mod(self, o)
  def __rmod__(self, o): return _mod(o, self)
  def __pow__(self, o): return uf_real("py_pow", self, o)
  def __rpow__(self, o): return uf_real("py_pow", o, self)
  def __neg__(self): return SymReal(z3.simplify(-self.e))
  def __pos__(self): return self
  def __abs__(self): return SymReal(z3.simplify(z3.If(self.e < 0, -self.e, self.e)))
  def _cmp(self, o, op):
    if type(o) is float and math.isinf(o): return bool(op(0.0, o))
    if type(o) is float and math.isnan(o): return False
    r = _real_term(o)
    if r is None: return NotImplemented
    return wrap_bool(op(self.e, r))
  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
  def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
  def __ne__(self, o):
    r = self._cmp(o, lambda a, b: a == b)
    return NotImplemented if r is NotImplemented else sym_not(r)
  def __bool__(self): return eng().branch(self.e != 0)
  def __hash__(self): return 1
  def __floor__(self):
    i = whole(self.e)
    return mk_int(z3.ToInt(self.e) if i is None else i)
  def __ceil__(self):
    i = whole(self.e)
    return mk_int(-z3.ToInt(-self.e) if i is None else i)
  def __trunc__(self):
    i = whole(self.e)
    if i is not None: return mk_int(i)
    return mk_int(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
  def __round__(self, n=None):
    if n is not None: raise Unsupported("round to digits")
    f = z3.ToInt(self.e)
    d = self.e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return mk_int(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
  def __int__(self): return realize_int(self.__trunc__().e)
  def __float__(self):
    s = z3.simplify(self.e)
    if z3.is_rational_value(s): return float(s.as_fraction())
    raise Unsupported("float() of a symbolic real")
  def is_integer(self): return wrap_bool(z3.ToReal(z3.ToInt(self.e)) == self.e)
  def limit_denominator(self, *a): return self
  def __repr__(self): return f"<SymReal {self.e}>"
  def __str__(self): return repr(self)
  def __format__(self, spec): return repr(self)
  def __deepcopy__(self, memo): return self
  def __copy__(self): return self


class SymFloat(Sym):
  """IEEE-754 binary64"""
  __slots__ = ("e",)
  def __init__(self, e): self.e = e
  __class__ = property(lambda self: float)
  def _bin(self, o, op, rev=False):
    f = _fp_term(o)
    if f is None: return NotImplemented
    a, b = (f, self.e) if rev else (self.e, f)
    return SymFloat(z3.simplify(op(a, b)))
  def __add__(self, o): return self._bin(o, lambda a, b: z3.fpAdd(RNE, a, b))
  def __radd__(self, o): return self._bin(o, lambda a, b: z3.fpAdd(RNE, a, b), True)
  def __sub__(self, o): return self._bin(o, lambda a, b: z3.fpSub(RNE, a, b))
  def __rsub__(self, o): return self._bin(o, lambda a, b: z3.fpSub(RNE, a, b), True)
  def __mul__(self, o): return self._bin(o, lambda a, b: z3.fpMul(RNE, a, b))
  def __rmul__(self, o): return self._bin(o, lambda a, b: z3.fpMul(RNE, a, b), True)
  def __truediv__(self, o): return _truediv(self, o)
  def __rtruediv__(self, o): return _truediv(o, self)
  def __mod__(self, o):
    # Python float modulo is decided only where both operands are the same term shape: uninterpreted otherwise
    f = _fp_term(o)
    if f is None: return NotImplemented
    if eng().branch(z3.fpIsZero(f)): raise ZeroDivisionError("float modulo")
    return uf_float("py_fmod", self, o)
  def __rmod__(self, o):
    if _fp_term(o) is None: return NotImplemented
    if eng().branch(z3.fpIsZero(self.e)): raise ZeroDivisionError("float modulo")
    return uf_float("py_fmod", o, self)
  def __pow__(self, o): return uf_float("py_pow", self, o)
  def __rpow__(self, o): return uf_float("py_pow", o, self)
  def __neg__(self): return SymFloat(z3.simplify(z3.fpNeg(self.e)))
  def __pos__(self): return self
  def __abs__(self): return SymFloat(z3.simplify(z3.fpAbs(self.e)))
  def _cmp_op(self, o, name):
    if type(o) is int:   # exact int/float comparison for constants
      try:
        if float(o) != o: raise Unsupported("inexact int constant in float comparison")
      except OverflowError: raise Unsupported("int constant too large for float comparison")
    f = _fp_term(o)
    if f is None: return NotImplemented
    op = {"lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "eq": z3.fpEQ}[name]
    return wrap_bool(op(self.e, f))
  def __lt__(self, o): return self._cmp_op(o, "lt")
  def __le__(self, o): return self._cmp_op(o, "le")
  def __gt__(self, o): return self._cmp_op(o, "gt")
  def __ge__(self, o): return self._cmp_op(o, "ge")
  def __eq__(self, o): return self._cmp_op(o, "eq")
  def __ne__(self, o):
    r = self._cmp_op(o, "eq")
    return NotImplemented if r is NotImplemented else sym_not(r)
  def __bool__(self): return eng().branch(z3.Not(z3.fpIsZero(self.e)))
  def __hash__(self): return 1
  def isnan(self): return wrap_bool(z3.fpIsNaN(self.e))
  def isinf(self): return wrap_bool(z3.fpIsInf(self.e))
  def is_integer(self):
    return wrap_bool(z3.And(z3.Not(z3.fpIsNaN(self.e)), z3.Not(z3.fpIsInf(self.e)), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), self.e), self.e)))
  def _to_int(self, rm):
    if eng().branch(z3.fpIsNaN(self.e)): raise ValueError("cannot convert float NaN to integer")
    if eng().branch(z3.fpIsInf(self.e)): raise OverflowError("cannot convert float infinity to integer")
    return mk_int(z3.ToInt(z3.fpToReal(z3.fpRoundToIntegral(rm, self.e))))
  def __trunc__(self): return self._to_int(z3.RTZ())
  def __floor__(self): return self._to_int(z3.RTN())
  def __ceil__(self): return self._to_int(z3.RTP())
  def __round__(self, n=None):
    if n is not None: return uf_float("py_round%d" % n, self)
    return self._to_int(z3.RNE())
  def __int__(self): return realize_int(self._to_int(z3.RTZ()).e)
  def __float__(self):
    s = z3.simplify(self.e)
    if z3.is_fp_value(s): return fp_value(s)
    raise Unsupported("float() of a symbolic float")
  def same(self, o):
    """bit-level identity up to NaN payload (NaN is NaN, -0.0 is not 0.0)"""
    return wrap_bool(self.e == _fp_term(o))
  def __repr__(self): return f"<SymFloat {self.e}>"
  def __str__(self): return repr(self)
  def __format__(self, spec): return repr(self)
  def __deepcopy__(self, memo): return self
  def __copy__(self): return self


_ufs = {}
def uf_float(name, *args):
  """uninterpreted function over binary64 (stub for libm / float % / **)"""
  key = (name, len(args))
  if key not in _ufs: _ufs[key] = z3.Function(name, *([FP64] * (len(args) + 1)))
  ts = [_fp_term(a) for a in args]
  if any(t is None for t in ts): return NotImplemented
  return SymFloat(_ufs[key](*ts))


def uf_real(name, *args):
  """uninterpreted function over the reals"""
  key = ("real", name, len(args))
  if key not in _ufs: _ufs[key] = z3.Function("r_" + name, *([z3.RealSort()] * (len(args) + 1)))
  ts = [_real_term(a) for a in args]
  if any(t is None for t in ts): return NotImplemented
  return SymReal(_ufs[key](*ts))


def same_value(a, b):
  """identity of two numbers incl. NaN==NaN; used by oracles"""
  if type(a) is SymFloat: return a.same(b)
  if type(b) is SymFloat: return b.same(a)
  if is_sym(a) or is_sym(b): return a == b
  if isinstance(a, float) and isinstance(b, float):
    return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
  return a == b


# ---------------------------------------------------------------- strings
def _cterm(c): return c if isinstance(c, z3.ExprRef) else z3.IntVal(c)

def _ceq(a, b):
  """char equality -> z3 Bool or python bool"""
  if isinstance(a, int) and isinstance(b, int): return a == b
  return _cterm(a) == _cterm(b)

def _conj(parts):
  if any(p is False for p in parts): return False
  parts = [p for p in parts if p is not True]
  if not parts: return True
  return wrap_bool(z3.And(*parts))


class _SymSeq(Sym):
  """fixed length (per path) sequence of code units; each is an int or a z3 Int term"""
  __slots__ = ("cs",)
  def __init__(self, cs): self.cs = tuple(cs)
  def _mk(self, cs):
    cs = tuple(z3.simplify(c) if isinstance(c, z3.ExprRef) else c for c in cs)
    cs = tuple(c.as_long() if isinstance(c, z3.ExprRef) and z3.is_int_value(c) else c for c in cs)
    if all(isinstance(c, int) for c in cs): return self._concrete(cs)
    return type(self)(cs)
  def __len__(self): return len(self.cs)
  def __bool__(self): return len(self.cs) > 0
  def __hash__(self): return 1
  def __eq__(self, o):
    oc = self._coerce(o)
    if oc is None: return False
    if len(oc) != len(self.cs): return False
    return _conj([_ceq(a, b) for a, b in zip(self.cs, oc)])
  def __ne__(self, o): return sym_not(self == o)
  def __lt__(self, o):
    oc = self._coerce(o)
    if oc is None: return NotImplemented
    for a, b in zip(self.cs, oc):
      if truth(_ceq(a, b)): continue
      return wrap_bool(_cterm(a) < _cterm(b))
    return len(self.cs) < len(oc)
  def __gt__(self, o): return self._mk(self._coerce(o)).__class__ is not None and (_as_seq(self, o) < self)
  def __le__(self, o): return sym_not(_as_seq(self, o) < self)
  def __ge__(self, o): return sym_not(self < o)
  def __add__(self, o):
    oc = self._coerce(o)
    if oc is None: return NotImplemented
    return self._mk(self.cs + tuple(oc))
  def __radd__(self, o):
    oc = self._coerce(o)
    if oc is None: return NotImplemented
    return self._mk(tuple(oc) + self.cs)
  def __mul__(self, n): return self._mk(self.cs * int(n))
  __rmul__ = __mul__
  def _match_at(self, i, sub): return _conj([_ceq(a, b) for a, b in zip(self.cs[i:i + len(sub)], sub)])
  def find(self, sub, start=0, end=None):
    sc = self._coerce(sub)
    n = len(self.cs)
    start, end, _ = slice(start, end).indices(n)
    for i in range(start, end - len(sc) + 1):
      if truth(self._match_at(i, sc)): return i
    return -1
  def rfind(self, sub, start=0, end=None):
    sc = self._coerce(sub)
    start, end, _ = slice(start, end).indices(len(self.cs))
    for i in range(end - len(sc), start - 1, -1):
      if truth(self._match_at(i, sc)): return i
    return -1
  def index(self, sub, start=0, end=None):
    r = self.find(sub, start, end)
    if r < 0: raise ValueError("substring not found")
    return r
  def rindex(self, sub, start=0, end=None):
    r = self.rfind(sub, start, end)
    if r < 0: raise ValueError("substring not found")
    return r
  def count(self, sub):
    n, i, sc = 0, 0, self._coerce(sub)
    while i <= len(self.cs) - len(sc):
      if truth(self._match_at(i, sc)): n += 1; i += max(1, len(sc))
      else: i += 1
    return n
  def _coerce1(self, sub): return self._coerce(sub)
  def __contains__(self, sub): return self.find(sub) >= 0
  def startswith(self, p, start=0, end=None):
    if isinstance(p, tuple): return any(truth(self.startswith(x, start, end)) for x in p)
    pc = self._coerce(p)
    s = self.cs[slice(start, end)]
    if len(pc) > len(s): return False
    return _conj([_ceq(a, b) for a, b in zip(s, pc)])
  def endswith(self, p, start=0, end=None):
    if isinstance(p, tuple): return any(truth(self.endswith(x, start, end)) for x in p)
    pc = self._coerce(p)
    s = self.cs[slice(start, end)]
    if len(pc) > len(s): return False
    return _conj([_ceq(a, b) for a, b in zip(s[len(s) - len(pc):], pc)])
  def removeprefix(self, p): return self._mk(self.cs[len(p):]) if truth(self.startswith(p)) else self._mk(self.cs)
  def removesuffix(self, p): return self._mk(self.cs[:len(self.cs) - len(p)]) if len(p) and truth(self.endswith(p)) else self._mk(self.cs)
  def split(self, sep=None, maxsplit=-1):
    if sep is None: return self._split_ws(maxsplit)
    sc = self._coerce(sep)
    if len(sc) == 0: raise ValueError("empty separator")
    out, last, i = [], 0, 0
    while i <= len(self.cs) - len(sc):
      if maxsplit >= 0 and len(out) >= maxsplit: break
      if truth(self._match_at(i, sc)):
        out.append(self._mk(self.cs[last:i]))
        i += len(sc)
        last = i
      else: i += 1
    out.append(self._mk(self.cs[last:]))
    return out
  def rsplit(self, sep=None, maxsplit=-1):
    sc = self._coerce(sep)
    out, last, i = [], len(self.cs), len(self.cs) - len(sc)
    while i >= 0:
      if maxsplit >= 0 and len(out) >= maxsplit: break
      if truth(self._match_at(i, sc)):
        out.append(self._mk(self.cs[i + len(sc):last]))
        last = i
        i -= len(sc)
      else: i -= 1
    out.append(self._mk(self.cs[:last]))
    return out[::-1]
  def _split_ws(self, maxsplit):
    out, cur = [], []
    for k, c in enumerate(self.cs):
      if self._is_ws(c):
        if cur: out.append(self._mk(cur)); cur = []
      else: cur.append(c)
    if cur: out.append(self._mk(cur))
    return out
  def splitlines(self, keepends=False):
    out, cur = [], []
    for c in self.cs:
      if truth(_ceq(c, 10)): out.append(self._mk(cur)); cur = []
      else: cur.append(c)
    if cur: out.append(self._mk(cur))
    return out
  def partition(self, sep):
    i = self.find(sep)
    if i < 0: return (self._mk(self.cs), self._mk(()), self._mk(()))
    n = len(self._coerce(sep))
    return (self._mk(self.cs[:i]), sep, self._mk(self.cs[i + n:]))
  def rpartition(self, sep):
    i = self.rfind(sep)
    if i < 0: return (self._mk(()), self._mk(()), self._mk(self.cs))
    n = len(self._coerce(sep))
    return (self._mk(self.cs[:i]), sep, self._mk(self.cs[i + n:]))
  def replace(self, a, b, count=-1):
    parts = self.split(a, count)
    out = []
    bc = self._coerce(b)
    for i, p in enumerate(parts):
      if i: out.extend(bc)
      out.extend(self._coerce(p))
    return self._mk(out)
  def _is_ws(self, c):
    if isinstance(c, int): return c in (32, 9, 10, 11, 12, 13)
    return eng().branch(z3.Or(c == 32, z3.And(c >= 9, c <= 13)))
  def _in_set(self, c, chars):
    if chars is None: return self._is_ws(c)
    return truth(wrap_any([_ceq(c, x) for x in self._coerce(chars)]))
  def lstrip(self, chars=None):
    i = 0
    while i < len(self.cs) and self._in_set(self.cs[i], chars): i += 1
    return self._mk(self.cs[i:])
  def rstrip(self, chars=None):
    i = len(self.cs)
    while i > 0 and self._in_set(self.cs[i - 1], chars): i -= 1
    return self._mk(self.cs[:i])
  def strip(self, chars=None):
    r = self.lstrip(chars)
    return r.rstrip(chars)
  def _maplower(self):
    return [c + 32 if isinstance(c, int) and 65 <= c <= 90 else c if isinstance(c, int) else z3.If(z3.And(c >= 65, c <= 90), c + 32, c) for c in self.cs]
  def _mapupper(self):
    return [c - 32 if isinstance(c, int) and 97 <= c <= 122 else c if isinstance(c, int) else z3.If(z3.And(c >= 97, c <= 122), c - 32, c) for c in self.cs]
  def lower(self): return self._mk(self._maplower())
  def upper(self): return self._mk(self._mapupper())
  casefold = lower
  def _all(self, pred):
    if not self.cs: return False
    return all(truth(pred(c)) for c in self.cs)
  def isdigit(self): return self._all(lambda c: wrap_bool(z3.And(_cterm(c) >= 48, _cterm(c) <= 57)))
  isdecimal = isdigit
  isnumeric = isdigit
  def isalpha(self): return self._all(lambda c: wrap_bool(z3.Or(z3.And(_cterm(c) >= 65, _cterm(c) <= 90), z3.And(_cterm(c) >= 97, _cterm(c) <= 122))))
  def isascii(self): return all(bool(wrap_bool(_cterm(c) < 128)) for c in self.cs)
  def isspace(self): return len(self.cs) > 0 and all(self._is_ws(c) for c in self.cs)
  def isalnum(self): return self._all(lambda c: wrap_bool(z3.Or(z3.And(_cterm(c) >= 65, _cterm(c) <= 90), z3.And(_cterm(c) >= 97, _cterm(c) <= 122), z3.And(_cterm(c) >= 48, _cterm(c) <= 57))))
  def join(self, parts):
    out = []
    for i, p in enumerate(parts):
      if i: out.extend(self.cs)
      pc = self._coerce(p)
      if pc is None: raise TypeError("join: wrong item type")
      out.extend(pc)
    return self._mk(out)
  def __deepcopy__(self, memo): return self
  def __copy__(self): return self
  def __repr__(self): return f"<{type(self).__name__} {self.cs}>"


def wrap_any(parts):
  if any(p is True for p in parts): return True
  parts = [p for p in parts if p is not False]
  if not parts: return False
  return wrap_bool(z3.Or(*[p.e if type(p) is SymBool else p for p in parts]))


def truth(x):
  if isinstance(x, z3.ExprRef): return eng().branch(x)
  return bool(x)


def _as_seq(like, o):
  return type(like)(like._coerce(o))


class SymStr(_SymSeq):
  __slots__ = ()
  __class__ = property(lambda self: str)
  def _concrete(self, cs): return "".join(map(chr, cs))
  def _coerce(self, o):
    if type(o) is SymStr: return o.cs
    if type(o) is str or (isinstance(o, str) and not is_sym(o)): return tuple(map(ord, o))
    return None
  def __getitem__(self, k):
    if isinstance(k, slice):
      k = slice(*[None if v is None else int(v) for v in (k.start, k.stop, k.step)])
      return self._mk(self.cs[k])
    return self._mk((self.cs[int(k)],))
  def __iter__(self):
    for c in self.cs: yield self._mk((c,))
  def encode(self, encoding="utf-8", errors="strict"):
    for c in self.cs:
      if not isinstance(c, int) and eng().branch(c >= 128): raise Unsupported("non-ascii symbolic encode")
      if isinstance(c, int) and c >= 128: raise Unsupported("mixed non-ascii symbolic encode")
    return SymBytes(())._mk(self.cs)
  def __mod__(self, o): raise Unsupported("% formatting")
  def __str__(self): return repr(self)
  def __format__(self, spec): return repr(self)


class SymBytes(_SymSeq):
  __slots__ = ()
  __class__ = property(lambda self: bytes)
  def _concrete(self, cs): return bytes(cs)
  def _coerce(self, o):
    if type(o) is SymBytes: return o.cs
    if isinstance(o, (bytes, bytearray, memoryview)) and not is_sym(o): return tuple(bytes(o))
    if isinstance(o, int): return (_int_or_term(o),)
    return None
  def __getitem__(self, k):
    if isinstance(k, slice):
      k = slice(*[None if v is None else int(v) for v in (k.start, k.stop, k.step)])
      return self._mk(self.cs[k])
    c = self.cs[int(k)]
    return c if isinstance(c, int) else SymInt(c)
  def __iter__(self):
    for c in self.cs: yield c if isinstance(c, int) else SymInt(c)
  def decode(self, encoding="utf-8", errors="strict"):
    for c in self.cs:
      if (isinstance(c, int) and c >= 128) or (not isinstance(c, int) and eng().branch(c >= 128)):
        raise Unsupported("non-ascii symbolic decode")
    return SymStr(())._mk(self.cs)
  def hex(self):
    d = lambda n: z3.If(n < 10, n + 48, n + 87)
    return SymStr(())._mk([x for c in self.cs for x in (z3.simplify(d(_cterm(c) / 16)), z3.simplify(d(_cterm(c) % 16)))])
  def tobytes(self): return self


def _int_or_term(o):
  if type(o) is SymInt:
    s = z3.simplify(o.e)
    return s.as_long() if z3.is_int_value(s) else s
  return int(o)


def symbytes(parts):
  """concatenate bytes / SymBytes / ints"""
  out = []
  z = SymBytes(())
  for p in parts: out.extend(z._coerce(p))
  return z._mk(out)


def int_to_symbytes(v, length, byteorder, signed=False):
  t = _int_term(v)
  lim = 1 << (8 * length)
  if signed: raise Unsupported("signed to_bytes")
  if eng().branch(z3.Or(t < 0, t >= lim)): raise OverflowError("int too big to convert")
  bs = [z3.simplify((t / (1 << (8 * i))) % 256) for i in range(length)]
  if byteorder == "big": bs.reverse()
  return SymBytes(())._mk(bs)


def symbytes_to_int(b, byteorder, signed=False):
  cs = list(b.cs if type(b) is SymBytes else bytes(b))
  if byteorder == "big": cs.reverse()
  t = z3.IntVal(0)
  for i, c in enumerate(cs): t = t + _cterm(c) * (1 << (8 * i))
  if signed:
    n = 8 * len(cs)
    t = z3.If(t >= (1 << (n - 1)), t - (1 << n), t)
  return mk_int(t)
