"""Replacement of C-implemented builtins by versions that accept the proxies.

Active only while a symbolic run is in progress and only in the namespaces of the
modules under test; concrete replays run with nothing of this.
"""
import builtins
import contextlib
import fractions
import math
import re
import struct
import sys
import z3
from symx.core import Unsupported
from symx import values as V
from symx.symre import SRE, SymPattern


class _TypeMeta(type):
  def __instancecheck__(cls, o): return isinstance(o, cls._real)
  def __subclasscheck__(cls, o): return issubclass(o, cls._real)
  def __eq__(cls, o): return o is cls or o is cls._real
  def __hash__(cls): return hash(cls._real)
  def __or__(cls, o): return cls._real | o
  def __ror__(cls, o): return o | cls._real
  def __getattr__(cls, name): return getattr(cls._real, name)


class s_int(metaclass=_TypeMeta):
  _real = builtins.int
  def __new__(cls, x=0, *a):
    t = type(x)
    if t is V.SymInt: return x
    if t is V.SymBool: return x._num()
    if t is V.SymReal or t is V.SymFloat: return x.__trunc__()
    if t is V.SymStr: return parse_int(x, *a)
    return builtins.int(x, *a)
  @staticmethod
  def from_bytes(b, byteorder="big", *, signed=False):
    if type(b) is V.SymBytes: return V.symbytes_to_int(b, byteorder, signed)
    return builtins.int.from_bytes(b, byteorder, signed=signed)


def parse_int(s, base=10):
  """int(str) for ASCII digit strings with sign and surrounding whitespace/underscores"""
  if base != 10: raise Unsupported("int(str, base)")
  s = s.strip()
  cs = list(s.cs if type(s) is V.SymStr else map(ord, s))
  neg = False
  if cs and V.truth(V._ceq(cs[0], 45)): neg, cs = True, cs[1:]
  elif cs and V.truth(V._ceq(cs[0], 43)): cs = cs[1:]
  if not cs: raise ValueError("invalid literal for int()")
  t = z3.IntVal(0)
  prev_us = True
  for c in cs:
    c = V._cterm(c)
    if V.truth(z3.simplify(z3.And(c >= 48, c <= 57))):
      t = t * 10 + (c - 48)
      prev_us = False
    elif not prev_us and V.truth(z3.simplify(c == 95)): prev_us = True
    else: raise ValueError("invalid literal for int()")
  if prev_us: raise ValueError("invalid literal for int()")
  return V.mk_int(-t if neg else t)


class s_float(metaclass=_TypeMeta):
  _real = builtins.float
  def __new__(cls, x=0.0):
    t = type(x)
    if t is V.SymFloat or t is V.SymReal: return x
    if t is V.SymInt: return V.SymReal(z3.ToReal(x.e)) if V.TRUEDIV["mode"] != "float" else V.SymFloat(V._fp_term(x))
    if t is V.SymBool: return builtins.float(bool(x))
    if t is V.SymStr: raise Unsupported("float(str)")
    return builtins.float(x)


class s_str(metaclass=_TypeMeta):
  _real = builtins.str
  def __new__(cls, x="", *a):
    t = type(x)
    if t is V.SymStr: return x
    if t is V.SymInt: return int_to_symstr(x)
    if t is V.SymBytes and a: return x.decode(*a)
    if not a and hasattr(t, "__symstr__"): return x.__symstr__()
    return builtins.str(x, *a)


def int_to_symstr(x, max_digits=6):
  """decimal representation; forks on the number of digits"""
  g = V.eng()
  neg = g.branch(x.e < 0)
  a = z3.simplify(-x.e if neg else x.e)
  n = 1
  while n < max_digits and not g.branch(a < 10 ** n): n += 1
  if n == max_digits and not g.branch(a < 10 ** n): raise Unsupported("int too long for str()")
  cs = [48 + (a / 10 ** (n - 1 - k)) % 10 for k in range(n)]
  return V.SymStr(())._mk(([45] if neg else []) + [z3.simplify(c) for c in cs])


class s_bytes(metaclass=_TypeMeta):
  _real = builtins.bytes
  def __new__(cls, x=b"", *a):
    t = type(x)
    if t is V.SymBytes: return x
    if t is V.SymStr: return x.encode()
    if t in (list, tuple) and V.sym_deep(x): return V.symbytes(x)
    return builtins.bytes(x, *a)


  @staticmethod
  def fromhex(s):
    if type(s) is not V.SymStr: return builtins.bytes.fromhex(s)
    cs = [V._cterm(c) for c in s.cs]
    if len(cs) % 2: raise ValueError("non-hexadecimal number found")
    out = []
    for i in range(0, len(cs), 2):
      v = []
      for c in cs[i:i + 2]:
        if not V.eng().branch(z3.simplify(z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 97, c <= 102), z3.And(c >= 65, c <= 70)))): raise ValueError("non-hexadecimal number found")
        v.append(z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87)))
      out.append(z3.simplify(v[0] * 16 + v[1]))
    return V.SymBytes(())._mk(out)


class s_bool(metaclass=_TypeMeta):
  _real = builtins.bool
  def __new__(cls, x=False): return builtins.bool(x)


class s_Fraction(metaclass=_TypeMeta):
  _real = fractions.Fraction
  def __new__(cls, a=0, b=None):
    if V.is_sym(a) or V.is_sym(b):
      if b is None:
        if type(a) is V.SymInt: return V.SymReal(z3.ToReal(a.e))
        if type(a) is V.SymReal: return a
        raise Unsupported("Fraction of " + type(a).__name__)
      ra, rb = V._real_term(a), V._real_term(b)
      if V.eng().branch(z3.simplify(rb == 0)): raise ZeroDivisionError()
      return V.SymReal(z3.simplify(ra / rb))
    return fractions.Fraction(a, b)


def _domain(name, a):
  """the cases in which a function of `math` raises for finite or infinite arguments (range errors of pow are outside)"""
  x = a[0]
  bad = None
  if name in ("log", "log2", "log10"): bad = x <= 0.0
  elif name == "sqrt": bad = x < 0.0
  elif name in ("asin", "acos"): bad = V.sym_or(x < -1.0, x > 1.0)
  elif name == "acosh": bad = x < 1.0
  elif name == "atanh": bad = V.sym_or(x <= -1.0, x >= 1.0)
  elif name in ("sin", "cos", "tan"): bad = V.sym_or(x == math.inf, x == -math.inf)
  elif name == "pow":
    y = a[1]
    if not any(type(v) is V.SymReal for v in a):
      if not V.is_sym(y): y = V.SymFloat(V._fp_term(y))
      if not V.is_sym(x): x = V.SymFloat(V._fp_term(x))
    if type(x) is V.SymReal or type(y) is V.SymReal:
      x, y = V.SymReal(V._real_term(x)) if type(x) is not V.SymReal else x, V.SymReal(V._real_term(y))
      if V.sym_or(V.sym_and(x == 0.0, y < 0.0), V.sym_and(x < 0.0, V.sym_not(y.is_integer()))): raise ValueError("math domain error")
      return
    fin = V.sym_not(V.sym_or(y.isnan(), y.isinf()))
    bad = V.sym_or(V.sym_and(x == 0.0, y < 0.0, fin), V.sym_and(x < 0.0, V.sym_not(x.isinf()), fin, V.sym_not(y.is_integer())))
  elif name == "exp" and x > 709.782712893384 and x != math.inf: raise OverflowError("math range error")
  elif name in ("sinh", "cosh") and abs(x) > 710.4758600739439 and abs(x) != math.inf: raise OverflowError("math range error")
  if bad is not None and bad: raise ValueError("math domain error")


class s_math:
  def __getattr__(self, name):
    real = getattr(math, name)
    if not callable(real): return real
    def f(*a):
      if not any(V.is_sym(x) for x in a): return real(*a)
      x = a[0]
      if name == "isnan":
        return x.isnan() if type(x) is V.SymFloat else False
      if name == "isinf":
        return x.isinf() if type(x) is V.SymFloat else False
      if name == "isfinite":
        return V.sym_not(V.sym_or(x.isnan(), x.isinf())) if type(x) is V.SymFloat else True
      if name == "floor": return x.__floor__()
      if name == "ceil": return x.__ceil__()
      if name == "trunc": return x.__trunc__()
      if name == "fabs": return abs(x)
      if name == "gcd": return math.gcd(*[builtins.int(v) for v in a])
      _domain(name, a)
      r = V.uf_real("math_" + name, *a) if any(type(v) is V.SymReal for v in a) else V.uf_float("math_" + name, *a)
      if r is NotImplemented: raise TypeError("must be real number")
      return r
    return f


class s_struct:
  error = struct.error
  _fmt = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}
  def __getattr__(self, name): return getattr(struct, name)
  def _parse(self, fmt):
    order = "little"
    if fmt and fmt[0] in "<>!=@":
      order = "big" if fmt[0] in ">!" else "little"
      if fmt[0] == "@": raise Unsupported("native struct format")
      fmt = fmt[1:]
    return order, fmt
  def pack(self, fmt, *vals):
    if not any(V.is_sym(v) for v in vals): return struct.pack(fmt, *vals)
    order, codes = self._parse(fmt)
    out = []
    for c, v in zip(codes, vals):
      if c not in self._fmt: raise Unsupported("struct code " + c)
      try: out.append(V.int_to_symbytes(V.SymInt(V._int_term(v)), self._fmt[c], order))
      except OverflowError: raise struct.error("argument out of range")
    return V.symbytes(out)
  def unpack(self, fmt, b):
    if type(b) is not V.SymBytes: return struct.unpack(fmt, b)
    order, codes = self._parse(fmt)
    if sum(self._fmt[c] for c in codes) != len(b): raise struct.error("unpack requires a buffer of %d bytes" % sum(self._fmt[c] for c in codes))
    out, i = [], 0
    for c in codes:
      n = self._fmt[c]
      seg = b[i:i + n]
      out.append(V.symbytes_to_int(seg, order) if type(seg) is V.SymBytes else builtins.int.from_bytes(seg, order))
      i += n
    return tuple(out)


def s_hash(x):
  """hash() of an object whose __hash__ yields a proxy"""
  if V.is_sym(x): return builtins.hash(x)
  f = type(x).__hash__
  if f is None or type(x) in (builtins.int, builtins.str, tuple): return builtins.hash(x)
  return f(x)


def s_chr(x):
  if type(x) is V.SymInt: return V.SymStr((x.e,))
  return builtins.chr(x)

def s_ord(x):
  if type(x) is V.SymStr: return V.SymInt(V._cterm(x.cs[0])) if len(x) == 1 else builtins.ord("xx")
  return builtins.ord(x)


SM, SS = s_math(), s_struct()
BASE = dict(int=s_int, float=s_float, bytes=s_bytes, hash=s_hash)
STR = dict(str=s_str, chr=s_chr, ord=s_ord)
_FR_OPS = ["__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__",
           "__floordiv__", "__rfloordiv__", "__mod__", "__rmod__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__"]


@contextlib.contextmanager
def injected(strings=False, extra=None, modules=None):
  undo = []
  def setg(mod, name, val):
    d = mod.__dict__
    undo.append((d, name, d.get(name, undo)))
    d[name] = val
  for name, mod in list(sys.modules.items()):
    if mod is None or not (name == "streamtasks" or name.startswith("streamtasks.")): continue
    if modules is not None and name not in modules: continue
    d = mod.__dict__
    for k, v in BASE.items(): setg(mod, k, v)
    if strings:
      for k, v in STR.items(): setg(mod, k, v)
    if d.get("Fraction") is fractions.Fraction: setg(mod, "Fraction", s_Fraction)
    if d.get("math") is math: setg(mod, "math", SM)
    if d.get("struct") is struct: setg(mod, "struct", SS)
    if strings:
      if d.get("re") is re: setg(mod, "re", SRE)
      for k, v in list(d.items()):
        if type(v) is re.Pattern: setg(mod, k, SymPattern(v))
    if extra:
      for k, v in extra.items():
        if k in d or k.startswith("+"): setg(mod, k.lstrip("+"), v)
  F = fractions.Fraction
  saved = {}
  for op in _FR_OPS:
    saved[op] = getattr(F, op)
    def mk(orig):
      def f(a, b):
        if V.is_sym(b): return NotImplemented
        return orig(a, b)
      return f
    setattr(F, op, mk(saved[op]))
  try: yield
  finally:
    for d, name, old in reversed(undo):
      if old is undo: d.pop(name, None)
      else: d[name] = old
    for op, f in saved.items(): setattr(F, op, f)
