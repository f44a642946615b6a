"""Harness context: the same harness body runs symbolically (SymCtx) and concretely (ConcCtx)."""
import contextlib
import math
from fractions import Fraction
import z3
from symx import values as V
from symx.core import Engine, Unsupported
from symx.loop import VLoop


class ReplayViolation(BaseException):
  def __init__(self, label, info=None):
    super().__init__(label)
    self.label, self.info = label, info


class ReplayAssume(BaseException): pass


def _snapshot(v):
  if isinstance(v, (list, tuple)): return [_snapshot(x) for x in v]
  if isinstance(v, dict): return _Pairs((k, _snapshot(x)) for k, x in v.items())
  if isinstance(v, (set, frozenset)): return _Set(v)
  return v


class _Pairs(list): pass
class _Set(list): pass


class _Base:
  def __init__(self, params):
    self.params = params
    self.obs = []
    self._stack = contextlib.ExitStack()
    self._loop = None
    self.tier = params.get("_tier", "quick")

  # environment stubs, active in symbolic runs and replays alike (clock, network, randomness)
  def stub(self, obj, name, value):
    had = name in getattr(obj, "__dict__", {})
    old = obj.__dict__[name] if had else None
    setattr(obj, name, value)
    self._stack.callback(lambda: setattr(obj, name, old) if had else delattr(obj, name))

  def loop(self, **kw):
    if self._loop is None:
      self._loop = VLoop(**kw)
      self._stack.callback(self._shutdown_loop)
    return self._loop

  def _shutdown_loop(self):
    cur = Engine.current
    Engine.current = None
    try: self._loop.shutdown()
    except BaseException: pass
    finally: Engine.current = cur

  def observe(self, name, value): self.obs.append((name, _snapshot(value)))
  def close(self): self._stack.close()
  def run(self, coro): return self.loop().run_until_complete(coro)

  def choice(self, name, n):
    """python int in [0, n): every value explored"""
    return int(self.int(name, 0, n - 1))
  def pick(self, name, items): return items[self.choice(name, len(items))]
  def flag(self, name): return bool(self.bool(name))

  # logic helpers usable in oracles
  And = staticmethod(V.sym_and)
  Or = staticmethod(V.sym_or)
  Not = staticmethod(V.sym_not)
  Implies = staticmethod(V.implies)
  same = staticmethod(V.same_value)
  def Ite(self, c, a, b):
    """value-level conditional on a symbolic condition without forking (ints/reals/floats/bools)"""
    if not V.is_sym(c): return a if c else b
    if type(a) is V.SymFloat or type(b) is V.SymFloat or type(a) is float or type(b) is float:
      return V.SymFloat(z3.If(c.e, V._fp_term(a), V._fp_term(b)))
    if type(a) is V.SymReal or type(b) is V.SymReal: return V.SymReal(z3.If(c.e, V._real_term(a), V._real_term(b)))
    if isinstance(a, bool) and isinstance(b, bool): return V.wrap_bool(z3.If(c.e, V.to_z3_bool(a), V.to_z3_bool(b)))
    return V.mk_int(z3.If(c.e, V._int_term(a), V._int_term(b)))


class SymCtx(_Base):
  symbolic = True
  def __init__(self, engine, params):
    super().__init__(params)
    self.e = engine

  def int(self, name, lo=None, hi=None):
    c = z3.Int(name)
    self.e.declare(name, c, "int")
    if lo is not None: self.e.assume(c >= lo)
    if hi is not None: self.e.assume(c <= hi)
    return V.SymInt(c)
  def lift(self, v):
    """make a concrete int hash/compare like the symbolic ones"""
    return V.SymInt(z3.IntVal(v)) if type(v) is int else v
  def bool(self, name):
    c = z3.Bool(name)
    self.e.declare(name, c, "bool")
    return V.SymBool(c)
  def real(self, name, lo=None, hi=None):
    c = z3.Real(name)
    self.e.declare(name, c, "real")
    if lo is not None: self.e.assume(c >= V._real_term(lo))
    if hi is not None: self.e.assume(c <= V._real_term(hi))
    return V.SymReal(c)
  def float(self, name, nan=True, inf=True):
    c = z3.Const(name, V.FP64)
    self.e.declare(name, c, "float")
    if not nan: self.e.assume(z3.Not(z3.fpIsNaN(c)))
    if not inf: self.e.assume(z3.Not(z3.fpIsInf(c)))
    return V.SymFloat(c)
  def chars(self, name, n, alphabet=None, lo=0, hi=127):
    cs = []
    for i in range(n):
      c = z3.Int(f"{name}[{i}]")
      self.e.declare(f"{name}[{i}]", c, "int")
      if alphabet is not None: self.e.assume(z3.Or(*[c == ord(a) for a in alphabet]))
      else: self.e.assume(z3.And(c >= lo, c <= hi))
      cs.append(c)
    return cs
  def str(self, name, n, alphabet=None, lo=0, hi=127):
    if n == 0: return ""
    return V.SymStr(self.chars(name, n, alphabet, lo, hi))
  def bytes(self, name, n):
    if n == 0: return b""
    return V.SymBytes(self.chars(name, n, None, 0, 255))
  def assume(self, c):
    if type(c) is V.SymBool: self.e.assume(c.e)
    else: self.e.assume(bool(c))
  def check(self, c, label, info=None):
    self.e.check(c.e if type(c) is V.SymBool else bool(c), label, info)
  def reach(self, label): self.e.check(True, label)
  def inject(self, obj, name, value): self.stub(obj, name, value)


class ConcCtx(_Base):
  symbolic = False
  def __init__(self, inputs, params):
    super().__init__(params)
    self.inputs = inputs
    self.labels = []
  def _get(self, name, default): return self.inputs.get(name, default)
  def int(self, name, lo=None, hi=None):
    v = self._get(name, lo if lo is not None else (min(0, hi) if hi is not None else 0))
    if (lo is not None and v < lo) or (hi is not None and v > hi): raise ReplayAssume()
    return v
  def lift(self, v): return v
  def bool(self, name): return bool(self._get(name, False))
  def real(self, name, lo=None, hi=None):
    v = Fraction(self._get(name, "0"))
    if (lo is not None and v < lo) or (hi is not None and v > hi): raise ReplayAssume()
    return v
  def float(self, name, nan=True, inf=True):
    v = self._get(name, "0x0.0p+0")
    v = math.nan if v == "nan" else float.fromhex(v)
    if (math.isnan(v) and not nan) or (math.isinf(v) and not inf): raise ReplayAssume()
    return v
  def chars(self, name, n, alphabet=None, lo=0, hi=127):
    return [self._get(f"{name}[{i}]", ord(alphabet[0]) if alphabet else lo) for i in range(n)]
  def str(self, name, n, alphabet=None, lo=0, hi=127): return "".join(map(chr, self.chars(name, n, alphabet, lo, hi)))
  def bytes(self, name, n): return bytes(self.chars(name, n, None, 0, 255))
  def assume(self, c):
    if not c: raise ReplayAssume()
  def check(self, c, label, info=None):
    self.labels.append(label)
    if not c: raise ReplayViolation(label, info)
  def reach(self, label): self.labels.append(label)
  def inject(self, obj, name, value): pass


def eval_obs(m, v):
  """canonical JSON-able form of an observed value, under model m for symbolic parts"""
  t = type(v)
  if t is V.SymInt: return m.eval(v.e, model_completion=True).as_long()
  if t is V.SymBool: return z3.is_true(m.eval(v.e, model_completion=True))
  if t is V.SymReal:
    f = m.eval(v.e, model_completion=True)
    return float(f.as_fraction()) if z3.is_rational_value(f) else None
  if t is V.SymFloat:
    f = z3.simplify(m.eval(v.e, model_completion=True))
    if not z3.is_fp_value(f): return "?"
    f = V.fp_value(f)
    return "nan" if math.isnan(f) else f
  if t is V.SymStr: return "".join(chr(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long()) for c in v.cs)
  if t is V.SymBytes: return bytes(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long() for c in v.cs).hex()
  if isinstance(v, bool) or v is None or isinstance(v, str): return v
  if isinstance(v, int): return int(v)
  if isinstance(v, Fraction): return float(v)
  if isinstance(v, float): return "nan" if math.isnan(v) else v
  if isinstance(v, (bytes, bytearray, memoryview)): return bytes(v).hex()
  if isinstance(v, _Set): return sorted((eval_obs(m, x) for x in v), key=repr)
  if isinstance(v, _Pairs): return sorted(([eval_obs(m, k), eval_obs(m, x)] for k, x in v), key=repr)
  if isinstance(v, (list, tuple)): return [eval_obs(m, x) for x in v]
  if isinstance(v, (set, frozenset)): return sorted((eval_obs(m, x) for x in v), key=repr)
  if isinstance(v, dict): return sorted(([eval_obs(m, k), eval_obs(m, x)] for k, x in v.items()), key=repr)
  if hasattr(v, "tolist"): return eval_obs(m, v.tolist())
  return type(v).__name__


def obs_equal(a, b):
  if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
  if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
  if a == "?" or b == "?": return True
  return a == b
