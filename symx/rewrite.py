"""AST instrumentation of the modules under test, in symbolic processes only (replays run the files as they are).

CPython implements f-strings, methods of str/bytes literals, `in` on strings and dict lookups in C, where a proxy cannot
take part.  The instrumentation calls a helper instead, which behaves exactly like the original unless a proxy is involved."""
import ast
import builtins
import importlib.machinery
import os
import sys
from symx import values as V

ROOT = os.environ.get("VERIF_REPO", "/repo") + "/streamtasks/"   # the variable is set only to try planted bugs on copies
STR_METHODS = {"join", "format", "startswith", "endswith", "find", "rfind", "index", "rindex", "count", "replace", "split", "rsplit", "strip", "lstrip", "rstrip",
               "partition", "rpartition", "removeprefix", "removesuffix", "format_map"}
DICT_METHODS = {"get", "pop", "setdefault", "discard", "remove", "add"}
FSTR = {"symbolic": False}


class T(ast.NodeTransformer):
  def _call(self, name, *args, at): return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), list(args), []), at)

  def visit_JoinedStr(self, n):
    self.generic_visit(n)
    return self._fstr(n)

  def _fstr(self, n):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant): parts.append(v)
      else:
        spec = v.format_spec if v.format_spec is not None else ast.Constant("")   # nested JoinedStr already rewritten
        parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
    return self._call("__symx_f__", *parts, at=n)

  def visit_Call(self, n):
    self.generic_visit(n)
    if isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and not n.keywords:
      return self._call("__symx_t__", n.func, n.args[0], at=n)
    if isinstance(n.func, ast.Attribute) and n.func.attr in STR_METHODS | DICT_METHODS:
      n.func = self._call("__symx_m__", n.func.value, ast.Constant(n.func.attr), at=n.func)
    return n

  def visit_Compare(self, n):
    self.generic_visit(n)
    if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
      r = self._call("__symx_in__", n.left, n.comparators[0], at=n)
      return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
    return n

  def visit_Subscript(self, n):
    self.generic_visit(n)
    if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Constant)):
      return self._call("__symx_s__", n.value, n.slice, at=n)
    if isinstance(n.ctx, (ast.Store, ast.Del)) and not isinstance(n.slice, (ast.Slice, ast.Constant)) and isinstance(n.value, (ast.Name, ast.Attribute)):
      import copy
      v = copy.deepcopy(n.value)
      n.slice = self._call("__symx_k__", v, n.slice, at=n)
    return n

  # annotations and class-level type expressions stay as they are
  def visit_AnnAssign(self, n):
    if n.value is not None: n.value = self.visit(n.value)
    n.target = self.visit(n.target) if isinstance(n.target, ast.Subscript) else n.target
    return n
  def visit_arg(self, n): return n
  def _fn(self, n):
    n.args.defaults = [self.visit(d) for d in n.args.defaults]
    n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
    n.body = [self.visit(b) for b in n.body]
    n.decorator_list = [self.visit(d) for d in n.decorator_list]
    return n
  visit_FunctionDef = visit_AsyncFunctionDef = _fn


def f_(*parts):
  if FSTR["symbolic"] and any(type(p) is tuple and V.is_sym(p[0]) for p in parts):
    from symx.inject import s_str
    out = V.SymStr(())
    cs = []
    for p in parts:
      if type(p) is str: cs.extend(map(ord, p)); continue
      v, conv, spec = p
      if V.is_sym(v):
        if spec or conv == 114: raise V.Unsupported("format of a symbolic value")
        if type(v) is V.SymBool: v = str(bool(v))
        elif type(v) not in (V.SymStr, V.SymInt): raise V.Unsupported("format of " + type(v).__name__)
        else: v = s_str(v)
        cs.extend(out._coerce(v))
      else: cs.extend(map(ord, _fmt(v, conv, spec)))
    return out._mk(cs)
  return "".join(p if type(p) is str else _fmt(*p) for p in parts)


def _fmt(v, conv, spec):
  if conv == 114: v = repr(v)
  elif conv == 115: v = str(v)
  elif conv == 97: v = ascii(v)
  return format(v, spec)


def _lift(o, n): return V.SymStr(tuple(map(ord, o))) if type(o) is str else V.SymBytes(tuple(o))


def key(d, k):
  """the key of the dict/set `d` that equals the symbolic k (forking on the comparisons), else k"""
  for x in builtins.list(d):
    if x is k or x == k: return x
  return k


def is_map(o): return isinstance(o, (dict, set, frozenset)) and not V.is_sym(o)


def m_(o, name):
  t = type(o)
  if t is str or t is bytes:
    f = getattr(o, name)
    if name == "format_map": return lambda mp: _format_map(o, mp)
    def g(*a, **kw):
      if not any(V.is_sym(x) or (type(x) in (list, tuple) and V.sym_deep(x)) for x in a): 
        if name == "join" and a and not isinstance(a[0], (list, tuple, str, bytes, dict, set)):
          a = (builtins.list(a[0]),)
          if V.sym_deep(a[0]): return _lift(o, name).join(a[0])
        return f(*a, **kw)
      if name == "format": raise V.Unsupported("str.format of a symbolic value")
      return getattr(_lift(o, name), name)(*a, **kw)
    return g
  if name in DICT_METHODS and is_map(o):
    f = getattr(o, name)
    def g(*a, **kw):
      if a and V.is_sym(a[0]) and len(o): a = (key(o, a[0]),) + a[1:]
      return f(*a, **kw)
    return g
  return getattr(o, name)


def _format_map(o, mp):
  import string
  if not (FSTR["symbolic"] and isinstance(mp, dict) and any(V.is_sym(v) for v in mp.values())): return o.format_map(mp)
  parts = []
  for text, field, spec, conv in string.Formatter().parse(o):
    if text: parts.append(text)
    if field is None: continue
    if not field.isidentifier() or spec or conv: raise V.Unsupported("str.format_map field " + field)
    parts.append((mp[field], -1, ""))
  return f_(*parts)


def in_(a, b):
  if V.is_sym(a):
    t = type(b)
    if t is str or t is bytes: return _lift(b, "in").__contains__(a) if len(b) else len(a) == 0
    if is_map(b): return key(b, a) in b
  return a in b


def s_(o, k):
  if V.is_sym(k) and isinstance(o, dict): k = key(o, k)
  return o[k]


def k_(o, k):
  if V.is_sym(k) and isinstance(o, dict): return key(o, k)
  return k


_TYPES = {V.SymInt: int, V.SymBool: bool, V.SymReal: float, V.SymFloat: float, V.SymStr: str, V.SymBytes: bytes}

def t_(f, x):
  if f is type and V.is_sym(x): return _TYPES[type(x)]
  return f(x)


HELPERS = dict(__symx_t__=t_, __symx_f__=f_, __symx_m__=m_, __symx_in__=in_, __symx_s__=s_, __symx_k__=k_)


def transform(src, path):
  tree = T().visit(ast.parse(src, path))
  ast.fix_missing_locations(tree)
  return compile(tree, path, "exec", dont_inherit=True)


_orig = importlib.machinery.SourceFileLoader.get_code

def install():
  def get_code(self, fullname):
    path = self.get_filename(fullname)
    if not path.startswith(ROOT): return _orig(self, fullname)
    return transform(self.get_data(path), path)
  importlib.machinery.SourceFileLoader.get_code = get_code
  for k, v in HELPERS.items(): setattr(builtins, k, v)
  assert not any(m == "streamtasks" or m.startswith("streamtasks.") for m in sys.modules), "streamtasks imported before the instrumentation"
