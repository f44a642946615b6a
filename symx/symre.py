"""Backtracking regular expression matcher over symbolic strings (driven by CPython's own parser of the pattern)."""
import re
import z3
from re import _parser as sp, _constants as sc
from symx import values as V
from symx.core import Unsupported

MAXREP = sc.MAXREPEAT


def _cls_test(items, c, ignorecase):
  """z3 condition (or bool) that character term/int c is in the class"""
  t = V._cterm(c)
  neg, conds = False, []
  for op, av in items:
    if op is sc.NEGATE: neg = True
    elif op is sc.LITERAL: conds.append(_lit(av, c, ignorecase))
    elif op is sc.RANGE:
      conds.append(z3.And(t >= av[0], t <= av[1]))
      if ignorecase:
        for d in (32, -32): conds.append(z3.And(_isalpha(t), t + d >= av[0], t + d <= av[1], _isalpha(t + d)))
    elif op is sc.CATEGORY: conds.append(_category(av, t))
    else: raise Unsupported("regex class " + str(op))
  r = z3.Or(*conds) if conds else z3.BoolVal(False)
  return z3.simplify(z3.Not(r) if neg else r)


def _isalpha(t): return z3.Or(z3.And(t >= 65, t <= 90), z3.And(t >= 97, t <= 122))


def _lit(av, c, ignorecase):
  t = V._cterm(c)
  if ignorecase and chr(av).isalpha() and av < 128: return z3.Or(t == ord(chr(av).lower()), t == ord(chr(av).upper()))
  return t == av


def _category(av, t):
  d = z3.And(t >= 48, t <= 57)
  w = z3.Or(d, _isalpha(t), t == 95)
  s = z3.Or(t == 32, z3.And(t >= 9, t <= 13), z3.And(t >= 28, t <= 31))
  m = {sc.CATEGORY_DIGIT: d, sc.CATEGORY_WORD: w, sc.CATEGORY_SPACE: s}
  n = {sc.CATEGORY_NOT_DIGIT: d, sc.CATEGORY_NOT_WORD: w, sc.CATEGORY_NOT_SPACE: s}
  if av in m: return m[av]
  if av in n: return z3.Not(n[av])
  raise Unsupported("regex category " + str(av))


class SymMatch:
  def __init__(self, pat, s, start, end, groups): self.re, self.string, self._s, self._e, self._g = pat, s, start, end, groups
  def _span(self, g):
    if g == 0: return (self._s, self._e)
    if isinstance(g, str): g = self.re.groupindex[g]
    if g > self.re.groups: raise IndexError("no such group")
    return self._g.get(g, (-1, -1))
  def _get(self, g):
    a, b = self._span(g)
    return None if a < 0 else self.string[a:b]
  def group(self, *gs):
    if not gs: return self._get(0)
    return self._get(gs[0]) if len(gs) == 1 else tuple(self._get(g) for g in gs)
  __getitem__ = _get
  def groups(self, default=None): return tuple(default if self._get(i) is None else self._get(i) for i in range(1, self.re.groups + 1))
  def groupdict(self, default=None): return {k: self._get(k) for k in self.re.groupindex}
  def start(self, g=0): return self._span(g)[0]
  def end(self, g=0): return self._span(g)[1]
  def span(self, g=0): return self._span(g)
  def __bool__(self): return True


class SymPattern:
  """wraps a compiled pattern: proxies are matched here, everything else by the real pattern"""
  def __init__(self, pat):
    self.pat, self.pattern, self.flags, self.groups, self.groupindex = pat, pat.pattern, pat.flags, pat.groups, pat.groupindex
    self._tree = None
  def _parse(self):
    if self._tree is None: self._tree = sp.parse(self.pattern, self.flags & ~re.DEBUG)
    return self._tree
  def _run(self, s, pos, full):
    tree = self._parse()
    fl = self.flags
    for end, g in _m(list(tree), 0, s.cs, pos, {}, fl):
      if not full or end == len(s.cs): return SymMatch(self, s, pos, end, g)
    return None
  def match(self, s, pos=0, *a):
    if not V.is_sym(s): return self.pat.match(s, pos, *a)
    return self._run(s, pos, False)
  def fullmatch(self, s, *a):
    if not V.is_sym(s): return self.pat.fullmatch(s, *a)
    return self._run(s, 0, True)
  def search(self, s, pos=0, *a):
    if not V.is_sym(s): return self.pat.search(s, pos, *a)
    for i in range(pos, len(s) + 1):
      m = self._run(s, i, False)
      if m is not None: return m
    return None
  def finditer(self, s, *a):
    if not V.is_sym(s): yield from self.pat.finditer(s, *a); return
    pos = 0
    while pos <= len(s):
      m = self.search(s, pos)
      if m is None: return
      yield m
      pos = m.end() + (1 if m.end() == m.start() else 0)
  def findall(self, s, *a):
    if not V.is_sym(s): return self.pat.findall(s, *a)
    return [m.group(0) if self.groups == 0 else m.group(1) if self.groups == 1 else m.groups() for m in self.finditer(s)]
  def sub(self, repl, s, count=0):
    if not V.is_sym(s): return self.pat.sub(repl, s, count)
    if not (isinstance(repl, str) and "\\" not in repl): raise Unsupported("regex sub with a template")
    out, pos, n = [], 0, 0
    for m in self.finditer(s):
      if count and n >= count: break
      out.extend(s.cs[pos:m.start()])
      out.extend(map(ord, repl))
      pos, n = m.end(), n + 1
    out.extend(s.cs[pos:])
    return V.SymStr(())._mk(out)
  def split(self, s, maxsplit=0):
    if not V.is_sym(s): return self.pat.split(s, maxsplit)
    out, pos, n = [], 0, 0
    for m in self.finditer(s):
      if maxsplit and n >= maxsplit: break
      out.append(s[pos:m.start()])
      out.extend(m.groups())
      pos, n = m.end(), n + 1
    return out + [s[pos:]]
  def __getattr__(self, n): return getattr(self.pat, n)


def _t(cond):
  if cond is True or cond is False: return cond
  return V.truth(z3.simplify(cond))


def _m(seq, i, cs, pos, g, fl):
  """generator of (end, groups) for matching seq[i:] at pos, in the order of CPython's matcher"""
  if i == len(seq):
    yield pos, g
    return
  op, av = seq[i]
  ic = bool(fl & re.IGNORECASE)
  n = len(cs)
  if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
    if pos >= n: return
    c = cs[pos]
    if op is sc.LITERAL: cond = _lit(av, c, ic)
    elif op is sc.NOT_LITERAL: cond = z3.Not(_lit(av, c, ic))
    elif op is sc.ANY: cond = True if fl & re.DOTALL else V._cterm(c) != 10
    else: cond = _cls_test(av, c, ic)
    if _t(cond): yield from _m(seq, i + 1, cs, pos + 1, g, fl)
  elif op is sc.AT:
    if av is sc.AT_BEGINNING_STRING or (av is sc.AT_BEGINNING and not fl & re.MULTILINE): ok = pos == 0
    elif av is sc.AT_BEGINNING: ok = pos == 0 or _t(V._cterm(cs[pos - 1]) == 10)
    elif av is sc.AT_END_STRING: ok = pos == n
    elif av is sc.AT_END: ok = pos == n or ((pos == n - 1 or fl & re.MULTILINE) and _t(V._cterm(cs[pos]) == 10))
    elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
      w = lambda k: 0 <= k < n and _t(_category(sc.CATEGORY_WORD, V._cterm(cs[k])))
      ok = (w(pos - 1) != w(pos)) == (av is sc.AT_BOUNDARY)
    else: raise Unsupported("regex anchor " + str(av))
    if ok: yield from _m(seq, i + 1, cs, pos, g, fl)
  elif op is sc.SUBPATTERN:
    gid, add, rem, p = av
    for end, g2 in _m(list(p), 0, cs, pos, g, (fl | add) & ~rem):
      g3 = dict(g2, **{}) if gid is None else {**g2, gid: (pos, end)}
      yield from _m(seq, i + 1, cs, end, g3, fl)
  elif op is sc.BRANCH:
    for alt in av[1]:
      for end, g2 in _m(list(alt), 0, cs, pos, g, fl): yield from _m(seq, i + 1, cs, end, g2, fl)
  elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
    lo, hi, p = av
    p = list(p)
    def rep(k, pos, g):
      if op is sc.MIN_REPEAT and k >= lo: yield pos, g
      if hi is MAXREP or k < hi:
        for end, g2 in _m(p, 0, cs, pos, g, fl):
          if end == pos and k >= lo: continue
          yield from rep(k + 1, end, g2)
      if op is sc.MAX_REPEAT and k >= lo: yield pos, g
    for end, g2 in rep(0, pos, g): yield from _m(seq, i + 1, cs, end, g2, fl)
  elif op in (sc.ASSERT, sc.ASSERT_NOT):
    if av[0] < 0: raise Unsupported("lookbehind")
    hit = next(_m(list(av[1]), 0, cs, pos, g, fl), None)
    if (hit is not None) == (op is sc.ASSERT): yield from _m(seq, i + 1, cs, pos, g if hit is None else hit[1], fl)
  else: raise Unsupported("regex op " + str(op))


class SymRe:
  """module stand-in for `re`"""
  def __getattr__(self, n): return getattr(re, n)
  @staticmethod
  def compile(p, flags=0):
    if V.is_sym(p): raise Unsupported("symbolic pattern")
    return p if isinstance(p, SymPattern) else SymPattern(re.compile(p, flags))
  def _f(name):
    def f(pattern, *a, flags=0, **kw): return getattr(SymRe.compile(pattern, flags), name)(*a, **kw)
    return staticmethod(f)
  finditer, findall = _f("finditer"), _f("findall")
  @staticmethod
  def match(p, s, flags=0): return SymRe.compile(p, flags).match(s)
  @staticmethod
  def fullmatch(p, s, flags=0): return SymRe.compile(p, flags).fullmatch(s)
  @staticmethod
  def search(p, s, flags=0): return SymRe.compile(p, flags).search(s)
  @staticmethod
  def sub(p, r, s, count=0, flags=0): return SymRe.compile(p, flags).sub(r, s, count)
  @staticmethod
  def split(p, s, maxsplit=0, flags=0): return SymRe.compile(p, flags).split(s, maxsplit)


SRE = SymRe()
