"""Path-exploring symbolic executor for CPython code.

The real functions of /repo are imported and *executed*; their inputs are proxy
objects (symx.values) that carry z3 terms.  Whenever the code needs a concrete
truth value the engine asks z3 which outcomes are feasible under the current
path condition and explores every feasible one (depth first, by re-execution).
Assertions (`Ctx.check`) are decided by z3 for *all* values satisfying the path
condition of the path that reaches them.
"""
import asyncio
import time
import z3


class PathAbort(BaseException):
  """current path ends here (infeasible assumption or finished early)"""


class Violation(BaseException):
  def __init__(self, label, inputs, info=None):
    super().__init__(label)
    self.label, self.inputs, self.info = label, inputs, info


class BudgetExceeded(BaseException): pass


class Unsupported(Exception):
  """the proxies cannot model an operation the code performed"""


def _same(a, b):
  """a term met again on re-execution: the simplifier may order commutative arguments differently"""
  if a.hash() == b.hash() or a.eq(b): return True
  s = z3.Solver()
  s.set("timeout", 5000)
  s.add(a != b)
  return s.check() == z3.unsat


class Engine:
  current = None

  def __init__(self, query_timeout_ms=20000, deadline=None, max_paths=None):
    self.solver = z3.SolverFor("ALL") if False else z3.Solver()
    self.solver.set("timeout", query_timeout_ms)
    self.trail = []           # (kind, data...) aligned with execution events
    self.pos = 0
    self.model = None
    self.deadline = deadline
    self.max_paths = max_paths
    self.stats = dict(paths=0, aborted=0, branches=0, queries=0, solver_s=0.0,
                      checks=0, checks_discharged=0, checks_trivial=0, unknown=0,
                      concretised=0, assumes=0, realizations=0)
    self.label_hits = {}
    self.consts = {}
    self.fresh_n = 0
    self.pending = None       # control exception that must not be swallowed by the code under test

  def throw(self, exc):
    self.pending = exc
    raise exc

  def poll(self):
    if self.pending is not None: raise self.pending

  # -- solver -------------------------------------------------------------
  def _check(self, *assumptions):
    t = time.perf_counter()
    r = self.solver.check(*assumptions)
    dt = time.perf_counter() - t
    self.stats["solver_s"] += dt
    self.stats["queries"] += 1
    if r == z3.unknown: self.stats["unknown"] += 1
    return r

  def valid(self, e, ms=20000):
    """whether e holds for every value of its constants, on any path (a lemma)"""
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(z3.Not(e))
    t = time.perf_counter()
    r = s.check()
    self.stats["solver_s"] += time.perf_counter() - t
    self.stats["queries"] += 1
    self.stats["checks"] += 1
    self.stats["checks_discharged"] += r == z3.unsat
    return r == z3.unsat

  def _sat_with(self, e):
    """(result, model) of path-condition AND e"""
    self.solver.push()
    self.solver.add(e)
    r = self._check()
    m = self.solver.model() if r == z3.sat else None
    self.solver.pop()
    return r, m

  def _model_says(self, e):
    if self.model is None: return None
    try: v = self.model.eval(e, model_completion=True)
    except z3.Z3Exception: return None
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return None

  def _commit(self, e):
    self.solver.push()
    self.solver.add(e)

  # -- events -------------------------------------------------------------
  def branch(self, e):
    """decide a z3 Bool; returns a python bool and extends the path condition"""
    self.poll()
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    self.stats["branches"] += 1
    i = self.pos
    if i < len(self.trail):
      ent = self.trail[i]
      if ent[0] != "b" or not _same(ent[1], e): raise Unsupported("non-deterministic re-execution (branch)")
      self.pos += 1
      return ent[2]
    if self.deadline is not None and time.time() > self.deadline: self.throw(BudgetExceeded())
    guess = self._model_says(e)
    if guess is None:
      rt, mt = self._sat_with(e)
      if rt == z3.sat: guess, self.model = True, mt
      elif rt == z3.unknown: guess = True
      else:
        self._record(("b", e, False, None, None), z3.Not(e))
        return False
    other = z3.Not(e) if guess else e
    ro, mo = self._sat_with(other)
    taken = e if guess else z3.Not(e)
    if ro == z3.unsat: self._record(("b", e, guess, None, None), taken)
    else: self._record(("b", e, guess, other, mo), taken)
    return guess

  def _record(self, ent, e):
    self._commit(e)
    self.trail.append(ent)
    self.pos += 1

  def choose(self, n_label, options):
    """n-ary choice: options = list of z3 Bool (mutually exclusive); returns index"""
    for k, o in enumerate(options[:-1]):
      if self.branch(o): return k
    self.assume(options[-1])
    return len(options) - 1

  def assume(self, e):
    self.poll()
    if isinstance(e, bool):
      if not e: self.throw(PathAbort())
      return
    e = z3.simplify(e)
    if z3.is_true(e): return
    if z3.is_false(e): self.throw(PathAbort())
    self.stats["assumes"] += 1
    i = self.pos
    if i < len(self.trail):
      ent = self.trail[i]
      if ent[0] != "a" or not _same(ent[1], e): raise Unsupported("non-deterministic re-execution (assume)")
      self.pos += 1
      if not ent[2]: self.throw(PathAbort())
      return
    ok = True
    if self._model_says(e) is not True:
      r, m = self._sat_with(e)
      if r == z3.unsat: ok = False
      else: self.model = m
    self._record(("a", e, ok), e)
    if not ok: self.throw(PathAbort())

  def check(self, e, label, info=None):
    """assert e on every value of the current path; raises Violation with a model"""
    self.poll()
    self.label_hits[label] = self.label_hits.get(label, 0) + 1
    if isinstance(e, bool):
      i = self.pos
      if e:
        if i < len(self.trail) and self.trail[i][0] == "t":
          self.pos += 1
          return
        self.stats["checks"] += 1
        self.stats["checks_trivial"] += 1
        self._record(("t",), z3.BoolVal(True))
        return
      self.throw(Violation(label, self.extract(), info))
    e = z3.simplify(e)
    i = self.pos
    if i < len(self.trail):
      ent = self.trail[i]
      if ent[0] != "c" or not _same(ent[1], e): raise Unsupported("non-deterministic re-execution (check)")
      self.pos += 1
      return
    self.stats["checks"] += 1
    if z3.is_true(e): self.stats["checks_discharged"] += 1
    elif self._model_says(e) is False: self.throw(Violation(label, self.extract(), info))
    else:
      r, m = self._sat_with(z3.Not(e))
      if r == z3.sat:
        self.model = m
        self.throw(Violation(label, self.extract(), info))
      if r == z3.unsat: self.stats["checks_discharged"] += 1
    self._record(("c", e), z3.BoolVal(True))

  # -- inputs -------------------------------------------------------------
  def declare(self, name, const, kind):
    self.consts[name] = (const, kind)

  def ensure_model(self):
    if self.model is None:
      if self._check() == z3.sat: self.model = self.solver.model()
      else: raise Unsupported("no model for the current path")
    return self.model

  def extract(self):
    m = self.ensure_model()
    from symx.values import model_value
    return {n: model_value(m, c, k) for n, (c, k) in self.consts.items()}

  def fresh(self, prefix, sort):
    self.fresh_n += 1
    return z3.Const(f"{prefix}!{self.fresh_n}", sort)

  # -- exploration --------------------------------------------------------
  def explore(self, fn, on_path=None, on_violation=None, on_error=None):
    """run fn() over all paths. Returns True if the tree was exhausted."""
    Engine.current = self
    try:
      while True:
        self.pos = 0
        self.fresh_n = 0
        self.consts = {}
        self.pending = None
        if self.deadline is not None and time.time() > self.deadline: return False
        if self.max_paths is not None and self.stats["paths"] >= self.max_paths: return False
        try:
          fn()
          self.poll()
          self.stats["paths"] += 1
          if on_path is not None: on_path(self)
        except PathAbort: self.stats["aborted"] += 1
        except BudgetExceeded: return False
        except Violation as v:
          self.stats["paths"] += 1
          if on_violation is not None and on_violation(v): return False
        except (Exception, asyncio.CancelledError) as ex:
          if self.pending is not None:
            # the code under test converted a control exception into another one
            p = self.pending
            if isinstance(p, BudgetExceeded): return False
            if isinstance(p, Violation):
              self.stats["paths"] += 1
              if on_violation is not None and on_violation(p): return False
            else: self.stats["aborted"] += 1
            ex = None
          else: self.stats["paths"] += 1
          if ex is None: pass
          elif on_error is None: raise
          elif on_error(ex): return False
        # backtrack
        while self.trail:
          ent = self.trail.pop()
          self.solver.pop()
          if ent[0] == "b" and ent[3] is not None:
            self.solver.push()
            self.solver.add(ent[3])
            self.model = ent[4]
            self.trail.append(("b", ent[1], not ent[2], None, None))
            break
        else: return True
    finally: Engine.current = None
