"""Runs one harness instance symbolically or concretely."""
import asyncio
import contextlib
import gc
import sys
import traceback
from symx import ctx as C
from symx import inject, rewrite, values as V
from symx.core import Engine
from symx.loop import Deadlock, StepLimit

REPO = rewrite.ROOT.rstrip("/")
_functions = set()


def start_function_tracking():
  mon = sys.monitoring
  tid = 3
  try: mon.use_tool_id(tid, "symx")
  except ValueError: return
  def on_start(code, off):
    if code.co_filename.startswith(REPO): _functions.add(code.co_filename[len(REPO) - len("streamtasks"):] + ":" + code.co_qualname)
    return mon.DISABLE
  mon.register_callback(tid, mon.events.PY_START, on_start)
  mon.set_events(tid, mon.events.PY_START)


def functions_seen(): return sorted(_functions)


def run_symbolic(h, params, engine):
  ctx = C.SymCtx(engine, params)
  V.TRUEDIV["mode"] = h.truediv
  V.FORMAT_MODE["mode"] = h.fmt
  rewrite.FSTR["symbolic"] = h.strings
  try:
    with inject.injected(strings=h.strings, extra=h.extra):
      with (model_patch() if h.model_patch else contextlib.nullcontext()):
        h.fn(ctx, **{k: v for k, v in params.items() if not k.startswith("_")})
    return ctx
  finally:
    ctx.close()


def run_concrete(h, params, inputs):
  """-> dict(outcome=ok|violation|exception|assume, label, err, obs)"""
  ctx = C.ConcCtx(inputs, params)
  try:
    try:
      h.fn(ctx, **{k: v for k, v in params.items() if not k.startswith("_")})
      return dict(outcome="ok", obs=C.eval_obs(None, ctx.obs), labels=ctx.labels)
    finally: ctx.close()
  except C.ReplayViolation as v: return dict(outcome="violation", label=v.label, info=str(v.info), obs=C.eval_obs(None, ctx.obs))
  except C.ReplayAssume: return dict(outcome="assume")
  except (Exception, asyncio.CancelledError) as e:
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    last = {p: max((i for i, f in enumerate(files) if f.startswith(p)), default=-1) for p in (REPO, "/verif/props")}
    # an exception that did not come out of the code under test says something about the harness, not about the code
    # (except that it did not finish in time)
    kind = "exception" if last[REPO] > last["/verif/props"] or isinstance(e, (TimeoutError, Deadlock, StepLimit)) else "harness_error"
    return dict(outcome=kind, label="exception:" + type(e).__name__, err=traceback.format_exc()[-1500:])


def model_patch():
  from symx.modelpatch import patched_models
  return patched_models()
