"""Check driver: symx/run.py <property> --tier quick|thorough   |   --replay FILE"""
import argparse
import gc
import hashlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
  if _p not in sys.path: sys.path.append(_p)
PY = sys.executable


def replay_batch(jobs, timeout=300):
  """concrete replays in a fresh plain interpreter"""
  if not jobs: return []
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
  try:
    p = subprocess.run([PY, os.path.join(HERE, "replay.py")], input="".join(json.dumps(j) + "\n" for j in jobs), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
  except subprocess.TimeoutExpired: return [dict(outcome="error", err="timeout")] * len(jobs)
  res = []
  for line in p.stdout.splitlines():
    try: res.append(json.loads(line))
    except json.JSONDecodeError: pass
  while len(res) < len(jobs): res.append(dict(outcome="error", err="replay process died: " + p.stderr[-800:]))
  return res


def job_main(args):
  """one (harness, shard) exploration, in a worker process"""
  prop, hname, params, deadline, seed = args
  import logging
  logging.disable(logging.CRITICAL)
  from symx.harness import REG
  from symx import ctx as C, exec as X
  from symx.core import Engine
  X.start_function_tracking()
  h = next(x for x in REG[prop] if x.name == hname)
  if h.setup: h.setup()
  rnd = random.Random(f"{seed}/{hname}/{params}")
  t0 = time.time()
  if h.budget: deadline = min(deadline, t0 + h.budget[params["_tier"]] if isinstance(h.budget, dict) else t0 + h.budget)
  e = Engine(deadline=deadline)
  out = dict(harness=hname, params=params, violation=None, spurious=[], unmodelled=[], samples=[], exhausted=False, harness_errors=[])
  cur = {}
  sys.unraisablehook = lambda u: None
  devnull = open(os.devnull, "w")
  sys.stdout = devnull
  gc.disable()
  n = [0]

  def fn():
    cur["ctx"] = None
    n[0] += 1
    if n[0] % 50 == 0: gc.collect()
    cur["ctx"] = X.run_symbolic(h, params, e)

  def on_path(eng):
    k = eng.stats["paths"]
    if len(out["samples"]) < 3: slot = len(out["samples"])
    elif rnd.random() < 3.0 / k: slot = rnd.randrange(3)
    else: return
    m = eng.ensure_model()
    s = dict(inputs=eng.extract(), obs=C.eval_obs(m, cur["ctx"].obs))
    if slot == len(out["samples"]): out["samples"].append(s)
    else: out["samples"][slot] = s

  def confirm(label, inputs, info):
    r = replay_batch([dict(prop=prop, harness=hname, params=params, inputs=inputs)], timeout=120)[0]
    if r["outcome"] == "harness_error": out["harness_errors"].append(r["err"])
    if r["outcome"] in ("violation", "exception"):
      out["violation"] = dict(label=r.get("label", label), symbolic_label=label, inputs=inputs, info=str(info), replay=r)
      return True
    return r

  def on_violation(v):
    r = confirm(v.label, v.inputs, v.info)
    if r is True: return True
    out["spurious"].append(dict(label=v.label, inputs=v.inputs, info=str(v.info), replay=r))
    return len(out["spurious"]) >= 5

  def on_error(ex):
    e.stats["concretised"] += 1
    tb = "".join(traceback.format_exception(ex))[-1500:]
    if len(out["unmodelled"]) < 12:
      try: inputs = e.extract()
      except Exception: inputs = None
      if inputs is not None:
        r = confirm("exception:" + type(ex).__name__, inputs, tb)
        if r is True: return True
        out["unmodelled"].append(dict(err=tb, replay=r.get("outcome"), replay_err=r.get("err")))
    return False

  try: out["exhausted"] = e.explore(fn, on_path, on_violation, on_error)
  except BaseException as ex:
    out["crash"] = "".join(traceback.format_exception(ex))[-3000:]
  out["stats"] = e.stats
  out["labels"] = e.label_hits
  out["functions"] = X.functions_seen()
  out["wall_s"] = time.time() - t0
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop", nargs="?")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--replay")
  ap.add_argument("--harness")
  ap.add_argument("--jobs", type=int, default=8)
  ap.add_argument("--budget", type=float)
  ap.add_argument("-v", action="store_true")
  a = ap.parse_args()
  if a.replay:
    d = json.load(open(a.replay))
    r = replay_batch([dict(prop=d["property"], harness=d["harness"], params=d["params"], inputs=d["inputs"])])[0]
    print(json.dumps(r, indent=1))
    return 1 if r["outcome"] in ("violation", "exception") else 0
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  from props import load
  from symx import rewrite
  rewrite.install()
  load(a.prop)
  from symx.harness import REG, META
  hs = [h for h in REG[a.prop] if a.harness in (None, h.name)]
  budget = a.budget or (240 if a.tier == "quick" else 780)
  deadline = t0 + budget
  jobs = [(a.prop, h.name, s, deadline, seed) for h in hs for s in h.shards(a.tier)]
  ctxmp = mp.get_context("fork")
  results = []
  stop = False
  with ctxmp.Pool(min(a.jobs, len(jobs)), maxtasksperchild=4) as pool:
    for r in pool.imap_unordered(job_main, jobs, chunksize=1):
      results.append(r)
      kh = next(h for h in hs if h.name == r["harness"])
      if kh.known:
        r["exhausted"] = True
        if r["violation"] is not None and any(f"harness={kh.name} " in f and f'label="{r["violation"]["label"]}"' in f for f in known_findings(a.prop)):
          r["known"], r["violation"] = r["violation"], None
      if a.v: print(r["harness"], {k: v for k, v in r["params"].items() if k != "_tier"}, "paths", r["stats"]["paths"], "q", r["stats"]["queries"], "wall %.1f" % r["wall_s"], "exh", r["exhausted"], r["labels"], "CRASH " + r["crash"] if "crash" in r else "", flush=True)
      if r["violation"] is not None:
        stop = True
        break
    if stop: pool.terminate()
  return report(a, hs, jobs, results, t0, seed, META.get(a.prop, {}))


def report(a, hs, jobs, results, t0, seed, meta):
  from symx import ctx as C
  prop = a.prop
  tot = {}
  for r in results:
    for k, v in r["stats"].items(): tot[k] = tot.get(k, 0) + v
  labels, functions, per = {}, set(), {}
  for r in results:
    for k, v in r["labels"].items(): labels[r["harness"] + "/" + k] = labels.get(r["harness"] + "/" + k, 0) + v
    functions |= set(r["functions"])
    p = per.setdefault(r["harness"], dict(shards=0, exhausted=0, paths=0, queries=0, checks=0, solver_s=0.0, wall_s=0.0))
    p["shards"] += 1
    p["exhausted"] += bool(r["exhausted"])
    for k in ("paths", "queries", "checks"): p[k] += r["stats"][k]
    p["solver_s"] = round(p["solver_s"] + r["stats"]["solver_s"], 2)
    p["wall_s"] = round(p["wall_s"] + r["wall_s"], 2)
  viol = next((r for r in results if r["violation"]), None)
  spurious = [(r["harness"], s) for r in results for s in r["spurious"]]
  unmod = [(r["harness"], s) for r in results for s in r["unmodelled"]]
  crashes = [(r["harness"], r["crash"]) for r in results if "crash" in r]

  # validate the encoding: concrete replays of sampled symbolic paths must observe the same outputs
  validated, mismatches, samples = 0, [], []
  if viol is None:
    batch, exp = [], []
    for r in results:
      for s in r["samples"]:
        batch.append(dict(prop=prop, harness=r["harness"], params=r["params"], inputs=s["inputs"]))
        exp.append(s["obs"])
    rnd = random.Random(seed)
    idx = list(range(len(batch)))
    rnd.shuffle(idx)
    idx = idx[:(48 if a.tier == "quick" else 200)]
    nproc = min(8, max(1, len(idx) // 6))
    parts = [idx[i::nproc] for i in range(nproc)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(nproc) as ex: outs = list(ex.map(lambda part: replay_batch([batch[i] for i in part]), parts))
    for part, out in zip(parts, outs):
      for i, r in zip(part, out):
        if r["outcome"] == "ok" and C.obs_equal(r["obs"], exp[i]):
          validated += 1
          if len(samples) < 6: samples.append(dict(harness=batch[i]["harness"], inputs=batch[i]["inputs"], observed=r["obs"][:6] if isinstance(r["obs"], list) else r["obs"]))
        elif r["outcome"] in ("violation", "exception"):
          viol = dict(harness=batch[i]["harness"], params=batch[i]["params"], violation=dict(label=r.get("label"), symbolic_label="path-sample", inputs=batch[i]["inputs"], info="found while validating a sampled path", replay=r))
        else: mismatches.append(dict(harness=batch[i]["harness"], params=batch[i]["params"], inputs=batch[i]["inputs"], symbolic=exp[i], concrete=r))
  missing = []
  for h in hs:
    for m in h.must:
      if viol is None and not labels.get(h.name + "/" + m): missing.append(h.name + "/" + m)

  complete = all(r["exhausted"] for r in results) and len(results) == len(jobs)
  ev = dict(property=prop, tier=a.tier, seed=seed, level="model_checking",
    coverage=dict(
      states=tot.get("paths", 0), transitions=tot.get("branches", 0), traces_validated_against_impl=validated, samples=samples,
      other=dict(
        explanation="states = complete symbolic execution paths of the real functions, transitions = solver-decided branch points; every assertion on a path was decided by z3 for all input values satisfying the path condition",
        functions_encoded=sorted(functions), bounds=meta.get("bounds", ""), outside_the_claim=meta.get("outside", ""),
        paths=tot.get("paths", 0), paths_infeasible=tot.get("aborted", 0), branches=tot.get("branches", 0),
        queries_discharged=tot.get("queries", 0), solver_seconds=round(tot.get("solver_s", 0), 2), unknown=tot.get("unknown", 0),
        assertions=tot.get("checks", 0), assertions_by_solver=tot.get("checks_discharged", 0), assertions_on_concrete_path_values=tot.get("checks_trivial", 0),
        paths_not_modelled_checked_at_one_point_only=tot.get("concretised", 0),
        exhaustive_within_bounds=complete, per_harness=per, reachability_witnesses=labels,
        encoding_mismatches=len(mismatches), unreached_assertions=missing)),
    assumptions=meta.get("assumptions", ["z3 is sound", "CPython semantics of the operations the proxies implement"]),
    wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
  out_dir = os.environ.get("VERIF_OUT", os.path.join(ROOT, "evidence"))   # elsewhere only when trying planted bugs
  os.makedirs(out_dir, exist_ok=True)
  evp = os.path.join(out_dir, prop + ".json")
  json.dump(ev, open(evp, "w"), indent=1, default=str)
  print(f"{prop} tier={a.tier} paths={tot.get('paths',0)} infeasible={tot.get('aborted',0)} branches={tot.get('branches',0)} queries={tot.get('queries',0)} solver={tot.get('solver_s',0):.1f}s "
        f"assertions={tot.get('checks',0)} validated={validated} unmodelled={tot.get('concretised',0)} unknown={tot.get('unknown',0)} exhaustive={complete} wall={time.time()-t0:.1f}s")
  if viol:
    d = os.path.join(out_dir, "replays")
    os.makedirs(d, exist_ok=True)
    v = viol["violation"]
    rec = dict(property=prop, harness=viol["harness"], params=viol["params"], inputs=v["inputs"], label=v["label"], symbolic_label=v["symbolic_label"], info=v["info"], replay=v["replay"])
    path = os.path.join(d, f"{prop}-{hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]}.json")
    json.dump(rec, open(path, "w"), indent=1, default=str)
    print("counterexample:", viol["harness"], v["label"], json.dumps(v["inputs"])[:600])
    print(f"VIOLATION property={prop} replay={path}")
    return 1
  hit = {r["harness"] for r in results if r.get("known")}
  for f in known_findings(prop):
    if any(f"harness={n} " in f for n in hit): print(f"KNOWN-FINDING: property={prop} {f}")
  harness_errors = [s for r in results for s in r.get("harness_errors", [])]
  for he in harness_errors[:2]: print("HARNESS-ERROR:", he[-1200:])
  bad = False
  if harness_errors: bad = True
  for k, (hn, s) in enumerate(spurious):
    if k < 3: print(f"ENCODING-ERROR: counterexample does not reproduce: {hn} {s['label']} {json.dumps(s['inputs'])[:400]} info={s['info'][:300]} replay={str(s['replay'])[:400]}")
  for m in mismatches[:3]: print("ENCODING-WARNING: sampled path observed differently:", json.dumps(m, default=str)[:900])
  for hn, u in unmod[:3]: print("UNMODELLED:", hn, u["err"][-700:], u["replay"], (u.get("replay_err") or "")[-300:])
  for c in crashes:
    bad = True
    print("CRASH:", c[0], c[1])
  if missing:
    print("UNREACHED:", missing)
    if complete: bad = True
  return 2 if bad else 0


def known_findings(prop):
  p = os.path.join(ROOT, "known_findings.txt")
  if not os.path.exists(p): return []
  out = []
  for line in open(p):
    if line.startswith(f"known: property={prop} "): out.append(line[len(f"known: property={prop} "):].strip())
  return out


if __name__ == "__main__":
  sys.exit(main())
