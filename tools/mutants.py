#!/usr/bin/env python3
"""mutants.py FILE [id...]: quick feedback on candidate bugs.  FILE defines M = [(id, property, path, old, new)]; runs the quick check against a patched copy of the package."""
import os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
def run(m):
  i, prop, path, old, new = m[:5]
  w = f"/tmp/mut-{os.getpid()}-{i}"
  shutil.rmtree(w, ignore_errors=True)
  os.makedirs(w)
  shutil.copytree("/repo/streamtasks", w + "/streamtasks", ignore=shutil.ignore_patterns("__pycache__"))
  try:
    f = w + "/streamtasks/" + path
    s = open(f).read()
    if s.count(old) != 1: return i, prop, f"BAD EDIT count={s.count(old)}"
    open(f, "w").write(s.replace(old, new))
    t = time.time()
    r = subprocess.run(f"cd /verif && PYTHONPATH={w} VERIF_REPO={w} VERIF_OUT={w}/out timeout 800 ./check.sh {prop} quick", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    t = time.time() - t
    if r.returncode == 1 and "VIOLATION" in r.stdout: return i, prop, f"caught {t:.0f}s " + next((l[16:110] for l in r.stdout.splitlines() if l.startswith("counterexample")), "")
    return i, prop, f"MISSED rc={r.returncode} {t:.0f}s " + r.stdout[-700:]
  finally: shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
  for r in ex.map(run, [m for m in ns["M"] if not only or m[0] in only]): print(*r, flush=True)
