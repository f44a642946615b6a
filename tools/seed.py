#!/usr/bin/env python3
"""seed.py <id>: verify /verif/seeded/<id> in a scratch copy (demo clean/patched, tests), then run the property's check against that copy.
   seed.py --check <id> [prop...]: only the checks.  Leaves /repo alone; several can run at a time."""
import json, os, shutil, subprocess, sys, time
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
only = "--check" in sys.argv
i = args[0]
d = f"/verif/seeded/{i}"
meta = json.load(open(d + "/meta.json"))
ok = True
w = f"/tmp/seedwt-{i}"
shutil.rmtree(w, ignore_errors=True)
os.makedirs(w)
sh(f"cp -a /repo {w}/repo; cd {w}/repo; git checkout -q -- .; cp -r {d} {w}/demo")
env = f". /opt/vp/env.sh; export PYTHONPATH={w}/repo"
native = ".cpp" in open(d + "/patch.diff").read()
def build(): return sh(f"{env}; cd {w}/repo; sed 's#/repo#{w}/repo#g' /opt/vp/ext.sh > {w}/ext.sh; bash {w}/ext.sh").returncode
try:
  if not only:
    r = sh(f"{env}; bash {w}/demo/demo.sh", cwd=f"{w}/repo", timeout=300)
    print("demo clean rc", r.returncode); ok &= r.returncode == 0
    if r.returncode: print(r.stdout[-1500:])
  r = sh(f"git apply {d}/patch.diff", cwd=f"{w}/repo"); ok &= r.returncode == 0
  if r.returncode: print("apply rc", r.returncode, r.stdout[-300:])
  if native: print("build rc", build())
  if not only:
    r = sh(f"{env}; bash {w}/demo/demo.sh", cwd=f"{w}/repo", timeout=300)
    print("demo patched rc", r.returncode, r.stdout[-300:].strip()); ok &= r.returncode != 0
    r = sh(f"{env}; cd {w}/repo; mkdir -p {w}/t; TMPDIR={w}/t FULL=1 DEBUG_SER=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=tests/media/test_containers.py -o junit_family=xunit2 --junitxml={w}/junit.xml tests; /usr/bin/python3 /opt/vp/results.py {w}/o.json junit:{w}/junit.xml")
    o = json.load(open(f"{w}/o.json"))
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"]); print("tests missing:", miss); ok &= not miss
  for p in (args[1:] or [meta["property"]]):
    t = time.time()
    r = sh(f"cd /verif && PYTHONPATH={w}/repo VERIF_REPO={w}/repo VERIF_OUT={w}/out ./check.sh {p} quick")
    print(i, p, "CAUGHT" if r.returncode == 1 else "MISSED rc %d" % r.returncode, "%.0fs" % (time.time() - t), [l[:200] for l in r.stdout.splitlines() if "VIOLATION" in l or "counterexample" in l] or r.stdout[-900:])
finally: shutil.rmtree(w, ignore_errors=True)
if not only: print("SEED OK" if ok else "SEED BAD")
