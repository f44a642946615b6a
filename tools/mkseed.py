"""helper: from mkseed import seed; seed(id, prop, [(path, old, new)...], needs, breaks, demo)"""
import json, os, shutil, subprocess
def seed(i, prop, edits, needs, breaks, demo, check=True):
  w = f"/tmp/mkseed-{i}"
  shutil.rmtree(w, ignore_errors=True)
  subprocess.check_call(["git", "clone", "-q", "/repo", w])
  for path, old, new in edits:
    s = open(f"{w}/{path}").read()
    assert s.count(old) == 1, (i, path, s.count(old))
    open(f"{w}/{path}", "w").write(s.replace(old, new))
  diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
  shutil.rmtree(w)
  d = f"/verif/seeded/{i}"
  os.makedirs(d, exist_ok=True)
  open(d + "/patch.diff", "w").write(diff)
  open(d + "/meta.json", "w").write(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
  open(d + "/demo.sh", "w").write('#!/bin/bash\n[ -f /opt/vp/env.sh ] && { P="${PYTHONPATH-}"; . /opt/vp/env.sh; export PYTHONPATH="${P:-$PWD}"; }\nexec timeout 120 python "$(dirname "$0")/demo.py"\n')
  open(d + "/demo.py", "w").write(demo.lstrip("\n"))
  os.chmod(d + "/demo.sh", 0o755)
  if check: print(i); print(subprocess.run(["python3", "/verif/tools/seed.py", i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout)
