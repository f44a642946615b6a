"""Plain concrete replay server: reads JSON jobs on stdin, one result line per job. No proxies, no injection."""
import json
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")   # z3 (imported by symx, unused in replays)


def main():
  import logging
  logging.disable(logging.CRITICAL)
  from props import load
  from symx.harness import REG
  from symx.exec import run_concrete
  out = os.fdopen(os.dup(1), "w")
  os.dup2(2, 1)   # whatever the code under test prints must not disturb the protocol
  for line in sys.stdin:
    job = json.loads(line)
    load(job["prop"])
    h = next(x for x in REG[job["prop"]] if x.name == job["harness"])
    if h.setup: h.setup()
    res = run_concrete(h, job["params"], job["inputs"])
    out.write(json.dumps(res, default=str) + "\n")
    out.flush()


if __name__ == "__main__": main()
