import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools")); sys.path.insert(0, ROOT)
import props_src as S
from props.index import MODULES
ids = [x["id"] for x in S.P]
assert len(set(ids)) == len(ids)
for x in S.P:
  assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
na = dict(S.NA)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
  for x in sorted(S.P, key=lambda x: x["id"]): f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}) + "\n")
checks = []
for x in sorted(S.P, key=lambda x: x["id"]):
  if x["id"] in na: continue
  assert x["id"] in MODULES, x["id"]
  checks.append(dict(property=x["id"], quick_cmd=f"./check.sh {x['id']} quick", thorough_cmd=f"./check.sh {x['id']} thorough", evidence_file=f"evidence/{x['id']}.json",
    technique=x.get("_technique") or "symbolic execution of the real Python functions (proxy objects carrying SMT terms, exhaustive path exploration) with z3 deciding every branch and assertion for all inputs within bounds; counterexamples replayed on the plain code",
    level=x["_level"], level_note=x["_note"] or "exhaustive within the bounds recorded in the evidence file; outside them nothing is claimed"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in S.NA], notes="See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(S.P), "properties", len(checks), "claimed")
