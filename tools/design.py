"""writes DESIGN.md"""
import glob, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("tools", ""): sys.path.insert(0, os.path.join(ROOT, d))
sys.path.insert(0, "/repo")
import props_src as S
D = os.path.join(ROOT, "tools/design/")
read = lambda n: open(D + n).read()
how = dict(l.split(": ", 1) for l in read("how.md").splitlines() if l.strip())
import ast
from props.index import MODULES
META = {}
for f in glob.glob(os.path.join(ROOT, "props/*.py")):
  for node in ast.walk(ast.parse(open(f).read())):
    if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "meta": META[node.args[0].value] = {k.arg: ast.literal_eval(k.value) for k in node.keywords}
cost = json.load(open(D + "cost.json")) if os.path.exists(D + "cost.json") else {}
na = dict(S.NA)
out = [read("head.md"), "\n## 2. What is not claimed\n"]
out += [f"* **{i}** {next((p['title'] for p in S.P if p['id'] == i), '')}: {r}" for i, r in S.NA] or ["Every property listed in properties.jsonl is claimed."]
out.append("\nParts of the repository no property covers: the JavaScript front end, the browser, TTS, ASR and LLM tasks (they call external libraries and models that are not installed), the hardware tasks (screen, camera, audio devices), command line and LLM integration.\n")
out.append("## 3. The properties\n\nOracle, bounds and cost per property; the full statements are in properties.jsonl. Costs are of the quick check on 8 cores.\n")
for p in sorted(S.P, key=lambda p: p["id"]):
  i = p["id"]
  if i in na: continue
  m, c = META[i], cost.get(i, {})
  out.append(f"### {i} {p['title']}\n")
  out.append(f"{how[i]}\n")
  out.append(f"* code: {', '.join(p['anchors']['files'])}; harnesses: props/{MODULES[i][0]}.py")
  out.append(f"* bounds: {m.get('bounds', '')}")
  if m.get("outside"): out.append(f"* outside: {m['outside']}")
  if m.get("assumptions"): out.append(f"* assumptions: {m['assumptions'] if isinstance(m['assumptions'], str) else '; '.join(m['assumptions'])}")
  if c: out.append(f"* cost: {c['paths']} paths, {c['queries']} queries, {c['wall']:.0f} s")
  out.append(f"* beyond tests: {p['why_tests_cant']}\n")
tail = read("tail.md")
kf = [l for l in open(os.path.join(ROOT, "known_findings.txt")).read().splitlines() if l.strip() and not l.startswith("#")]
known = [l for l in kf if not l.startswith("fixed:")]
tail = tail.replace("@KNOWN@", "\n".join("* " + l for l in known) or "(none)").replace("@NFIXED@", str(sum(l.startswith("fixed:") for l in kf)))
rows = ["| id | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
  j = json.load(open(d))
  rows.append(f"| {os.path.basename(os.path.dirname(d))} | {j['property']} | {j['needs']} | {j['what_it_breaks']} |")
tail = tail.replace("@SEEDS@", "\n".join(rows)).replace("@MUTANTS@", "about 230")
out.append(tail)
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
