"""Writes MANIFEST.json from properties.jsonl and the check modules present in props/."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sx import paths; paths.setup()
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json"))) if os.path.exists(os.path.join(V, "tools", "not_applicable.json")) else {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
  p = json.loads(l)["id"]
  f = os.path.join(V, "props", p.lower() + ".py")
  if os.path.exists(f) and p not in NA:
    m = importlib.import_module("props." + p.lower())
    checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
      technique=getattr(m, "TECHNIQUE", "symbolic execution of the real nnx source (path forking on z3-decided branches), assertions discharged by z3"),
      level="model_checking",
      level_note=getattr(m, "LEVEL_NOTE", "") or ("Bounded: every path of the real code within the stated bounds, each path for all symbolic values on it; "
        "bounds in evidence. Trusts z3, the symbolic proxies (sx/proxies.py) and the `is`/isinstance hooks; counterexamples are replayed on the unmodified code before being reported. "
        + "Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", [])))))
  else:
    na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the instrumented copy is produced in memory from the current source on every run."),
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
