"""Development tool: make a seeded change from a spec and confirm it in a scratch copy.
usage: plant.py spec.py [id...]   (spec.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)])
       plant.py --check ids...    run the property's quick check on the seeded changes (all if none given)"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
BASE = os.environ.get("PLANT_BASE", "/repo")
PY = "/opt/venv/bin/python"
def sh(c, cwd=None, env=None, timeout=900):
  e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", PYTHONHASHSEED="0", **(env or {}))
  r = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
  return r.returncode, r.stdout
def copy(name):
  d = tempfile.mkdtemp(prefix=f"pl_{name}_", dir="/tmp")
  sh(f"cp -a {BASE} {d}/repo")
  return d, d + "/repo"
def stable():
  return set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
def check(prop, repo, tier="quick", jobs=""):
  rc, out = sh(f"./check {prop} {tier}", cwd=V, env=dict(VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER=tier, VERIF_EVIDENCE=repo + "/../ev"))
  return rc, out
def plant(b):
  d, repo = copy(b['id'])
  try:
    for f, old, new in b['edits']:
      p = os.path.join(repo, f); s = open(p).read()
      if s.count(old) != 1: return b['id'], f"EDIT MATCHES {s.count(old)} times in {f}"
      open(p, "w").write(s.replace(old, new))
    rc, diff = sh("git diff", cwd=repo)
    rc, out = sh(f"{PY} -m pytest -q -p no:cacheprovider tests --timeout=300 -x -q", cwd=repo, env=dict(PYTHONPATH=repo))
    if rc: return b['id'], "TESTS FAIL\n" + out[-1500:]
    t = os.path.join(SEED, b['id']); os.makedirs(t, exist_ok=True)
    open(t + "/patch.diff", "w").write(diff)
    open(t + "/demo.py", "w").write(b['demo'])
    open(t + "/demo.sh", "w").write('#!/bin/sh\nJAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(t + "/demo.sh", 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(t + "/meta.json", "w"), indent=1)
    a, oa = sh(f"sh {t}/demo.sh", cwd=BASE); c, oc = sh(f"sh {t}/demo.sh", cwd=repo)
    if a or not c:
      shutil.rmtree(t); return b['id'], f"DEMO unchanged={a} patched={c}\n{oa[-800:]}\n{oc[-800:]}"
    rc, out = check(b['prop'], repo)
    return b['id'], f"planted; {b['prop']}: {'CAUGHT' if rc == 1 and 'VIOLATION property=' + b['prop'] in out else 'MISSED' if rc == 0 else 'ERROR'} " + out[-500 if rc != 1 else -300:].strip()
  finally: shutil.rmtree(d)
def recheck(i):
  m = json.load(open(f"{SEED}/{i}/meta.json"))
  d, repo = copy(i)
  try:
    rc, o = sh(f"git apply {SEED}/{i}/patch.diff", cwd=repo)
    if rc: return i, "patch does not apply"
    rc, out = check(m['property'], repo)
    return i, f"{m['property']}: {'CAUGHT' if rc == 1 and 'VIOLATION property=' in out else 'MISSED' if rc == 0 else 'ERROR'} " + out[-200:].strip()
  finally: shutil.rmtree(d)
if __name__ == "__main__":
  if sys.argv[1] == "--check":
    ids = sys.argv[2:] or sorted(os.listdir(SEED)); f, items = recheck, ids
  else:
    g = {}; exec(open(sys.argv[1]).read(), g)
    f, items = plant, [b for b in g['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
  with ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(f, items): print(f"=== {i}: {r}", flush=True)
