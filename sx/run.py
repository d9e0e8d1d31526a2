"""check driver: python -m sx.run PROPERTY"""
import sys, os, json, time, subprocess, threading, queue, hashlib, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sx import paths; paths.setup()
PY = "/opt/venv/bin/python"

def env():
  e = dict(os.environ)
  e.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUNBUFFERED="1",
           OMP_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3",
           XLA_FLAGS=e.get("XLA_FLAGS", "") + " --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
  return e

class Worker:
  def __init__(self):
    self.p = subprocess.Popen([PY, "-m", "sx.worker"], cwd=VERIF, env=env(), stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    self.err = []
    threading.Thread(target=self._drain, daemon=True).start()
  def _drain(self):
    for l in self.p.stderr:
      self.err.append(l)
      if len(self.err) > 200: del self.err[:100]
  def run(self, job):
    self.p.stdin.write(json.dumps(job) + "\n"); self.p.stdin.flush()
    for l in self.p.stdout:
      if l.startswith("\x1eRESULT "): return json.loads(l[8:])
    self.p.wait()
    return dict(name=job["name"], fn=job["fn"], cfg=job.get("cfg", {}), violation=None, stats={}, witness={}, funcs=[],
                notes=[], known=[], error=dict(kind="crash", msg=f"worker died rc={self.p.returncode}", tb="".join(self.err)[-2000:]))
  def close(self):
    try: self.p.stdin.close()
    except Exception: pass
    try: self.p.wait(5)
    except Exception: self.p.kill()

def load_known():
  out = []
  p = os.path.join(VERIF, "known_findings.txt")
  if os.path.exists(p):
    for l in open(p):
      l = l.strip()
      if l.startswith("KNOWN "): 
        d = json.loads(l[6:]); out.append(d)
  return out

def main(argv):
  prop = argv[0].upper()
  tier = os.environ.get("VERIF_TIER", "quick")
  if len(argv) > 1: tier = argv[1]
  seed = int(os.environ.get("VERIF_SEED", "1") or 1)
  t0 = time.time()
  sys.path.insert(0, VERIF)
  mod = importlib.import_module("props." + prop.lower())
  jobs = mod.jobs(tier)
  only = os.environ.get("SX_ONLY")
  if only: jobs = [j for j in jobs if only in j["name"]]
  limit = getattr(mod, "BUDGET", {}).get(tier, 600 if tier == "quick" else 5400)
  for j in jobs:
    j.setdefault("prop", prop); j.setdefault("seed", seed); j.setdefault("cfg", {})
    j.setdefault("budget", limit)
  q = queue.Queue()
  for j in jobs: q.put(j)
  results, lock = [], threading.Lock()
  stop = threading.Event()
  n = min(int(os.environ.get("SX_WORKERS", "8")), len(jobs))
  def loop():
    w = None
    while not stop.is_set():
      try: j = q.get_nowait()
      except queue.Empty: break
      if w is None: w = Worker()
      j["budget"] = max(5, min(j["budget"], limit - (time.time() - t0)))
      r = w.run(j)
      with lock:
        results.append(r)
      if os.environ.get("SX_V"):
        print(f"  [{time.time()-t0:6.1f}s] {r['name']}: {r.get('wall',0):.1f}s {r.get('stats',{}).get('paths')} paths "
              f"{r.get('stats',{}).get('queries')} q {r['violation'] and r['violation']['label']} {r['error'] and (r['error']['kind'], r['error']['msg'][:200])} {r.get('mode')}", flush=True)
      if r["violation"] or (r["error"] and r["error"]["kind"] == "crash"):
        if r["violation"]: stop.set()
        w.close(); w = None
    if w: w.close()
  ths = [threading.Thread(target=loop) for _ in range(n)]
  for t in ths: t.start()
  for t in ths: t.join()

  known = [k for k in load_known() if k.get("property") == prop]
  viol, unrepro = [], []
  rdir = os.path.join(VERIF, "evidence", "replays")
  os.makedirs(rdir, exist_ok=True)
  def replay(r, v, history=None):
    d = dict(prop=prop, fn=r["fn"], cfg=r["cfg"], job=r["name"], label=v["label"], detail=v["detail"], values=v["values"])
    if history: d["history"] = history
    h = hashlib.sha1(json.dumps([d["fn"], d["cfg"], d["values"], history], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(rdir, f"{prop}-{h}.json")
    json.dump(d, open(path, "w"), indent=1)
    rp = subprocess.run([PY, "-m", "sx.replay", path], cwd=VERIF, env=env(), capture_output=True, text=True)
    ok = rp.returncode == 1 and "REPRODUCED" in rp.stdout
    if not ok and history: os.remove(path)
    return ok, d, path, rp.stdout + rp.stderr[-500:]
  again = []
  for r in results:
    v = r["violation"]
    if not v:
      if r["error"] and r["error"]["kind"] == "unreproduced": again.append(r)
      continue
    ok, d, path, out = replay(r, v)
    if ok: viol.append((d, path, out))
    else: unrepro.append((d, path, out)); again.append(r)
  if again and not viol:
    # a failure that needs earlier operations of the same process: find it again in a fresh worker, recording the
    # inputs of every path, and replay it after those histories
    jb = {j["name"]: j for j in jobs}
    for r in again[:3]:
      w = Worker()
      j = dict(jb[r["name"]]); j["record"] = [r.get("mode") == "symbolic kinds"]; j["budget"] = max(60, limit - (time.time() - t0))
      r2 = w.run(j); w.close()
      v = r2["violation"]
      if not v: continue
      hs = v.get("history") or []
      for hist in ([], hs[-1:], hs[-8:], hs):
        ok, d, path, out = replay(r2, v, hist)
        if ok: break
      if ok:
        viol.append((d, path, out)); break
  errors = [r for r in results if r["error"]]
  agg = {}
  for r in results:
    for k, x in r.get("stats", {}).items(): agg[k] = agg.get(k, 0) + x
  funcs = sorted({f for r in results for f in r["funcs"]})
  wit = {}
  for r in results:
    for k, x in r.get("witness", {}).items(): wit[k] = wit.get(k, 0) + x
  expected = set(getattr(mod, "WITNESSES", []))
  missing = sorted(expected - set(wit)) if not viol else []
  samples = []
  for r in results:
    for s in r.get("samples", [])[:1]:
      if len(samples) < 6: samples.append(dict(harness=r["name"], inputs=s))
  ss = json.dumps(samples)
  while len(ss) > 12000 and samples: samples.pop(); ss = json.dumps(samples)
  notes = [n for r in results for n in r.get("notes", [])]
  ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
    violations=len(viol),
    assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
      "claims hold within the stated bounds only; paths, branches and assertions are decided by z3, unknown or timeout is an error exit"],
    coverage=dict(
      states=int(agg.get("paths", 0)), transitions=int(agg.get("decisions", 0)),
      traces_validated_against_impl=int(sum(r.get("validated", 0) for r in results)),
      samples=samples,
      exhaustive=not errors and not viol and not unrepro,
      explanation="states = feasible symbolic paths explored to the end, transitions = solver-decided decisions on them; each path covers all values of its symbolic inputs that satisfy its path condition",
      jobs=[dict(name=r["name"], mode=r.get("mode"), paths=r.get("stats", {}).get("paths"), wall_s=round(r.get("wall", 0), 2)) for r in results][:80],
      functions_encoded=funcs[:250],
      bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})) ,
      outside_bounds=getattr(mod, "OUTSIDE", ""),
      queries_discharged=int(agg.get("queries", 0)),
      feasibility_queries=int(agg.get("feas_queries", 0)),
      assertions_evaluated=int(agg.get("checks", 0)),
      assertions_decided_by_solver=int(agg.get("checks_solver", 0)),
      solver_time_s=round(agg.get("solver_s", 0.0), 3),
      reachability_witnesses={k: wit[k] for k in sorted(wit)[:80]},
      notes=notes[:10]))
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
  print(f"{prop} {tier}: {agg.get('paths',0)} paths, {agg.get('decisions',0)} decisions, {agg.get('queries',0)} solver queries "
        f"({agg.get('solver_s',0):.1f}s), {agg.get('checks',0)} assertions ({agg.get('checks_solver',0)} by solver), "
        f"{len(funcs)} functions, {time.time()-t0:.1f}s")
  rc = 0
  for d, path, out in viol:
    k = next((k for k in known if k.get("fn") == d["fn"] and k.get("label") == d["label"]), None)
    if k:
      print(f"KNOWN-FINDING: property={prop} {k['what']}"); continue
    print(f"counterexample in {d['job']}: {d['label']}\n  {str(d['detail'])[:1500]}\n  inputs: {json.dumps(d['values'])[:800]}")
    print(f"VIOLATION property={prop} replay={path}")
    rc = 1
  if rc: return 1
  for d, path, out in unrepro:
    print(f"ERROR: counterexample did not reproduce in a fresh process: {d['job']}: {d['label']} {path}\n{out[-1500:]}"); rc = 3
  for r in errors:
    print(f"ERROR in {r['name']}: {r['error']['kind']}: {r['error']['msg'][:1000]}\n{r['error']['tb'][-2500:]}"); rc = 3
  if missing and not only:
    print("ERROR: vacuous: never reached:", missing); rc = 3
  return rc

if __name__ == "__main__":
  sys.exit(main(sys.argv[1:]))
