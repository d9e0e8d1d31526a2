"""Worker process: runs jobs (one symbolic exploration each) given as JSON lines on stdin."""
import sys, os, json, time, traceback, importlib, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import paths
paths.setup()
import warnings
warnings.filterwarnings("ignore")
sys.setrecursionlimit(1500)


def run_job(job):
  from sx import engine, loader
  mod = importlib.import_module("props." + job["prop"].lower())
  fn = getattr(mod, job["fn"])
  cfg = job.get("cfg", {})
  plain = loader.world('plain')
  wk = job.get("world", "sym")
  w = loader.world(wk)
  harness = lambda S: fn(S, **cfg)
  t0 = time.time()
  res = dict(name=job["name"], fn=job["fn"], cfg=cfg, mode="symbolic", violation=None, error=None,
             known=[], notes=[])
  modes = [True, False] if wk == "sym" else [False]
  if job.get("record"): modes = job["record"]
  cov_all = set()
  agg = None
  for lazy in modes:
    eng = engine.Engine(seed=job.get("seed", 1), deadline=t0 + job.get("budget", 600),
                        query_timeout_ms=job.get("qt", 60000), max_paths=job.get("max_paths"))
    res["mode"] = "symbolic kinds" if lazy else "solver-chosen kinds"
    samples, rng = [], random.Random(job.get("seed", 1))
    nsample = job.get("nsample", 6)
    history = []
    def on_path(S):
      n = eng.stats['paths']
      if job.get("record"):
        history.append(S.concretise()); return
      # reservoir sample of passing paths, validated on the plain implementation
      if n <= nsample or rng.random() < nsample / n:
        v = S.concretise()
        if len(samples) < nsample: samples.append(v)
        else: samples[rng.randrange(nsample)] = v
    err = None
    known = []
    while True:
      try:
        with w.active() as nnx, loader.Coverage() as cov:
          try:
            out = eng.explore(harness, lambda e: engine.SymS(e, nnx, lazy, job.get("seed", 1)), on_path)
          finally:
            cov_all |= cov.funcs
      except engine.Unsupported as ex:
        err = ("unsupported", str(ex), traceback.format_exc()[-1200:]); out = None
      except engine.BudgetExceeded as ex:
        err = ("budget", str(ex), ""); out = None
      except engine.Inconclusive as ex:
        err = ("inconclusive", str(ex), traceback.format_exc()[-800:]); out = None
      break
    if err is None and out is not None:
      label, detail, S = out
      try:
        values = S.concretise()
      except BaseException as ex:
        values = None; err = ("inconclusive", "no model for violation: %r" % ex, "")
      if values is not None and job.get("record"):
        # the earlier paths of this exploration, for a replay as a history in a fresh process
        res["violation"] = dict(label=label, detail=detail, sym_label=label, values=values, history=history)
      elif values is not None:
        with plain.active() as pn:
          st, l2, d2, _ = engine.run_concrete(harness, pn, values)
        if st == 'violation':
          res["violation"] = dict(label=l2, detail=d2, sym_label=label, values=values)
        else:
          err = ("unreproduced", f"{label}: {detail} (plain run: {st})", json.dumps(values)[:1500])
    if err is None and res["violation"] is None:
      # validate sampled passing paths against the plain implementation
      val = 0
      with plain.active() as pn:
        for v in samples:
          st, l2, d2, _ = engine.run_concrete(harness, pn, v)
          if st == 'violation':
            res["violation"] = dict(label=l2, detail=d2, sym_label="(passed symbolically)", values=v)
            break
          val += st == 'ok'
      res["validated"] = val
      res["samples"] = samples[:2]
    agg = eng.stats
    res["stats"], res["witness"] = dict(eng.stats), dict(eng.witness)
    res["funcs"] = sorted(cov_all)
    if err is None: break
    if lazy and wk == 'sym' and err[0] in ("unsupported", "unreproduced"):
      res["notes"].append(f"symbolic-kind run not usable ({err[0]}: {err[1][:200]}); repeated with solver-chosen kinds")
      continue
    res["error"] = dict(kind=err[0], msg=err[1], tb=err[2])
    break
  res["wall"] = time.time() - t0
  return res


def main():
  for line in sys.stdin:
    line = line.strip()
    if not line: continue
    job = json.loads(line)
    try:
      r = run_job(job)
    except BaseException as ex:
      r = dict(name=job["name"], fn=job["fn"], cfg=job.get("cfg", {}), violation=None, stats={}, witness={}, funcs=[],
               notes=[], known=[], error=dict(kind="crash", msg=repr(ex), tb=traceback.format_exc()[-3000:]))
    sys.__stdout__.write("\x1eRESULT " + json.dumps(r) + "\n")
    sys.__stdout__.flush()

if __name__ == "__main__":
  main()
