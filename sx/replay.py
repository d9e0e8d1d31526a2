"""Replays one counterexample on the plain code of /repo: python -m sx.replay FILE
exit 1 and the violated assertion when it reproduces, exit 0 when it does not."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import paths
paths.setup()
import warnings; warnings.filterwarnings("ignore")
sys.setrecursionlimit(1500)
import importlib

def main(path):
  import nnx                    # the ordinary import of /repo/nnx: no loader, no hooks
  from sx import engine
  d = json.load(open(path))
  mod = importlib.import_module("props." + d["prop"].lower())
  fn = getattr(mod, d["fn"])
  for v in d.get("history", []):   # what the process did before, when the failure depends on it
    engine.run_concrete(lambda S: fn(S, **d["cfg"]), nnx, v)
  st, label, detail, _ = engine.run_concrete(lambda S: fn(S, **d["cfg"]), nnx, d["values"])
  print(json.dumps(dict(status=st, label=label)))
  if st == 'violation':
    print("REPRODUCED:", label); print(detail)
    return 1
  return 0

if __name__ == "__main__":
  sys.exit(main(sys.argv[1]))
