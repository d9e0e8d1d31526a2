import os, sys
def setup():
  os.environ.setdefault("JAX_PLATFORMS", "cpu")
  repo = os.environ.get("VERIF_REPO", "/repo")
  if repo not in sys.path: sys.path.insert(0, repo)
  p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
  if p not in sys.path: sys.path.append(p)
  sys.dont_write_bytecode = True
