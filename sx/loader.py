"""Loads /repo/nnx from its current source, twice if wanted:
 * instrumented: `is`/`is not` comparisons and 1-argument type() calls are rewritten to
   hooks, and the builtins isinstance / callable seen by nnx modules are the symbolic
   versions.  Everything else is the code as it is in /repo.
 * plain: as it is.
The two copies are kept apart by swapping the sys.modules entries."""
import ast, builtins, contextlib, importlib, importlib.abc, importlib.machinery, os, sys, types
from sx import engine
from sx.proxies import SymVal, SymInt, rep, is_callable, KINDTAB, val_eq, ARRAYS
from sx.engine import SymBool

REPO = os.environ.get("VERIF_REPO", "/repo")

_isinstance = builtins.isinstance

def h_isinstance(x, cls):
  if type(x) is SymVal:
    return x.isinst(cls)
  return _isinstance(x, cls)

def h_is(a, b):
  if a is b: return True
  ta, tb = type(a), type(b)
  if ta is SymVal or tb is SymVal:
    if ta is SymVal and tb is SymVal:
      if a.label == b.label and a.k is b.k: return True
      # distinct objects: identical only if both are the same interned singleton
      ks = [k for k in ('none', 'true', 'false') if k in a.kinds and k in b.kinds]
      os_ = [k for k in ('obj', 'func', 'cls') if k in a.kinds and k in b.kinds]   # one object per value
      if not ks and not os_: return False
      import z3
      from sx.proxies import KIDX
      return a.S.fork(z3.And(a.k == b.k, z3.Or([a.k == KIDX[k] for k in ks] + [z3.And(a.k == KIDX[k], a.v == b.v) for k in os_])), "is")
    s, o = (a, b) if ta is SymVal else (b, a)
    for k, v in (('none', None), ('true', True), ('false', False)):
      if o is v: return s.fork_kind([k], "is " + k)
    return False
  if ta is SymBool or tb is SymBool:
    s, o = (a, b) if ta is SymBool else (b, a)
    if o is True: return bool(s)
    if o is False: return not bool(s)
    return False
  return False

def h_type(x):
  if type(x) is SymVal: return x.__class__
  if type(x) is SymInt: return int
  if type(x) is SymBool: return bool
  return type(x)

def h_str(*a, **k):
  return str(*a, **k)

class _Rewrite(ast.NodeTransformer):
  def visit_Compare(self, n):
    self.generic_visit(n)
    if len(n.ops) == 1 and type(n.ops[0]) in (ast.Is, ast.IsNot):
      call = ast.Call(ast.Name("__sx_is__", ast.Load()), [n.left, n.comparators[0]], [])
      r = call if type(n.ops[0]) is ast.Is else ast.UnaryOp(ast.Not(), call)
      return ast.copy_location(r, n)
    return n
  def visit_Call(self, n):
    self.generic_visit(n)
    if _isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and not n.keywords:
      return ast.copy_location(ast.Call(ast.Name("__sx_type__", ast.Load()), n.args, []), n)
    return n

def _custom_builtins(extra):
  d = dict(vars(builtins))
  d.update(isinstance=h_isinstance, callable=is_callable, __sx_is__=h_is, __sx_type__=h_type)
  d.update(extra)
  return d

class _Loader(importlib.abc.Loader):
  def __init__(self, path, is_pkg, instrument, world):
    self.path, self.is_pkg, self.instrument, self.world = path, is_pkg, instrument, world
  def create_module(self, spec): return None
  def exec_module(self, module):
    with open(self.path, encoding="utf-8") as f: src = f.read()
    module.__file__ = self.path
    tree = ast.parse(src, self.path)
    if self.instrument:
      tree = ast.fix_missing_locations(_Rewrite().visit(tree))
      module.__dict__['__builtins__'] = self.world.builtins
    code = compile(tree, self.path, "exec", dont_inherit=True)
    exec(code, module.__dict__)

class _Finder(importlib.abc.MetaPathFinder):
  def __init__(self, root, instrument, world): self.root, self.instrument, self.world = root, instrument, world
  def find_spec(self, name, path, target=None):
    if name != "nnx" and not name.startswith("nnx."): return None
    rel = name.split(".")
    base = os.path.join(self.root, *rel)
    if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
      p, pkg = os.path.join(base, "__init__.py"), True
    elif os.path.exists(base + ".py"): p, pkg = base + ".py", False
    else: return None
    spec = importlib.machinery.ModuleSpec(name, _Loader(p, pkg, self.instrument, self.world), origin=p, is_package=pkg)
    spec.has_location = True
    if pkg: spec.submodule_search_locations = [base]
    return spec

class World:
  """one loaded copy of nnx"""
  def __init__(self, instrument, extra_builtins=None, repo=None):
    self.instrument = instrument
    self.builtins = _custom_builtins(extra_builtins or {})
    self.repo = repo or REPO
    self.mods = {}
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "nnx" or k.startswith("nnx.")}
    finder = _Finder(self.repo, instrument, self)
    self.finder = finder
    sys.meta_path.insert(0, finder)
    try:
      self.nnx = importlib.import_module("nnx")
      for base, dirs, names in os.walk(os.path.join(self.repo, "nnx")):
        for n in sorted(names):
          if n.endswith(".py") and n != "__init__.py":
            rel = os.path.relpath(os.path.join(base, n), self.repo)[:-3].replace(os.sep, ".")
            try: importlib.import_module(rel)
            except ModuleNotFoundError as ex:
              if not str(ex.name or "").startswith("nnx"): continue
              raise
      self.mods = {k: v for k, v in sys.modules.items() if k == "nnx" or k.startswith("nnx.")}
    finally:
      sys.meta_path.remove(finder)
      for k in list(sys.modules):
        if k == "nnx" or k.startswith("nnx."): del sys.modules[k]
      sys.modules.update(saved)

  @contextlib.contextmanager
  def active(self):
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "nnx" or k.startswith("nnx.")}
    sys.modules.update(self.mods)
    sys.meta_path.insert(0, self.finder)
    try: yield self.nnx
    finally:
      if self.finder in sys.meta_path: sys.meta_path.remove(self.finder)
      for k in list(sys.modules):
        if k == "nnx" or k.startswith("nnx."): del sys.modules[k]
      sys.modules.update(saved)

_worlds = {}
def world(kind):
  """kind: 'sym' (instrumented) or 'plain'"""
  if kind not in _worlds: _worlds[kind] = World(kind == 'sym')
  return _worlds[kind]


class Coverage:
  """which functions of /repo/nnx are executed (sys.monitoring, first call only)"""
  TOOL = 3
  def __init__(self):
    self.funcs = set()
    self.root = os.path.join(REPO, "nnx") + os.sep
  def __enter__(self):
    m = sys.monitoring
    m.use_tool_id(self.TOOL, "sx")
    def on_start(code, off):
      fn = code.co_filename
      if fn.startswith(self.root):
        if not code.co_name.startswith("<module"):
          self.funcs.add(f"nnx/{fn[len(self.root):]}:{code.co_qualname}")
      return m.DISABLE
    m.register_callback(self.TOOL, m.events.PY_START, on_start)
    m.set_events(self.TOOL, m.events.PY_START)
    return self
  def __exit__(self, *a):
    m = sys.monitoring
    m.set_events(self.TOOL, 0)
    m.register_callback(self.TOOL, m.events.PY_START, None)
    m.free_tool_id(self.TOOL)
