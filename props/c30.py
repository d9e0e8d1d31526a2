"""C30 module identity, copies, write-through views"""
import copy
import jax, jax.numpy as jnp
import numpy as np
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal
from sx import graphs as g, sched
from props.c01 import NAMES

BOUNDS = dict(
  quick="programs of <= 4 creations (construct, merge, clone, copy.copy, copy.deepcopy, pickle and unpickle, apply result, submodule of a copy) in any order; two threads creating modules with every placement of <= 2 preemptions between bytecodes that touch shared state; graphs of <= 3 modules with sharing and cycles, chains of 7 modules and modules with 12 attributes for deep copies and views; deep copies made inside a transform; a counter of identities at any value up to 10^9 (where identities are counted)",
  thorough="three threads creating modules, two threads cloning")
OUTSIDE = "preemptions inside jax or the interpreter; free-threaded python; pickles loaded in another process"
ASSUMPTIONS = ["thread switches happen between bytecodes (the GIL)"]
WITNESSES = ["no shared identity", "no shared identity across threads", "same object is one module", "deep copy keeps sharing", "deep copy is independent", "deep copy is usable", "views cover the state paths", "views read the current value", "views write through", "shallow copy is a separate module"]

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class M(nnx.Module):
      def out(self): return self.clone()
    class Parent(nnx.Module):
      def __init__(self): self.kid = M()
    _C[id(nnx)] = dict(M=M, Parent=Parent)
  return _C[id(nnx)]

def distinct(S, nnx, mods, lab):
  """modules put side by side (each twice) are told apart exactly when they are different objects"""
  C = classes(nnx)
  for i, m in enumerate(mods): vars(m)['mark'] = i
  root = C['M']()
  for i, m in enumerate(mods): setattr(root, f"x{i}", m); setattr(root, f"y{i}", m)
  seen = []
  root.for_each(nnx.Module, seen.append)
  for i, m in enumerate(mods):
    S.check(sum(1 for s in seen if s is m) == 1, lab, lambda: f"module {i} visited {sum(1 for s in seen if s is m)} times")
  back = root.clone()
  for i, m in enumerate(mods):
    a, b = getattr(back, f"x{i}"), getattr(back, f"y{i}")
    S.check(a is b, "same object is one module", lambda: f"{i}")
    S.check(AND(isinstance(a, type(m)), a.mark == i), lab, lambda: f"module {i} came back as module {getattr(a, 'mark', None)}")
    for j in range(i): S.check(getattr(back, f"x{j}") is not a, lab, lambda: f"modules {i} and {j} were merged into one")
  S.check(len(set(mods)) == len(mods), lab, "set of modules")
  d = {m: i for i, m in enumerate(mods)}
  S.check(all(d[m] == i for i, m in enumerate(mods)), lab, "dict of modules")
  for i, m in enumerate(mods):
    S.check(hash(m) == hash(m), "stable hash")

OPS = ['new', 'clone', 'merge', 'copy', 'deepcopy', 'pickle', 'apply', 'kid', 'kidcopy', 'def merge']
def h_programs(S, nops=3, ops=tuple(OPS)):
  nnx = S.nnx
  C = classes(nnx)
  first = C['Parent']()
  pool = [first]
  pures = []
  for k in range(nops):
    op = S.choose(0, f"op{k}", values=list(ops))
    src = pool[S.choose(len(pool), f"src{k}")] if op != 'new' else None
    if op == 'new': m = C['Parent']()
    elif op == 'clone': m = src.clone()
    elif op == 'merge':
      if not pures: pures.append(src.partition())
      m = pures[0].merge()
    elif op == 'def merge': p = src.partition(); m = p.moduledef.merge(p.states)
    elif op == 'copy': m = copy.copy(src)
    elif op == 'deepcopy': m = copy.deepcopy(src)
    elif op == 'pickle': m = g.pickled(src)
    elif op == 'apply': m = src.apply.out.__getattr__('__call__')()[1] if False else src.apply.clone()[1]
    elif op == 'kid': m = getattr(src, 'kid', None)
    elif op == 'kidcopy': m = copy.deepcopy(getattr(src, 'kid', src))
    if m is None or any(m is q for q in pool): continue
    pool.append(m)
  distinct(S, nnx, pool, "no shared identity")
  if any(o == 'copy' for o in ops): S.reach("shallow copy is a separate module")

def h_threads(S, npre=2, what=('new', 'new'), part=(0, 1)):
  nnx = S.nnx
  C = classes(nnx)
  src = C['M']()
  pure = src.partition()
  acts = dict(new=lambda: [C['M'](), C['M']()], one=lambda: [C['M']()], clone=lambda: [src.clone()], merge=lambda: [pure.merge()], deepcopy=lambda: [copy.deepcopy(src)], copy=lambda: [copy.copy(src)])
  fns = [acts[w] for w in what]
  key = (id(nnx), tuple(what))
  if key not in _STEPS:
    r = sched.Run(fns, []); r.run(); r = sched.Run(fns, []); r.run(); _STEPS[key] = r.step
  n = _STEPS[key]
  pts, lo = [], 1
  for k in range(npre):
    if lo > n: break
    cand = [q for q in range(lo, n + 1) if k or q % part[1] == part[0]]
    if not cand: break
    p = S.choose(0, f"preempt{k}", values=cand)
    pts.append(p); lo = p + 1
  outs = sched.Run(fns, pts).run()
  distinct(S, nnx, [src] + [m for o in outs for m in o], "no shared identity across threads")
_STEPS = {}

def h_counter(S):
  """identities from a counter: one more identity, from any number of earlier ones, is new (where the
  identities are counted; other schemes are covered by the programs above only)"""
  nnx = S.nnx
  import importlib
  try:
    ids = importlib.import_module(nnx.__name__ + ".ids")
    man = type(ids.uuid)()
  except (ImportError, AttributeError, TypeError): return
  def counted(m):
    try:
      st, out = [], []
      for _ in range(3): st.append(m._id); out.append(m().id)
      return all(type(x) is int for x in st + out) and [b - a for a, b in zip(st, st[1:])] == [1, 1] and out[0] - st[0] in (0, 1) and [b - a for a, b in zip(out, out[1:])] == [1, 1] and [out[0] - st[0]]
    except AttributeError: return None
  first = getattr(man, '_id', None)
  off = counted(type(ids.uuid)())
  if not off: return
  n = S.int("n", first + 1, 10 ** 9)
  man = type(ids.uuid)()
  if not S.symbolic and n <= 3 * 10 ** 6:
    given = [man().id for _ in range(n - first + 8)]
    S.check(len(set(given)) == len(given), "no shared identity", lambda: f"identities repeat among the first {len(given)} modules")
    return
  man._id = n
  a = man().id
  S.check(a >= n + off[0], "no shared identity", lambda: f"identity {a} after {n} modules")
  S.check(man._id > n, "no shared identity", lambda: f"counter {man._id} after {n}")

def h_deepcopy(S, nmod=3, slots=(2, 1, 1), leafopts=('raw', 'params'), kinds=('jarr', 'int'), names=0, wheres=('here', 'in jit')):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots if isinstance(slots, int) else list(slots), NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  snap = g.freeze(nnx, objs[0])
  trans = S.choose(0, "where", values=list(wheres))
  def work():
    c = copy.deepcopy(objs[0]) if S.choose(0, "by", values=['deepcopy', 'pickle']) == 'deepcopy' else g.pickled(objs[0])
    ok, seen, why = g.match_graph(S, nnx, spec, c)
    S.check(ok, "deep copy keeps sharing", lambda: f"{why}; {spec}")
    for i, m in seen.items(): S.check(all(m is not o for o in objs), "deep copy is independent", "module shared with the original")
    for i, m in seen.items():
      for n, s in spec.mods[i].attrs.items():
        if s.kind == 'cont': S.check(vars(m)[n] is not vars(objs[i])[n], "deep copy is independent", "container shared")
    ok, why = g.frozen_same(S, nnx, objs[0], snap)
    S.check(ok, "deep copy is independent", lambda: why)
    # usable: assignable, splittable, next to the original
    for i, m in seen.items(): m.newattr = i; m.update_state(nnx.State({'fresh': jnp.zeros(())}))
    S.reach("deep copy is usable")
    ok, why = g.frozen_same(S, nnx, objs[0], snap)
    S.check(ok, "deep copy is independent", lambda: why)
    back = c.clone()
    S.check(vars(back)['newattr'] == 0, "deep copy is usable")
    pair = g.classes(nnx)['A']()
    if trans == 'here':
      pair.a, pair.b = objs[0], c
      p2 = pair.clone()
      S.check(AND(p2.a is not p2.b, hasattr(p2.b, 'newattr'), not hasattr(p2.a, 'newattr')), "no shared identity")
    sh = copy.copy(c)
    S.check(sh is not c, "shallow copy is a separate module")
    S.check(AND(set(g.raw_attrs(nnx, sh)) == set(g.raw_attrs(nnx, c)), *[g.raw_attrs(nnx, sh)[n] is v for n, v in g.raw_attrs(nnx, c).items()]), "shallow copy is a separate module")
    sh.onlyhere = 1
    S.check('onlyhere' not in vars(c), "shallow copy is a separate module")
    pair.a, pair.b = c, sh
    p2 = pair.clone()
    S.check(p2.a is not p2.b, "shallow copy is a separate module")
  if trans == 'here': work()
  else:
    def f():
      work(); return 0
    jax.eval_shape(f)

def h_views(S, nmod=3, slots=(2, 1, 1), leafopts=('raw', 'param', 'params', 'nodem'), kinds=('jarr', 'int'), names=0):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots if isinstance(slots, int) else list(slots), NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  views = objs[0].mutable_state_dict()
  paths = g.expected_paths(S, spec)
  S.check(list(views) == list(paths) and list(objs[0].get_state()) == list(paths), "views cover the state paths", lambda: f"{list(views)} vs {list(paths)}")
  def slot(p): i, n = paths[p]; return spec.mods[i].attrs[n]
  def allread(vals, lab):
    for p, v in views.items():
      S.check(same(v.value, vals[p]), lab, lambda: f"{p}: {v.value!r} vs {vals[p]!r}")
      s = slot(p)
      want = s.meta.get('sharding') if s.kind == 'cont' else None
      S.check(same(v.sharding, want), "views read the current value", lambda: f"sharding of {p}: {v.sharding!r} vs {want!r}")
  vals = {p: slot(p).value for p in paths}
  allread(vals, "views read the current value")
  if not paths: return
  p = S.choose(0, "path", values=list(paths))
  nv = S.leaf("nv", list(kinds) + ['none', 'str'])
  i, n = paths[p]
  how = S.choose(0, "how", values=['direct', 'view', 'other container', 'update_state'])
  if how == 'other container':
    # the attribute is deleted and set again, in another container
    s = g.leaf_slot(S, S.choose(0, "container", values=['raw', 'params', 'bs', 'nodem']), "nw", list(kinds))
    if s.kind == 'raw': s.value = nv if g.isnode(S, nv) else vals[p]
    else: s.value = nv
    delattr(objs[i], n)
    setattr(objs[i], n, s.value if s.kind == 'raw' else g.container(S, nnx, s))
    spec.mods[i].attrs[n] = s
    vals[p] = s.value
    allread(vals, "views read the current value")
    views[p].value = vals[p] if s.kind == 'raw' else 5
    if s.kind == 'cont': vals[p] = 5
    allread(vals, "views write through")
    S.check(same(getattr(objs[i], n), vals[p]), "views write through", p)
  elif how == 'update_state':
    objs[0].update_state(nnx.State({p: nv}))
    vals[p] = nv
    allread(vals, "views read the current value")
  elif how == 'direct':
    setattr(objs[i], n, nv)
    vals[p] = nv
    allread(vals, "views read the current value")
  else:
    views[p].value = nv
    vals[p] = nv
    allread(vals, "views write through")
    s = slot(p)
    spec.mods[i].attrs[n] = g.Slot(s.kind, s.cls, s.meta, nv, kinds=s.kinds)
    c, _, why = g.match_graph(S, nnx, spec, objs[0])
    S.check(c, "views write through", lambda: f"{why}")
    c, seen, _ = g.match_graph(S, nnx, spec, objs[0])
    S.check(all(seen[k] is objs[k] for k in seen), "views write through", "identity")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("programs", "h_programs", nops=3)
  j("counter", "h_counter")
  j("programs 4", "h_programs", nops=4, ops=['new', 'clone', 'copy', 'deepcopy'] if not T else ['new', 'clone', 'merge', 'copy', 'deepcopy', 'kid'])
  def th(name, **cfg): J.append(dict(name=name, fn="h_threads", cfg=cfg, world='plain'))
  for i in range(6): th(f"threads new {i}", what=['one', 'one'], part=[i, 6])
  th("threads new, many", what=['new', 'new'], npre=1 if not T else 2)
  th("threads clone", what=['clone', 'one'], npre=1)
  th("threads deepcopy merge", what=['deepcopy', 'merge'], npre=1)
  if T:
    for i in range(24): th(f"threads three {i}", what=['one', 'one', 'one'], npre=2, part=[i, 24])
    th("threads clone clone", what=['clone', 'clone'], npre=1)
  j("deepcopy", "h_deepcopy", kinds=['jarr'], wheres=['here'])
  j("deepcopy jit", "h_deepcopy", kinds=['int', 'obj'], wheres=['in jit'])
  j("views aliased", "h_views", nmod=2, slots=[2, 1], kinds=['jarr'], leafopts=['raw', 'params', 'alias'])
  j("deepcopy leaves", "h_deepcopy", nmod=2, slots=[2, 1], leafopts=['raw', 'params', 'nodem', 'static'], kinds=['jarr', 'obj', 'list'], wheres=['here'])
  for shape in ('deep', 'wide'):
    j(f"deepcopy {shape}", "h_deepcopy", nmod=shape, leafopts=['params', 'raw'], kinds=['jarr'], wheres=['here'])
    j(f"views {shape}", "h_views", nmod=shape, leafopts=['raw', 'params'], kinds=['jarr'])
  j("views", "h_views", leafopts=['raw', 'params'])
  j("views leaves", "h_views", nmod=2, slots=[2, 1], kinds=['jarr', 'int', 'nparr0z'], names=1)
  return J
