"""C28 for_each and init"""
import jax, numpy as np
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal
from sx import graphs as g
from props.c01 import NAMES

BOUNDS = dict(
  quick="module graphs of <= 3 modules with <= 2 attributes each (nested, shared, cyclic), chains of 7 modules and modules with 12 attributes, classes A, B and a subclass of A, visited type each of them or Module, visitors that record, assign, raise at any point, or add submodules (with or without modules below them, possibly leading back) to the module visited at any call; init through every accessor, methods that return, raise, nest init, add or detach modules or make clones; the copies that split and merge, clone, functional apply, jit, grad, remat and a plain jax.jit work on inside and outside init",
  thorough="graphs of <= 4 modules")
OUTSIDE = "visitors that change the attributes of modules other than the visited one while visiting"
ASSUMPTIONS = []
WITNESSES = ["each instance exactly once", "other types not visited", "initialising during the call", "not initialising afterwards", "result returned", "exception propagates", "raising visitor", "copies report the same", "modules added on the way are visited"]

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class Boom(Exception): pass
    class Base(nnx.Module):
      def __call__(self, f, *a, **k): return f(self, *a, **k)
      def meth(self, f, *a, **k): return f(self, *a, **k)
    class A(Base): pass
    class Sub(A): pass
    class B(Base): pass
    _C[id(nnx)] = dict(A=A, Sub=Sub, B=B, Boom=Boom, Module=nnx.Module)
  return _C[id(nnx)]

def make(S, nnx, spec):
  C = classes(nnx)
  objs = [C[m.cls]() for m in spec.mods]
  for i, m in enumerate(spec.mods):
    for n, s in m.attrs.items():
      setattr(objs[i], n, objs[s.idx] if s.kind == 'mod' else s.value if s.kind == 'raw' else g.container(S, nnx, s))
  return objs

def h_each(S, nmod=3, slots=(2, 2, 1), leafopts=('raw',), kinds=('jarr', 'none'), names=0, clsopts=('A', 'Sub', 'B')):
  nnx = S.nnx
  C = classes(nnx)
  spec = g.choose_spec(S, nmod, slots if isinstance(slots, int) else list(slots), NAMES[names], leafopts, kinds, clsopts)
  objs = make(S, nnx, spec)
  typ = S.choose(0, "type", values=['A', 'Sub', 'B', 'Module'])
  reach = spec.reachable(0)
  want = [objs[i] for i in reach if isinstance(objs[i], C[typ])]
  snap = g.freeze(nnx, objs[0])
  how = S.choose(0, "visitor", values=['record', 'assign', 'raise'])
  seen = []
  lim = S.choose(3, "raise at") if how == 'raise' else None
  def fn(m):
    if lim is not None and len(seen) == lim: raise C['Boom']()
    seen.append(m)
    if how == 'assign': m.visited = getattr(m, 'visited', 0) + 1
  try: objs[0].for_each(C[typ], fn); raised = False
  except C['Boom']: raised = True
  if lim is not None and len(want) > lim:
    S.check(raised, "raising visitor")
    S.check(len(seen) == lim, "raising visitor")
    seen2 = []
    objs[0].for_each(C[typ], seen2.append)
    seen = seen2
  else: S.check(not raised, "each instance exactly once", "raised")
  S.check(all(sum(1 for y in seen if y is x) == 1 for x in want), "each instance exactly once", lambda: f"{len(seen)} visits for {spec}, type {typ}")
  S.check(len(seen) == len(want), "other types not visited", lambda: f"{seen} {spec} {typ}")
  if how == 'assign': S.check(all(vars(x).get('visited') == 1 for x in want), "each instance exactly once")
  else:
    c, why = g.frozen_same(S, nnx, objs[0], snap)
    S.check(c, "visiting changes nothing", lambda: why)

def h_grow(S, nmod=3, slots=(2, 1, 1), clsopts=('A', 'Sub')):
  """the function given to for_each adds submodules to the module it is called with"""
  nnx = S.nnx
  C = classes(nnx)
  spec = g.choose_spec(S, nmod, slots if isinstance(slots, int) else list(slots), NAMES[0], [], ['jarr'], clsopts)
  objs = make(S, nnx, spec)
  typ = S.choose(0, "type", values=['A', 'Sub', 'Module'])
  at = S.choose(3, "at call")
  new = C[S.choose(0, "added", values=['Sub', 'A', 'B'])]()
  below = C['A']() if S.flip("below") else None
  if below is not None: new.z = below
  link = S.choose(len(objs) + 1, "link")       # what is added may lead back to the graph it is added to
  if link < len(objs): new.back = objs[link]
  seen, done = [], []
  def fn(m):
    if len(seen) == at and not done: m.zz = new; done.append(m)
    seen.append(m)
  objs[0].for_each(C[typ], fn)
  S.reach("modules added on the way are visited")
  mods = g.graph_modules(nnx, objs[0])
  want = [m for m in mods if isinstance(m, C[typ])]
  S.check(all(sum(1 for y in seen if y is x) == 1 for x in want) and len(seen) == len(want), "modules added on the way are visited", lambda: f"{len(seen)} visits, {len(want)} modules; added {type(new).__name__} at call {at}, link {link}; {spec}, type {typ}")

def h_init(S, nmod=3, slots=(2, 1, 1), leafopts=('raw',), kinds=('jarr',), clsopts=('A',), effects=('return', 'raise', 'nest', 'add', 'detach', 'clone', 'lookup')):
  nnx = S.nnx
  C = classes(nnx)
  spec = g.choose_spec(S, nmod, slots if isinstance(slots, int) else list(slots), NAMES[0], leafopts, kinds, clsopts)
  objs = make(S, nnx, spec)
  outsider = C['A']()
  reach = spec.reachable(0)
  sub = next((n for n, s in spec.mods[0].attrs.items() if s.kind == 'mod' and s.idx != 0), None)
  via = S.choose(0, "via", values=['call', 'meth'] + (['sub', 'submeth'] if sub else []))
  eff = S.choose(0, "effect", values=list(effects))
  rv = S.leaf("rv", ['int', 'none', 'jarr', 'tup0'])
  extra, log = [], []
  def flags(): return [objs[i].is_initializing for i in reach]
  def body(m, x, *, y):
    S.check(same(x, 1) and same(y, 2), "arguments reach the method")
    S.check(all(flags()), "initialising during the call", lambda: f"{spec}: {flags()}")
    S.check(not outsider.is_initializing, "initialising during the call", "an unrelated module reports initialising")
    log.append(m)
    if eff == 'raise': raise C['Boom']()
    if eff == 'nest':
      (getattr(objs[0], sub) if sub else objs[0]).init(lambda m: None)
      S.check(all(flags()), "initialising during the call", lambda: f"after a nested init: {flags()}")
    if eff == 'add': m.added = C['A'](); extra.append(vars(m)['added'])
    if eff == 'detach' and sub: delattr(objs[0], sub)
    if eff == 'clone': extra.append(m.clone())
    if eff == 'lookup': list(objs[0].get_state()); objs[0].partition()
    return rv
  p = objs[0].init
  S.check(not any(flags()), "not initialising afterwards", "making the accessor starts initialising")
  tgt = dict(call=lambda: p, meth=lambda: p.meth, sub=lambda: getattr(p, sub), submeth=lambda: getattr(p, sub).meth)[via]()
  S.check(not any(flags()), "not initialising afterwards", "making the accessor starts initialising")
  for rep in range(2):
    try:
      r = tgt(body, 1, y=2); raised = False
    except C['Boom']: raised = True
    S.check(len(log) == rep + 1, "called once")
    S.check(log[-1] is (objs[0] if via in ('call', 'meth') else objs[spec.mods[0].attrs[sub].idx]), "called on the module itself")
    S.check(raised == (eff == 'raise'), "exception propagates")
    if not raised: S.check(r is rv, "result returned", lambda: f"{r!r}"); S.reach("result returned")
    S.check(not any(flags()), "not initialising afterwards", lambda: f"{spec}: {flags()} after {eff} via {via}")
    if eff == 'add': S.check(not any(m.is_initializing for m in extra), "not initialising afterwards", "added module")
    if eff == 'detach': break
  S.check(not outsider.is_initializing, "not initialising afterwards")
  S.check(not any(objs[i].clone().is_initializing for i in reach), "not initialising afterwards", "clone")
  # plain calls never initialise
  seen = []
  objs[0](lambda m: seen.append(m.is_initializing))
  S.check(seen == [False], "plain calls do not initialise")

def h_copies(S, nmod=3, slots=(2, 1, 1), clsopts=('A',)):
  """the copies that a split, a clone or a transform made during init works on report what their originals do"""
  nnx = S.nnx
  C = classes(nnx)
  spec = g.choose_spec(S, nmod, slots if isinstance(slots, int) else list(slots), NAMES[0], [], ['jarr'], clsopts)
  objs = make(S, nnx, spec)
  way = S.choose(0, "copy", values=['clone', 'merge', 'apply', 'call', 'jit', 'remat', 'pure jit', 'grad'])
  at = S.choose(0, "at", values=['root', 'last'])
  n = len(spec.reachable(0))
  log = []
  for i in spec.reachable(0): objs[i].w = nnx.Param(np.ones((), np.float32))
  def look(m): log.append([x.is_initializing for x in g.graph_modules(nnx, m)])
  def looks(m): look(m); return m.w * 1.0
  tr = nnx.jit(looks) if way == 'jit' else nnx.remat(lambda m, ctx=None: looks(m)) if way == 'remat' else nnx.grad(looks) if way == 'grad' else None
  jp = jax.jit(lambda p: (look(p.merge()), p)[1])
  def do(m):
    if way == 'clone': look(m.clone())
    elif way == 'merge': look(m.partition().merge())
    elif way == 'apply': m.partition().apply.meth(look)
    elif way == 'call': m.partition().call.meth(look)
    elif way == 'pure jit': jp(m.partition())
    else: tr(m)
  def run(init):
    log.clear()
    m = objs[0] if at == 'root' else objs[spec.reachable(0)[-1]]
    k = len(g.graph_modules(nnx, m))
    objs[0].init(lambda s, x: do(m), 0) if init else do(m)
    return log[-1] if log else None, k
  done = set()
  for init in (True, False) if way not in ('jit', 'pure jit') or S.flip("init first") else (False, True, False):
    fl, k = run(init)
    # a compiled function is run again only for a module in a state it was not yet compiled for
    S.check(fl == [init] * k or (fl is None and init in done and way in ('jit', 'pure jit')), "copies report the same", lambda: f"{way} of {at} of {spec}, init={init}: {fl}")
    done.add(init)
    S.check(not any(objs[i].is_initializing for i in spec.reachable(0)), "not initialising afterwards")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("for_each", "h_each", leafopts=[], clsopts=['A', 'Sub'], slots=[2, 1, 1])
  j("for_each wide", "h_each", leafopts=[], clsopts=['A'], slots=[2, 2, 1])
  j("for_each names", "h_each", nmod=2, slots=[2, 2], leafopts=['raw', 'static'], names=1, clsopts=['A', 'B'], kinds=['jarr'])
  j("for_each underscore names", "h_each", leafopts=['raw'], names=3, slots=[2, 1, 1], clsopts=['A', 'B'], kinds=['jarr'])
  j("for_each growing", "h_grow")
  j("init", "h_init", leafopts=[])
  j("init wide", "h_init", leafopts=[], slots=[2, 2, 1], effects=['return', 'raise'])
  j("init copies", "h_copies")
  j("init leaves", "h_init", nmod=2, slots=[1, 1], leafopts=['raw', 'params', 'static'], clsopts=['A', 'B'])
  for shape in ('deep', 'wide'):
    j(f"for_each {shape}", "h_each", nmod=shape, leafopts=['raw'], kinds=['jarr'], clsopts=['A', 'Sub', 'B'])
    j(f"init {shape}", "h_init", nmod=shape, leafopts=['raw'], kinds=['jarr'], effects=['return', 'raise', 'nest', 'add', 'clone'])
  if T:
    j("for_each 4", "h_each", nmod=4, leafopts=[], clsopts=['A'], slots=[2, 2, 1, 1])
    j("init 4", "h_init", nmod=4, leafopts=[], slots=[2, 1, 1, 1])
  return J
