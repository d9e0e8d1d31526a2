"""C12 definitions: equality, hashing, retracing"""
import jax
import numpy as np
from sx.engine import AND, OR, NOT, IFF, IMPLIES
from sx.proxies import same, SymVal, HASHABLE, STATICS, ARRAYS
from sx import graphs as g
from props.c01 import NAMES

BOUNDS = dict(
  quick="pairs of module graphs of <= 2 modules (any sharing, cycles), <= 2 attributes per module, the second equal to the first or differing in one place; chains of 7 modules and modules with 12 attributes; leaf kinds raw / Param / Node with metadata / Static with arbitrary hashable values; chains and diamonds of 3 modules; real jax.jit retrace counts on pairs of <= 2 modules",
  thorough="pairs of <= 3 modules, 2 attributes")
OUTSIDE = "unhashable static values (compared, but hashing them is an error); static values whose == is not an equivalence"
ASSUMPTIONS = ["static values are compared with =="]
WITNESSES = ["equal iff same structure", "equal definitions hash equal", "values never matter", "unequal to other things", "assignment order never matters", "retraced iff the structure differs", "definition of a copy is equal", "definition during initialisation is equal"]

def check_pair(S, d, e, want, why):
  eq = d == e
  S.check(IFF(eq, want), "equal iff same structure", lambda: f"{why}: {eq}")
  S.check(IFF(d != e, NOT(want)), "equal iff same structure", lambda: f"{why}: != disagrees")
  S.check(IFF(e == d, want), "equal iff same structure", lambda: f"{why}: == is not symmetric")

def check_nested(S, nnx, m, d, hashing, txt):
  """the definitions of submodules inside a definition are definitions too"""
  for n, sub in dict(d.submodules).items():
    if not isinstance(sub, nnx.ModuleDef): continue
    own = getattr(m, n).get_module_def()
    eq = sub == own
    S.check(IFF(own == sub, eq) if not isinstance(eq, bool) else bool(own == sub) == eq, "equal iff same structure", lambda: f"== is not symmetric: {txt}")
    if hashing and eq: S.check(hash(sub) == hash(own), "equal definitions hash equal", lambda: f"submodule {n} of {txt}")

def check_init(S, nnx, m, d, txt):
  """the definition of a module still being initialised describes the same structure"""
  di = m.init.get_module_def()
  S.check(di == d and d == di, "definition during initialisation is equal", lambda: f"{txt}")
  S.check(hash(di) == hash(d), "equal definitions hash equal", lambda: f"during initialisation: {txt}")
  pi = m.init.partition().moduledef
  S.check(pi == d and hash(pi) == hash(d), "definition during initialisation is equal", lambda: f"{txt}")

def h_pair(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param', 'statich'), kinds=('jarr', 'int', 'str', 'none'), clsopts=('A',), hashing=True, clss=('A', 'B', 'Sub', 'Twin')):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds, clsopts)
  other, how = g.mutate(S, spec, list(kinds), clss=clss)
  a, b = g.build(S, nnx, spec)[0], g.build(S, nnx, other)[0]
  d, e = a.get_module_def(), b.get_module_def()
  want = g.spec_def_equal(S, spec, other)
  check_pair(S, d, e, want, f"{how}: {spec} vs {other}")
  if hashing and d == e:
    S.check(hash(d) == hash(e), "equal definitions hash equal", lambda: f"{how}: {spec} vs {other}")
  S.check(not (d == None) and not (d == "x") and d != 1, "unequal to other things")
  if hashing: check_init(S, nnx, a, d, f"{spec}")
  check_nested(S, nnx, a, d, hashing, f"{spec}")
  p = a.partition().moduledef
  S.check(AND(p == d, (hash(p) == hash(d)) if hashing else True), "definition of a copy is equal", lambda: f"{p} {d}")

def h_values(S, nmod=2, slots=2, kinds=tuple(ARRAYS), leafopts=('raw', 'params', 'nodem')):
  """node values, their metadata and container class never influence the definition"""
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[0], leafopts, kinds)
  root = g.build(S, nnx, spec)[0]
  rev = g.build(S, nnx, spec, order=lambda it: list(reversed(it)))[0]
  d = root.get_module_def()
  h = hash(d)
  e = rev.get_module_def()
  S.check(AND(d == e, hash(e) == h), "assignment order never matters", lambda: f"{spec}")
  st = root.get_state()
  for i, p in enumerate(list(st)):
    v = S.leaf(f"nv{i}", list(kinds))
    root.update_state(nnx.State({p: v}))
  e = root.get_module_def()
  S.check(AND(d == e, hash(e) == h), "values never matter", lambda: f"{spec}")
  c = root.clone().get_module_def()
  S.check(AND(d == c, hash(c) == h), "definition of a copy is equal", lambda: f"{spec}")
  check_init(S, nnx, root, d, f"{spec}")

SHAPES = ['chain', 'diamond', 'twins', 'cycle back', 'self', 'shared deep']
def shape(S, nnx, which, lab, tags):
  """three or four modules: the sharing patterns a tree walk can confuse"""
  C = g.classes(nnx)
  m = [C['A']() for _ in range(4)]
  m[0].x, m[0].y = m[1], m[2]
  if which == 'chain': m[1].z = m[3]
  if which == 'diamond': m[1].z = m[3]; m[2].z = m[3]
  if which == 'twins': m[1].z = m[3]; m[2].z = C['A']()
  if which == 'cycle back': m[1].z = m[0]; m[2].z = m[1]
  if which == 'self': m[1].z = m[1]; m[2].z = m[2]
  if which == 'shared deep': m[1].z = m[2]; m[2].z = m[1]
  m[1].tag, m[2].tag = tags
  return m[0]

def h_sharing(S):
  nnx = S.nnx
  wa, wb = S.choose(0, "a", values=SHAPES), S.choose(0, "b", values=SHAPES)
  ta = (S.leaf("ta0", g.HM), S.leaf("ta1", g.HM))
  tb = (S.leaf("tb0", g.HM), S.leaf("tb1", g.HM))
  d, e = shape(S, nnx, wa, "a", ta).get_module_def(), shape(S, nnx, wb, "b", tb).get_module_def()
  want = AND(wa == wb, g.py_eq(ta[0], tb[0]), g.py_eq(ta[1], tb[1]))
  check_pair(S, d, e, want, f"{wa} {ta} vs {wb} {tb}")
  if d == e: S.check(hash(d) == hash(e), "equal definitions hash equal")

def h_retrace(S, nmod=2, slots=2, leafopts=('raw', 'param', 'statich'), kinds=('jarr',)):
  """real jax.jit: tracing happens exactly when the structure differs"""
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[0], leafopts, kinds)
  other, how = g.mutate(S, spec, list(kinds))
  for sp in (spec, other):
    S.assume(all(isinstance(s.value, jax.Array) for m in sp.mods for s in m.attrs.values() if s.kind == 'cont' and s.cls != 'Static'), "array leaves")
  n = []
  @jax.jit
  def f(p):
    n.append(1)
    return 0
  p, q = g.build(S, nnx, spec)[0].partition(), g.build(S, nnx, other)[0].partition()
  r = g.build(S, nnx, spec)[0]
  for k, path in enumerate(list(r.get_state())): r.update_state(nnx.State({path: np.full((2,), 7.0 + k, np.float32)}))
  f(p); f(r.partition())
  S.check(len(n) == 1, "values never matter", lambda: f"{spec}: traced {len(n)} times for different values")
  f(q)
  want = bool(AND(g.spec_def_equal(S, spec, other), g.spec_nodes_alike(S, spec, other)))
  S.check((len(n) == 1) == want, "retraced iff the structure differs", lambda: f"{how}: {spec} vs {other}: traced {len(n)} times")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("pairs 2x2", "h_pair", nmod=2, slots=[2, 1], leafopts=['raw', 'statich'])
  j("pairs root 2, names", "h_pair", nmod=2, slots=[2, 1], names=1, leafopts=['raw'], kinds=['jarr', 'int'], clsopts=['A', 'Sub'])
  j("pairs 1x2 leaves", "h_pair", nmod=1, slots=2, leafopts=['raw', 'nodem', 'params', 'custom', 'statich'], kinds=['jarr', 'int0', 'false', 'str0', 'tup0', 'tup', 'obj', 'none', 'func'])
  j("unhashable", "h_pair", nmod=1, slots=1, leafopts=['raw'], kinds=list(STATICS), hashing=False)
  j("values", "h_values", nmod=2, slots=[2, 1])
  for shape in ('deep', 'wide'):
    j(f"pairs {shape}", "h_pair", nmod=shape, leafopts=['raw', 'statich'] if T else ['raw'], kinds=['int'], clss=['A', 'B'])
    j(f"values {shape}", "h_values", nmod=shape, kinds=['jarr'], leafopts=['raw', 'params'])
  j("sharing", "h_sharing")
  J.append(dict(name="retrace", fn="h_retrace", cfg=dict(nmod=2, slots=[1, 1] if not T else [2, 1], leafopts=['raw'], kinds=['jarr', 'str']), world='plain'))
  J.append(dict(name="retrace leaves", fn="h_retrace", cfg=dict(nmod=1, slots=2 if T else 1, leafopts=['raw', 'params', 'node'], kinds=['jarr', 'str', 'int0', 'false']), world='plain'))
  if T:
    j("pairs 3", "h_pair", nmod=3, slots=[2, 1, 1], leafopts=['statich'], kinds=['jarr'])
    j("pairs 2x2 full", "h_pair", nmod=2, slots=2, leafopts=['raw', 'statich'], kinds=['jarr', 'int'])
    j("values 2x2", "h_values", nmod=2, slots=2, kinds=['jarr', 'nparr0z'])
  return J
