"""C01 split / merge round trip"""
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, ALLVALS, ARRAYS, SymVal
from sx import graphs as g

BOUNDS = dict(
  quick="modules <= 3, attributes per module <= 2 (root 3 in one job), parts <= 3 in any order and 6, a chain of 7 modules with a leaf at any depth and a back reference, a module with 12 attributes, attribute names from three universes, every attribute order, leaf kinds: %d, arbitrary leaf contents" % (len(ALLVALS) + 1),
  thorough="modules <= 4 (7 in a chain), attributes per module <= 3 (12 in one shape), parts <= 6")
OUTSIDE = "larger graphs; attribute names containing '/'; node values that are nested containers"
ASSUMPTIONS = ["attribute names contain no '/'", "leaf kinds listed in sx/proxies.py KINDTAB"]
WITNESSES = ["merge gives an isomorphic graph", "original unchanged", "independence of the merged graph",
             "clone gives an isomorphic graph"]

NAMES = [(('b', 'a', '_c'), ('x1', 'x', 'X'), ('q', '0', 'p'), ('v', 'u', 'w')),
         (('a', 'b', 'c'), ('a', 'b', 'c'), ('a', 'b', 'c'), ('a', 'b', 'c')),
         (('10', '9', '_p'), ('_module', 'z', 'y'), ('B', 'a', 'C'), ('s', 'r', 't')),
         (('_a', 'A', 'a'), ('_x', 'x', 'X'), ('d', '_d', 'D'), ('v', '_v', 'V'))]

def h_roundtrip(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param', 'nodem'), clsopts=('A',), first=None, kinds=ALLVALS, how=None):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds, clsopts)
  objs = g.build(S, nnx, spec)
  root = objs[0]
  how = how or S.choose(0, "how", values=['whole', 'clone', 'two', 'three'])
  if how == 'clone':
    m2 = root.clone()
    lab = "clone gives an isomorphic graph"
  else:
    lab = "merge gives an isomorphic graph"
    if how == 'whole':
      p = root.partition()
      m2 = S.choose(0, "via", values=[lambda: p.merge(), lambda: p.moduledef.merge(p.states)])()
    else:
      n = dict(two=2, three=3, many=6)[how]
      ps = [S.pred(f"P{i}") for i in range(n - 1)]
      p = root.partition(*ps, ...)
      S.check(isinstance(p.states, tuple) and len(p.states) == n, "number of parts", lambda: f"{p.states}")
      perm = S.choose(0, "perm", values=[[0, 1], [1, 0]] if n == 2 else [[0, 1, 2], [2, 0, 1], [1, 2, 0]] if n == 3 else [list(range(n)), [4, 0, 5, 2, 1, 3]])
      if perm[0] == 0: m2 = p.merge()
      else: m2 = p.moduledef.merge(*[p.states[i] for i in perm])
  c, objs2, why = g.match_graph(S, nnx, spec, m2)
  S.check(c, lab, lambda: f"{why}; graph {spec}")
  c, _, why = g.match_graph(S, nnx, spec, root)
  S.check(c, "original unchanged", lambda: f"{why}; graph {spec}")
  S.check(not any(o is objs2[i] for i, o in enumerate(objs) if i in objs2), "fresh module objects", lambda: f"{spec}")

def h_independent(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param', 'nodem'), kinds=ALLVALS):
  """assignments on one graph are not visible in the other"""
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  via = S.choose(0, "via", values=['clone', 'merge', 'merge2'])
  if via == 'clone': m2 = objs[0].clone()
  else:
    p = objs[0].partition()
    m2 = p.merge()
    if via == 'merge2': objs[0] = None; root = p.merge()
  if via != 'merge2': root = objs[0]
  side = S.flip("side")
  src, other = (root, m2) if side else (m2, root)
  c, om, why = g.match_graph(S, nnx, spec, src)
  reach = sorted(om)
  i = S.choose(0, "mod", values=reach)
  attrs = list(spec.mods[i].attrs)
  n = S.choose(0, "attr", values=attrs + ['fresh'])
  val = S.leaf("newval", kinds)
  s = spec.mods[i].attrs.get(n)
  if s is not None and s.kind == 'mod': delattr(om[i], n)
  setattr(om[i], n, val)
  c, _, why = g.match_graph(S, nnx, spec, other)
  S.check(c, "independence of the merged graph", lambda: f"{why}; graph {spec}; assigned {n} of module {i}")
  exp = spec.copy()
  exp.mods[i].attrs[n] = g.Slot('cont', s.cls, s.meta, val) if s is not None and s.kind == 'cont' else g.Slot('raw', value=val)
  c, _, why = g.match_graph(S, nnx, exp, src)
  S.check(c, "assignment took effect", lambda: f"{why}; graph {exp}")

SMALL = ['none', 'int0', 'tup', 'jarr']
def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  for nm in (0, 1, 2):
    for how in ('whole', 'clone'):
      j(f"graph 2x2 names{nm} {how}", "h_roundtrip", nmod=2, slots=2, names=nm, leafopts=['raw', 'param'], how=how)
    j(f"leaf containers 1x2 names{nm}", "h_roundtrip", nmod=1, slots=2, names=nm,
      leafopts=['raw', 'params', 'nodem', 'custom', 'static', 'bs'])
  j("graph 3x2 sharing", "h_roundtrip", nmod=3, slots=2, names=0, leafopts=['param'], kinds=SMALL, how='whole')
  j("classes 2x2", "h_roundtrip", nmod=2, slots=2, names=0, leafopts=['param'], clsopts=['A', 'Sub'], kinds=SMALL, how='whole')
  j("split in two", "h_roundtrip", nmod=2, slots=2, names=0, leafopts=['param'], kinds=SMALL, how='two')
  j("split in three", "h_roundtrip", nmod=2, slots=2, names=2, leafopts=['raw'], kinds=SMALL, how='three')
  j("split containers", "h_roundtrip", nmod=1, slots=3, names=1, leafopts=['raw', 'param', 'nodem'], kinds=SMALL, how='two')
  j("independence 2x2", "h_independent", nmod=2, slots=2, names=0, leafopts=['raw', 'params'])
  j("graph 2x2 names3", "h_roundtrip", nmod=2, slots=2, names=3, leafopts=['raw', 'param'], kinds=SMALL, how='whole')
  j("aliased values", "h_roundtrip", nmod=2, slots=[2, 2], names=0, leafopts=['raw', 'params', 'alias'], kinds=['jarr', 'tup'], how='two')
  j("independence of aliases", "h_independent", nmod=2, slots=[2, 1], names=0, leafopts=['raw', 'params', 'alias'], kinds=['jarr'])
  j("independence 1x2", "h_independent", nmod=1, slots=2, names=1, leafopts=['raw', 'nodem', 'bs', 'static'])
  j("split in six", "h_roundtrip", nmod=1, slots=[2], names=0, leafopts=['param', 'raw'], kinds=['jarr'], how='many')
  for shape in ('deep', 'wide'):
    for how in ('whole', 'clone'):
      j(f"graph {shape} {how}", "h_roundtrip", nmod=shape, names=1, leafopts=['param', 'raw'], kinds=SMALL, clsopts=['A', 'B'], how=how)
    j(f"split in two {shape}", "h_roundtrip", nmod=shape, names=0, leafopts=['param', 'raw'], kinds=['jarr', 'int0'], how='two')
    j(f"independence {shape}", "h_independent", nmod=shape, names=0, leafopts=['params', 'raw'], kinds=['jarr', 'int0'])
  if T:
    for nm in (0, 1, 2):
      j(f"graph 3x2 names{nm}", "h_roundtrip", nmod=3, slots=2, names=nm, leafopts=['raw', 'param'], kinds=SMALL, how='whole')
    j("graph 4x2 sharing", "h_roundtrip", nmod=4, slots=2, names=0, leafopts=[], kinds=SMALL, how='whole')
    j("graph 2x3", "h_roundtrip", nmod=2, slots=3, names=2, leafopts=['raw', 'param'], kinds=SMALL, how='clone')
    j("independence 3x2", "h_independent", nmod=3, slots=2, names=2, leafopts=['param'], kinds=SMALL)
  return J
