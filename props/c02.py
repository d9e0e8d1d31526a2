"""C02 contents and order of state and definition"""
from sx.engine import AND
from sx.proxies import same, ALLVALS, HASHABLE, ARRAYS
from sx import graphs as g
from props.c01 import NAMES, SMALL

BOUNDS = dict(
  quick="modules <= 3, attributes per module <= 3 (1 module) / 2, a chain of 7 modules with a leaf at any depth and a back reference, a module with 12 attributes, every attribute order, names from three universes, arbitrary leaf kinds and contents; user classes of 5 relations to a registered one, registered before, after or between uses",
  thorough="modules <= 4 (7 in a chain), attributes per module <= 3 (12 in one shape)")
OUTSIDE = "larger graphs; attribute names containing '/'"
ASSUMPTIONS = ["attribute names contain no '/'"]
WITNESSES = ["state holds each node once", "static attributes are in the definition", "order independence", "registered classes are nodes"]

def check_state(S, nnx, spec, st, lab="state holds each node once"):
  exp = g.expected_nodes(S, spec)
  seen = {}
  for path in st:
    w = g.path_slot(spec, path)
    S.check(w is not None, "paths lead to attributes", lambda: f"{path} does not lead anywhere in {spec}")
    S.check(w in exp, "only nodes in state", lambda: f"{path} is not a node in {spec}")
    S.check(w not in seen, lab, lambda: f"{path} and {seen[w]} are the same attribute in {spec}")
    seen[w] = path
    slot = spec.mods[w[0]].attrs[w[1]]
    S.check(g.slot_matches(S, nnx, slot, st[path]), "state values", lambda: f"{path}: {st[path]!r} for {slot!r}")
  S.check(len(seen) == len(exp), lab, lambda: f"missing {set(exp) - set(seen)} in {list(st)} of {spec}")

def h_contents(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param'), clsopts=('A',), kinds=ALLVALS):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds, clsopts)
  objs = g.build(S, nnx, spec)
  root = objs[0]
  st = S.choose(0, "via", values=[lambda: root.get_state(), lambda: root.partition().states,
                                  lambda: root.partition(...).states])()
  S.check(isinstance(st, nnx.State), "state type")
  check_state(S, nnx, spec, st)
  S.check(len(st) == len(list(st)), "state length")
  # static attributes: a module built from the definition alone has exactly the non-node attributes
  m2 = root.get_module_def().merge(nnx.State({}))
  stat = spec.copy()
  for m in stat.mods: m.attrs = {n: s for n, s in m.attrs.items() if s.kind == 'mod' or not s.isnode(S)}
  c, _, why = g.match_graph(S, nnx, stat, m2)
  S.check(c, "static attributes are in the definition", lambda: f"{why}; graph {spec}")
  c, _, why = g.match_graph(S, nnx, spec, root)
  S.check(c, "module unchanged", lambda: f"{why}; graph {spec}")

def _rot(k):
  return lambda items: items[k % max(1, len(items)):] + items[:k % max(1, len(items))]

def h_order(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param'), kinds=HASHABLE + ARRAYS):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  a = g.build(S, nnx, spec)[0]
  how = S.choose(0, "order", values=['rev', 'rot', 'sorted'])
  order = dict(rev=lambda it: it[::-1], rot=_rot(1), sorted=lambda it: sorted(it, key=lambda x: x[0]))[how]
  b = g.build(S, nnx, spec, order=order)[0]
  sa, sb = a.get_state(), b.get_state()
  S.check(list(sa) == list(sb), "order independence", lambda: f"{list(sa)} vs {list(sb)} for {spec} ({how})")
  S.check(AND(*[same(sa[k], sb[k]) for k in sa]), "order independence of values", lambda: f"{spec}")
  da, db = a.get_module_def(), b.get_module_def()
  S.check(da == db, "order independence of the definition", lambda: f"{spec} ({how})")
  S.check(hash(da) == hash(db), "hash of the definition", lambda: f"{spec} ({how})")
  import jax
  ta, tb = jax.tree_util.tree_structure(a.partition()), jax.tree_util.tree_structure(b.partition())
  S.check(ta == tb, "order independence of the tree structure", lambda: f"{spec} ({how})")
  # merging parts of a state in any order keeps the same keys in the same order
  p = S.pred("P")
  x, y = sa.partition(p, ...)
  S.check(list(nnx.State.merge(y, x)) == list(sa), "order after merge", lambda: f"{list(nnx.State.merge(y, x))} vs {list(sa)}")

def h_register(S, kinds=('jarr', 'int')):
  """values of user classes become nodes when their class, or a base of it, is registered"""
  nnx = S.nnx
  import abc
  class Base: pass
  class Reg(Base): pass
  class SubReg(Reg): pass
  class Abs(abc.ABC): pass
  class Virtual: pass
  Abs.register(Virtual)
  class Other: pass
  reg = S.choose(0, "registered", values=[None, Base, Reg, SubReg, Abs, Other])
  cls = S.choose(0, "class", values=[Base, Reg, SubReg, Virtual, Other])
  when = S.choose(0, "when", values=['before', 'after', 'between'])
  deep = S.flip("deep")
  v, w, other = cls(), cls(), S.leaf("leaf", list(kinds))
  node = reg is not None and issubclass(cls, reg)
  def register():
    if reg is not None: nnx.register_node_type(reg)
  if when == 'before': register()
  C = g.classes(nnx)
  m = C['A'](); own = m
  if deep: m.sub = C['B'](); own = m.sub
  own.v, own.leaf = v, other
  if when == 'between':
    p = m.partition()
    S.check(all(x is not v for x in p.states.values()), "only nodes in state", "before its class is registered")
    back = p.merge()
    S.check((back.sub if deep else back).v is v, "static attributes are in the definition")
  if when != 'before': register()
  pre = 'sub/' if deep else ''
  lab = "registered classes are nodes"
  S.check(nnx.is_node(v) == node, lab, lambda: f"is_node of a {cls.__name__}, registered {reg}")
  for st, md in ((m.get_state(), m.get_module_def()), tuple(m.partition())):
    want = ({pre + 'v'} if node else set()) | ({pre + 'leaf'} if g.isnode(S, other) else set())
    S.check(set(st) == want, lab, lambda: f"{list(st)} expected {want}; {cls.__name__} registered {reg}")
    if node: S.check(st[pre + 'v'] is v, lab)
    o = md.merge(nnx.State({k: x for k, x in st.items() if k != pre + 'v'}))
    o = o.sub if deep else o
    S.check(hasattr(o, 'v') == (not node), lab, "static attributes in the definition")
  b = m.clone(); b = b.sub if deep else b
  S.check(b.v is v, lab, "clone")
  if node:
    m.update_state(nnx.State({pre + 'v': w}))
    S.check(own.v is w, lab, "update")
    sel = m.filter(cls)
    S.check(list(sel) == [pre + 'v'], lab, lambda: f"{list(sel)}")
    popped = m.pop_state(lambda path, x: x is w)
    S.check(AND(list(popped) == [pre + 'v'], not hasattr(own, 'v')), lab, "pop")
  else:
    own.v = w
    S.check(own.v is w, lab)

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  for nm in (0, 1, 2):
    j(f"contents 2x2 names{nm}", "h_contents", nmod=2, slots=2, names=nm, leafopts=['raw', 'param'])
    j(f"contents containers 1x2 names{nm}", "h_contents", nmod=1, slots=2, names=nm, leafopts=['raw', 'params', 'nodem', 'custom', 'static', 'bs'])
    j(f"order 2x2 names{nm}", "h_order", nmod=2, slots=2, names=nm, leafopts=['raw', 'param'], kinds=['none', 'int', 'jarr'])
  for shape in ('2x2', '1x3'):
    j(f"contents {shape} names3", "h_contents", nmod=int(shape[0]), slots=int(shape[2]), names=3, leafopts=['raw', 'param'], kinds=['none', 'jarr'])
    j(f"order {shape} names3", "h_order", nmod=int(shape[0]), slots=int(shape[2]), names=3, leafopts=['raw', 'param'], kinds=['none', 'int', 'jarr'])
  j("contents raw 1x3", "h_contents", nmod=1, slots=3, names=0, leafopts=['raw'])
  j("contents 3x2", "h_contents", nmod=3, slots=2, names=0, leafopts=['param'], kinds=['none', 'jarr'])
  j("order 1x3", "h_order", nmod=1, slots=3, names=2, leafopts=['raw', 'param'], kinds=['none', 'int', 'jarr'])
  for shape in ('deep', 'wide'):
    j(f"contents {shape}", "h_contents", nmod=shape, names=1, leafopts=['param', 'raw', 'static'], clsopts=['A', 'B'], kinds=SMALL)
    j(f"order {shape}", "h_order", nmod=shape, names=2, leafopts=['param', 'raw'], kinds=['jarr', 'int'])
  j("aliased values", "h_contents", nmod=2, slots=2, names=0, leafopts=['raw', 'param', 'alias'], kinds=['jarr', 'int0'])
  j("registered classes", "h_register")
  if T:
    for nm in (0, 1, 2):
      j(f"contents 3x2 names{nm}", "h_contents", nmod=3, slots=2, names=nm, leafopts=['raw', 'param'], kinds=SMALL)
    j("contents 4x2", "h_contents", nmod=4, slots=2, names=0, leafopts=[])
    j("order 2x3", "h_order", nmod=2, slots=3, names=0, leafopts=['raw', 'param'], kinds=SMALL)
    j("order 3x2", "h_order", nmod=3, slots=2, names=2, leafopts=['param'], kinds=SMALL)
  return J
