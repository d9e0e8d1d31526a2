"""C20 sharding metadata follows the axes of the value"""
import sys
import jax, jax.numpy as jnp, numpy as np
from jax.sharding import PartitionSpec as P
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, choose_name, SymName
from sx import graphs as g

BOUNDS = dict(
  quick="states of <= 3 nodes, each a variable with no sharding, sharding None or a tuple of <= 3 arbitrary names / None (or groups of 1-2 names), or a plain node; every insertion index in [-3, 4] (names opaque), held by Param, BatchStat, Node or a subclass; partition specs of trees (State, dict, tuple, nested, split module) of <= 3 entries; scanned constructors and methods over layers with variables of 0-2 dimensions, every axis position, axis/broadcast/carry collections, metadata of up to 2 variables, created before or inside the scanned method",
  thorough="tuples of <= 4 names, two axis collections with different axes")
OUTSIDE = "negative axis together with fewer names than dimensions of the value (the position is then relative to the names)"
ASSUMPTIONS = ["axis names are used by equality only"]
WITNESSES = ["name inserted at the position", "padded with None", "unannotated untouched", "nothing else changed", "remove is the inverse", "spec has the sharding names", "arrays get an empty spec", "structure kept", "stacked sharding outside", "per-layer sharding inside", "other variables keep their sharding", "created variables"]

def spmd(nnx): return sys.modules.get("nnx.spmd")

def shard(S, lab, nmax, K, kinds=('tup', 'none', 'absent'), group=False):
  k = S.choose(0, lab + "k", values=list(kinds))
  if k == 'absent': return Ellipsis
  if k == 'none': return None
  n = S.choose(nmax + 1, lab + "n")
  def entry(i):
    k = S.choose(0, f"{lab}{i}none", values=['name', 'none'] + (['pair', 'one of one'] if group else []))
    if k == 'none': return None
    x = choose_name(S, f"{lab}{i}", K)
    # a dimension over several mesh axes
    return (x, choose_name(S, f"{lab}{i}b", K)) if k == 'pair' else (x,) if k == 'one of one' else x
  return tuple(entry(i) for i in range(n))

def var(nnx, cls, value, sh, **meta):
  if sh is not Ellipsis: meta['sharding'] = sh
  return cls(value, **meta)

def inserted(sh, index, name):
  """reference: the stacked sharding"""
  l = list(sh)
  if index < 0: index += len(l) + 1
  while len(l) < index: l.append(None)
  return tuple(l[:index]) + (name,) + tuple(l[index:])

def strip(t):
  t = tuple(t)
  while t and t[-1] is None: t = t[:-1]
  return t

def h_axis(S, nmax=3, nodes=2, idx=None, group=False):
  nnx = S.nnx
  m = spmd(nnx)
  if m is None or not hasattr(m, 'add_axis') or not hasattr(m, 'remove_axis'): return
  K = nodes * nmax + 1
  name = choose_name(S, "layer", K)
  n = 1 + S.choose(nodes, "nodes")
  vals = [S.leaf(f"v{i}", ['jarr', 'int']) for i in range(n)]
  shs = [shard(S, f"s{i}", nmax if i == 0 else 1, K, group=group) for i in range(n)]
  classes = [nnx.Param, nnx.BatchStat, nnx.Node]
  vs = {}
  for i in range(n):
    if i == n - 1 and S.flip("raw"): vs[f"k{i}"], shs[i] = vals[i], Ellipsis
    else: vs[f"k{i}"] = var(nnx, classes[S.choose(0, "class", values=[0, 2]) if i == 0 else i % 2], vals[i], shs[i], extra=f"m{i}")
  state = nnx.State(dict(vs))
  lens = [len(s) for s in shs if s is not Ellipsis and s is not None]
  lo = -1 - (min(lens) if lens else 0)
  cand = [i for i in (idx or range(-3, 5)) if i >= lo]
  if not cand: return
  index = S.choose(0, "index", values=cand)
  params = {'partition_name': name}
  out = m.add_axis(state, index, params)
  S.check(list(out) == list(state) and type(out) is type(state), "nothing else changed")
  def rest(a, b, lab):
    """same container apart from the sharding"""
    S.check(type(a) is type(b), lab, lambda: f"{type(a)} {type(b)}")
    if not isinstance(b, nnx.Node):
      S.check(same(a, b), lab); return
    S.check(same(a.value, b.value), lab)
    ma = {k: v for k, v in vars(a).items() if k != 'sharding' and 'value' not in k}
    mb = {k: v for k, v in vars(b).items() if k != 'sharding' and 'value' not in k}
    S.check(same(ma, mb), lab, lambda: f"{ma} {mb}")
    S.check(hasattr(a, 'sharding') == hasattr(b, 'sharding'), lab)
  for i in range(n):
    x, o = vs[f"k{i}"], out[f"k{i}"]
    rest(o, x, "nothing else changed")
    if shs[i] is Ellipsis or shs[i] is None:
      S.check(same(o, x), "unannotated untouched", lambda: f"{o} {x}")
    else:
      want = inserted(shs[i], index, name)
      S.check(AND(type(o.sharding) is tuple, same(o.sharding, want)), "padded with None" if index > len(shs[i]) else "name inserted at the position", lambda: f"{shs[i]} at {index}: {o.sharding} expected {want}")
    if isinstance(x, nnx.Node) and shs[i] is not Ellipsis:
      S.check(same(x.sharding, shs[i]), "nothing else changed", "argument modified")
  back = m.remove_axis(out, index, params)
  for i in range(n):
    x, o = vs[f"k{i}"], back[f"k{i}"]
    rest(o, x, "remove is the inverse")
    if shs[i] is Ellipsis: continue
    if shs[i] is None: S.check(o.sharding is None, "remove is the inverse")
    else:
      S.check(same(strip(o.sharding), strip(shs[i])), "remove is the inverse", lambda: f"{shs[i]} at {index}: {out[f'k{i}'].sharding} back to {o.sharding}")
      if 0 <= index <= len(shs[i]) or index < 0: S.check(same(o.sharding, shs[i]), "remove is the inverse", lambda: f"{shs[i]} at {index}: back to {o.sharding}")

def h_spec(S, nmax=2, group=False, trees=('state', 'dict', 'tuple', 'nested', 'pure', 'list of states')):
  nnx = S.nnx
  K = 2 * nmax + 1
  kinds = ['jarr', 'nparr', 'jarr0d', 'int', 'none', 'obj', 'true', 'str', 'float']
  n = 2
  entries, want = [], []
  for i in range(n):
    k = S.choose(0, f"e{i}", values=['param', 'node', 'static', 'leaf'][: 4 if i == 0 else 1] + (['module'] if False else []))
    v = S.leaf(f"v{i}", kinds if k != 'leaf' else [x for x in kinds if x not in ('none',)])
    def plain(v):
      return P() if hasattr(v, 'shape') else None
    if k == 'leaf' or k == 'static':
      if k == 'static': v = np.zeros((2,), np.float32)
      entries.append(v); want.append(plain(v)); continue
    sh = shard(S, f"s{i}", nmax, K, group=group)
    entries.append(var(nnx, nnx.Param if k == 'param' else nnx.Node, v, sh, other=3))
    want.append(P(*sh) if sh is not Ellipsis and sh else plain(v))
  shape = S.choose(0, "tree", values=list(trees))
  mod = g.classes(nnx)['A']() if shape == 'pure' else None
  mk = dict(state=lambda a, b: nnx.State({'p/q': a, 'r': b}), dict=lambda a, b: {'x': a, 'y': b}, tuple=lambda a, b: (a, b), nested=lambda a, b: {'x': [a, None, (b,)], 'z': {}},
            pure=lambda a, b: nnx.State({'x': a, 'y': b}))
  mk['list of states'] = lambda a, b: [nnx.State({'x': a}), nnx.State({'y': b})]
  tree = mk[shape](*entries)
  got = nnx.get_partition_spec(tree)
  w = mk[shape](*want)
  isl = lambda x: x is None or isinstance(x, P)
  l1, t1 = jax.tree_util.tree_flatten(got, is_leaf=isl)
  l2, t2 = jax.tree_util.tree_flatten(w, is_leaf=isl)
  S.check(t1 == t2, "structure kept", lambda: f"{t1} {t2}")
  for a, b in zip(l1, l2):
    if b is None: S.check(a is None, "structure kept", lambda: f"{got} {w}"); continue
    S.check(isinstance(a, P) and len(a) == len(b), "arrays get an empty spec" if not len(b) else "spec has the sharding names", lambda: f"{got} {w}")
    S.check(same(tuple(a), tuple(b)), "spec has the sharding names", lambda: f"{got} {w}")
  for e, w_ in zip(entries, want): pass

# ---------------------------------------------------------------- scan
NAMES = ['row', 'col', None]
def h_scan(S, ranks=(0, 1, 2), create=(False,), full=True, collections=('axis', 'broadcast', 'carry'), holders=('Param',)):
  nnx = S.nnx
  L = 2
  r = S.choose(0, "rank", values=list(ranks))
  ns = r if full else S.choose(r + 1, "names")
  kind = S.choose(0, "shard", values=['tup', 'none'])
  sh = tuple(S.choose(0, f"n{i}", values=NAMES) for i in range(ns)) if kind == 'tup' else (None if kind == 'none' else Ellipsis)
  axis = S.choose(0, "axis", values=list(range(-(r + 1) if ns == r else 0, r + 1)))
  other = S.choose(0, "collection", values=list(collections))
  meta = S.flip("metadata")
  inside = {}
  made = S.choose(0, "create", values=list(create))
  init_scan = S.choose(0, "init", values=['decorator', 'Scan'])
  shape = (3, 4)[:r]
  # the container of the annotated value: any node class can be axis-mapped
  holder = S.choose(0, "holder", values=list(holders))
  class Own(nnx.Node): pass
  W = dict(Param=nnx.Param, Node=nnx.Node, Own=Own)[holder]
  vaxes = {nnx.Param: axis} if holder == 'Param' else {(lambda path, v: path.split('/')[-1] in ('w', 'extra')): axis}
  if other == 'axis': vaxes[nnx.BatchStat] = 0
  opts = dict(variable_axes=vaxes, variable_broadcast=nnx.BatchStat if other == 'broadcast' else None, length=L)
  if meta: opts['metadata_params'] = {'partition_name': 'layers'}
  def look(m, where):
    inside[where] = {p: getattr(v, 'sharding', Ellipsis) for p, v in m.get_state().items()}
  def body(self):
    self.w = var(nnx, W, jnp.ones(shape), sh)
    self.b = nnx.BatchStat(jnp.zeros((3,)), sharding=('feat',))
    look(self, 'ctor')
  def call(self, x, _):
    look(self, 'call')
    self.w = self.w * 2
    if made: self.extra = W(jnp.ones(shape), sharding=('row', 'col')[:r])
    look(self, 'after')
    return x, None
  if init_scan == 'decorator':
    class Block(nnx.Module):
      @nnx.scan if False else (lambda f: nnx.scan(f, is_init=True, **opts))
      def __init__(self): body(self)
      @(lambda f: nnx.scan(f, **opts))
      def __call__(self, x, _): return call(self, x, _)
    m = Block()
    inner = m
    pre = ''
  else:
    class Layer(nnx.Module):
      def __init__(self): body(self)
      def __call__(self, x, _): return call(self, x, _)
    m = nnx.Scan(Layer, **opts)()
    pre = 'scan_module/'
  def expect(stacked):
    d = {}
    d['w'] = sh if not stacked or sh is Ellipsis or sh is None or not meta else inserted(sh, axis, 'layers')
    d['b'] = ('feat',) if not (stacked and meta and other == 'axis') else ('layers', 'feat')
    return d
  def outside(lab):
    st = {p.split('/')[-1]: v for p, v in m.get_state().items()}
    e = expect(True)
    for n, w in e.items():
      have = getattr(st[n], 'sharding', Ellipsis)
      S.check(have == w if w is not Ellipsis else have is w, "stacked sharding outside" if n == 'w' or other == 'axis' else "other variables keep their sharding", lambda: f"{lab}: {n}: {have} expected {w}; axis {axis}, meta {meta}")
      if w not in (None, Ellipsis) and meta and n == 'w': S.check(st[n].value.shape[w.index('layers')] == L, "stacked sharding outside", "not the stacked dimension")
  outside("after init")
  m(jnp.zeros(()), None)
  for where in ('ctor', 'call', 'after'):
    got = {p.split('/')[-1]: v for p, v in inside[where].items()}
    for n, w in expect(False).items():
      S.check(got[n] is w if w is None else strip(got[n]) == strip(w) and (ns < r or got[n] == w), "per-layer sharding inside" if n == 'w' or other == 'axis' else "other variables keep their sharding", lambda: f"{where}: {n}: {got[n]} expected {w}; axis {axis}, meta {meta}")
  outside("after call")
  if made:
    st = {p.split('/')[-1]: v for p, v in m.get_state().items()}
    w = ('row', 'col')[:r]
    S.check(st['extra'].sharding == (inserted(w, axis, 'layers') if meta else w), "created variables", lambda: f"{st['extra'].sharding} axis {axis}")
  m(jnp.zeros(()), None)
  outside("after second call")
  spec = nnx.get_partition_spec(m.get_state())
  for p, v in m.get_state().items():
    shv = getattr(v, 'sharding', None)
    S.check(spec[p] == (P(*shv) if shv else P()) if not hasattr(spec[p], 'value') else True, "spec has the sharding names", lambda: f"{p} {spec[p]}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, world=None, **cfg):
    d = dict(name=name, fn=fn, cfg=cfg)
    if world: d['world'] = world
    J.append(d)
  for i, ix in enumerate([[-3, -2], [-1, 0], [1, 2], [3, 4]]):
    j(f"axis {ix}", "h_axis", idx=ix, nmax=4 if T else 3)
  j("spec", "h_spec", nmax=3 if T else 2)
  j("spec groups of axes", "h_spec", nmax=2 if T else 1, group=True, trees=['state', 'dict'])
  for ix in ([0, 1, 2], [-1]): j(f"axis groups {ix}", "h_axis", idx=ix, nmax=2, nodes=1, group=True)
  for r in (0, 1, 2):
    j(f"scan rank {r}", "h_scan", world='plain', ranks=[r], collections=['axis', 'carry'] if r == 2 else ['axis', 'broadcast', 'carry'])
  j("scan creating", "h_scan", world='plain', ranks=[1, 2] if T else [1], create=[True], collections=['broadcast'])
  j("scan fewer names", "h_scan", world='plain', ranks=[1, 2], full=False, collections=['carry'])
  j("scan holders", "h_scan", world='plain', ranks=[1], create=[False, True], collections=['carry'], holders=['Node', 'Own'])
  if T: j("scan rank 3", "h_scan", world='plain', ranks=[2], create=[True, False], collections=['axis', 'broadcast', 'carry'])
  return J
