"""C11 pytrees of variables, states, definitions and split modules"""
import copy
import jax
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal, TREELEAVES, ARRAYS, HASHABLE, Obj
from sx import graphs as g
from sx.graphs import HM
from props.c01 import NAMES
from props.c10 import choose_desc, real, matches, Desc, compatible

BOUNDS = dict(
  quick="containers of every class with arbitrary metadata and leaf kind; states of <= 3 entries; split modules of <= 2 modules (sharing, cycles), <= 2 attributes, <= 2 parts, chains of 7 modules, modules with 12 attributes; split contexts of <= 2 streams with arbitrary (symbolic) counters, split paths <= 2, <= 2 draws and one nested split; pairs differing in at most one place",
  thorough="modules <= 3, attributes <= 3")
OUTSIDE = "node values that are themselves pytree containers except one level of tuple / dict; None values"
ASSUMPTIONS = ["metadata and static values are compared with =="]
WITNESSES = ["flatten / unflatten is the identity", "leaves are exactly the node values", "mapping changes only values", "no leaves", "equal structure iff equal parts", "paths agree with leaves", "rebuilt split context draws the same keys", "equal structure draws equal keys", "copies have equal structure"]

TL = [k for k in TREELEAVES]
T3 = ['int', 'jarr', 'obj']

class Mapped:
  def __init__(self, x): self.x = x
  def __repr__(self): return f"Mapped({self.x!r})"

def check_tree(S, x, values, rebuild_same, lab, copies=False):
  """x flattens to exactly `values`, in order, and back; rebuild_same(y, vals): y is x with leaves vals"""
  leaves, td = jax.tree_util.tree_flatten(x)
  S.check(len(leaves) == len(values), "leaves are exactly the node values", lambda: f"{lab}: {leaves} vs {values}")
  S.check(AND(*[same(a, b) for a, b in zip(leaves, values)]), "leaves are exactly the node values", lambda: f"{lab}: {leaves} vs {values}")
  y = jax.tree_util.tree_unflatten(td, leaves)
  S.check(AND(type(y) is type(x), rebuild_same(y, values)), "flatten / unflatten is the identity", lambda: f"{lab}: {y!r} vs {x!r}")
  wp, td2 = jax.tree_util.tree_flatten_with_path(x)
  S.check(AND(len(wp) == len(leaves), *[same(a[1], b) for a, b in zip(wp, leaves)]), "paths agree with leaves", lambda: f"{lab}: {wp}")
  S.check(len({str(p) for p, _ in wp}) == len(wp), "paths agree with leaves", lambda: f"{lab}: {wp}")
  box = {}
  def f(v):
    m = Mapped(v); box[id(m)] = m
    return m
  z = jax.tree_util.tree_map(f, x)
  zl = jax.tree_util.tree_leaves(z)
  S.check(AND(len(zl) == len(values), *[AND(type(a) is Mapped, same(a.x, b)) for a, b in zip(zl, values) if type(a) is Mapped]), "mapping changes only values", lambda: f"{lab}: {zl}")
  S.check(all(type(a) is Mapped for a in zl), "mapping changes only values", lambda: f"{lab}: {zl}")
  S.check(rebuild_same(z, zl), "mapping changes only values", lambda: f"{lab}: {z!r}")
  S.check(jax.tree_util.tree_structure(z) == td, "equal structure iff equal parts", lambda: f"{lab}: mapping changed the structure")
  S.check(rebuild_same(x, values), "flatten leaves the object as it was", lab)
  for by, fn in ((("deepcopy", copy.deepcopy), ("pickle", g.pickled)) if copies else ()):
    c = fn(x)
    cl, ctd = jax.tree_util.tree_flatten(c)
    try: eq = ctd == td
    except ValueError: continue      # arrays among the static parts have no equality of their own
    S.check(AND(type(c) is type(x), eq), "copies have equal structure", lambda: f"{lab} {by}: {ctd} vs {td}")
    S.check(AND(len(cl) == len(values), *[g.py_eq(a, b) if isinstance(b, SymVal) else type(a) is type(b) for a, b in zip(cl, values)]), "copies have equal structure", lambda: f"{lab} {by}: {cl} vs {values}")
  return td

def h_container(S, kinds=tuple(TL), clss=('Param', 'BatchStat', 'Node', 'Custom', 'SubParam'), metas=('plain', 'meta', 'sharding'), copies=False):
  nnx = S.nnx
  d = choose_desc(S, "c", list(kinds), list(clss), metas)
  x = real(nnx, d)
  vals = [] if d.value is None else [d.value]        # None is an empty pytree
  check_tree(S, x, vals, lambda y, v: matches(nnx, y, d.with_value(v[0] if v else None)), repr(d), copies)

def h_nested(S, kinds=('int', 'jarr')):
  """node values that are trees themselves"""
  nnx = S.nnx
  a, b = S.leaf("a", kinds), S.leaf("b", kinds)
  form = S.choose(0, "form", values=['tuple', 'dict', 'list', 'state', 'none', 'param'])
  mk = dict(tuple=lambda v: (v[0], v[1]), dict=lambda v: {'k': v[0], 'l': v[1]}, list=lambda v: [v[0], (v[1],)],
            state=lambda v: nnx.State({'p': v[0], 'q/r': v[1]}), none=lambda v: (None, v[0]), param=lambda v: (nnx.Param(v[0], sharding=('x',)), v[1]))[form]
  vals = [a, b] if form != 'none' else [a]
  d = Desc(S.choose(0, "cls", values=['Param', 'Node']), {}, mk(vals + [None]))
  check_tree(S, real(nnx, d), vals, lambda y, v: matches(nnx, y, d.with_value(mk(list(v) + [None]))), repr(d))

def h_static(S, kinds=tuple(HASHABLE)):
  nnx = S.nnx
  v = S.leaf("v", kinds)
  x = nnx.Static(v)
  leaves, td = jax.tree_util.tree_flatten(x)
  S.check(leaves == [], "no leaves", lambda: f"{leaves}")
  y = jax.tree_util.tree_unflatten(td, [])
  S.check(AND(type(y) is nnx.Static, same(vars(y), {'value': v})), "flatten / unflatten is the identity", lambda: f"{y!r}")
  z = jax.tree_map(Mapped, x)
  S.check(same(vars(z), {'value': v}), "mapping changes only values", lambda: f"{z!r}")
  w = S.leaf("w", kinds)
  S.check(IFF(jax.tree_util.tree_structure(nnx.Static(w)) == td, g.py_eq(v, w)), "equal structure iff equal parts", lambda: f"{v!r} {w!r}")

def h_pair_container(S):
  nnx = S.nnx
  d = choose_desc(S, "c", ['int'], ['Param', 'Node', 'Custom', 'SubParam'], metas=('plain', 'meta', 'sharding', 'two'))
  e = choose_desc(S, "d", ['int'], ['Param', 'Node', 'Custom', 'SubParam'], metas=('plain', 'meta', 'sharding', 'two'))
  rev = Desc(e.cls, dict(reversed(list(e.full().items()))), e.value)     # the order of keyword arguments never matters
  eq = jax.tree_util.tree_structure(real(nnx, d)) == jax.tree_util.tree_structure(real(nnx, rev))
  S.check(IFF(eq, compatible(d, e)), "equal structure iff equal parts", lambda: f"{d} vs {e}: {eq}")

def state_of(S, nnx, paths, lab, kinds, clss=('Param', 'Node', 'Custom')):
  ent = {}
  for p in paths:
    k = S.choose(0, f"{lab}.{p}", values=['absent', 'raw', 'cont'])
    if k == 'raw': ent[p] = S.leaf(f"{lab}.{p}.v", kinds)
    elif k == 'cont': ent[p] = choose_desc(S, f"{lab}.{p}", kinds, clss, metas=('plain', 'meta'))
  return ent, nnx.State({p: real(nnx, e) if isinstance(e, Desc) else e for p, e in ent.items()})

def h_state(S, paths=('b', 'a/x', 'a', 'B'), kinds=('int', 'jarr'), nent=3):
  nnx = S.nnx
  ent, st = state_of(S, nnx, paths[:nent], "s", list(kinds))
  order = sorted(ent)
  vals = [ent[p].value if isinstance(ent[p], Desc) else ent[p] for p in order]
  def ok(y, v):
    if list(y) != order or len(y) != len(order): return False
    return AND(*[matches(nnx, y[p], ent[p].with_value(q)) if isinstance(ent[p], Desc) else same(y[p], q) for p, q in zip(order, v)])
  td = check_tree(S, st, vals, ok, f"state {ent}")
  ent2, st2 = state_of(S, nnx, paths[:2], "t", list(kinds)[:1], ('Param', 'Node')) if nent <= 2 else (None, None)
  if st2 is not None:
    eq = jax.tree_util.tree_structure(st2) == td
    want = False
    if set(ent) == set(ent2):
      want = AND(*[compatible(ent[p], ent2[p]) if isinstance(ent[p], Desc) and isinstance(ent2[p], Desc) else isinstance(ent[p], Desc) == isinstance(ent2[p], Desc) for p in ent])
    S.check(IFF(eq, want), "equal structure iff equal parts", lambda: f"{ent} vs {ent2}: {eq}")

def h_pure(S, nmod=2, slots=2, names=0, leafopts=('raw', 'params', 'static'), kinds=('jarr', 'int', 'str'), splits=(False, True), copies=False):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  split = S.choose(0, "split", values=list(splits))
  # a split may also be made while the module is being initialised
  initing = S.flip("initialising")
  root = objs[0].init if initing else objs[0]
  p = root.partition(S.pred("P"), ...) if split else root.partition()
  md = p.moduledef
  S.check(jax.tree_util.tree_leaves(md) == [], "no leaves", lambda: f"{md}")
  md2 = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(md), [])
  S.check(md2 == md and isinstance(md2, nnx.ModuleDef), "flatten / unflatten is the identity", lambda: f"{md} vs {md2}")
  defstate = lambda d: [(d.type, d.index, d.module_state)] + [x for _, s in d.submodules if not isinstance(s, int) for x in defstate(s)]
  S.check(defstate(md2) == defstate(md), "flatten / unflatten is the identity", lambda: f"{defstate(md)} vs {defstate(md2)}")
  # every definition inside it is a tree without leaves of its own, and those that refer to nothing outside still merge
  refs = lambda d: [x for _, s in d.submodules for x in ([s] if isinstance(s, int) else refs(s))]
  inner = lambda d: [d] + [x for _, s in d.submodules if not isinstance(s, int) for x in inner(s)]
  for path, d in [((), md)] + [(p, x) for p, x in subdefs(md)]:
    e = jax.tree_util.tree_map(lambda x: x, d)
    S.check(isinstance(e, nnx.ModuleDef) and e == d and defstate(e) == defstate(d) and repr(e) == repr(d), "flatten / unflatten is the identity", lambda: f"definition at {path}: {d} vs {e}")
    if path and set(refs(d)) <= {x.index for x in inner(d)}:
      m = objs[0]
      for k in path: m = getattr(m, k)
      st = m.partition()[0]
      c, why = g.graphs_same(S, nnx, e.merge(st), d.merge(st))
      S.check(c, "rebuilt split module merges to the module", lambda: f"definition at {path}: {why}; {spec}")
  states = p.states if split else (p.states,)
  vals = []
  for st in states:
    for k in st:
      s = st[k]
      vals.append(vars(s)['value'] if type(s) is not SymVal and hasattr(type(s), 'is_equivalent') else s)
  paths = [list(s) for s in states]
  def ok(y, v):
    if not isinstance(y, nnx.Pure): return False
    ys = y.states if isinstance(y.states, tuple) else (y.states,)
    if isinstance(y.states, tuple) != split or [list(s) for s in ys] != paths or not y.moduledef == md: return False
    it = iter(v); conds = []
    for s, o in zip(ys, states):
      for k in o:
        a, b, w = s[k], o[k], next(it)
        if type(b) is not SymVal and hasattr(type(b), 'is_equivalent'):
          if type(a) is not type(b): return False
          conds.append(same(vars(a), {**vars(b), 'value': w}))
        else: conds.append(same(a, w))
    return AND(*conds)
  check_tree(S, p, vals, ok, f"split module {spec}", copies)
  if copies:
    for q in (copy.deepcopy(p), g.pickled(p)):
      c, why = g.graphs_same(S, nnx, q.merge(), p.merge())
      S.check(c, "copies have equal structure", lambda: f"{why}; {spec}")
  # what merges from the rebuilt parts is the module
  q = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(p), jax.tree_util.tree_leaves(p))
  c, _, why = g.match_graph(S, nnx, spec, q.merge())
  S.check(c, "rebuilt split module merges to the module", lambda: f"{why}; {spec}")
  flags = []
  q.merge().for_each(nnx.Module, lambda m: flags.append(m.is_initializing))
  S.check(all(f == initing for f in flags), "rebuilt split module merges to the module", lambda: f"initialising {initing}: {flags}; {spec}")

def subdefs(md, path=()):
  for k, s in md.submodules:
    if not isinstance(s, int):
      yield path + (k,), s
      yield from subdefs(s, path + (k,))

def h_pair_pure(S, nmod=2, slots=2, names=0, leafopts=('raw', 'params', 'static'), kinds=('jarr', 'int')):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  other, how = g.mutate(S, spec, ['jarr', 'int'])
  p, q = g.build(S, nnx, spec)[0].partition(), g.build(S, nnx, other)[0].partition()
  eq = jax.tree_util.tree_structure(p) == jax.tree_util.tree_structure(q)
  want = AND(g.spec_def_equal(S, spec, other), g.spec_nodes_alike(S, spec, other))
  S.check(IFF(eq, want), "equal structure iff equal parts", lambda: f"{how}: {spec} vs {other}: {eq}")

def h_context(S):
  nnx = S.nnx
  from props.c09 import build, check_ctx
  ctx, names, flags = build(S, nnx, 2, 2, sym=False)
  p = ctx.partition()
  keys = p.keys
  vals = [keys[n] for n in sorted(names)]
  def ok(y, v):
    if type(y) is not type(p) or set(y.keys) != set(names): return False
    return AND(*[same(y.keys[n], x) for n, x in zip(sorted(names), v)])
  check_tree(S, p, vals, ok, f"split context {names}")
  q = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(p), jax.tree_util.tree_leaves(p))
  check_ctx(S, nnx, q.merge(), names, flags, "rebuilt")
  # a second context
  ctx2, names2, flags2 = build(S, nnx, 1, 1, sym=False)
  p2 = ctx2.partition()
  eq = jax.tree_util.tree_structure(p2) == jax.tree_util.tree_structure(p)
  want = AND(names == names2, list(flags) == list(flags2), *[same(flags[f], flags2[f]) for f in flags if f in flags2])
  S.check(IFF(eq, want), "equal structure iff equal parts", lambda: f"{names} {flags} vs {names2} {flags2}: {eq}")

def h_context_keys(S, nstreams=2, depth=2):
  """split contexts with any history: what merges from the rebuilt parts draws the same keys, and
  definitions with equal structure draw equal keys"""
  nnx = S.nnx
  from props.c08 import derivations, key_eq, base_key, stream
  from props.c09 import NAMES as SN
  with derivations(not S.symbolic):
    perm = S.choose(0, "order", values=[[0, 1], [1, 0]])[:nstreams]
    names = [SN[i] for i in perm if i < nstreams and (i == 0 or S.flip(f"has {SN[i]}"))]
    flags = {'train': S.leaf("flag", ['true', 'false'])} if S.flip("flagged") else {}
    def make(tag):
      kw = {n: stream(S, nnx, base_key(SN.index(n)), S.int(f"{tag}c_{n}", 0, 10 ** 6), [S.int(f"{tag}p{j}_{n}", 0, 10 ** 6) for j in range(plen)]) for n in names}
      return nnx.context(flags=flags, **kw)
    plen = S.choose(3, "path length")
    def split(tag):
      c = make(tag)
      for i in range(S.choose(3, "draws")):
        for n in names: c.make_rng(n)
      p = c.partition()
      return p
    p = split("a")
    for d in range(S.choose(depth, "nested")):
      c = p.merge()
      for n in names: c.make_rng(n)
      p = c.partition()
    leaves, td = jax.tree_util.tree_flatten(p)
    S.check(len(leaves) == len(names), "leaves are exactly the node values", lambda: f"{leaves}")
    how = S.choose(0, "how", values=['whole', 'map', 'parts', 'definition', 'deepcopy', 'pickle'])
    if how == 'whole': q = jax.tree_util.tree_unflatten(td, leaves)
    elif how == 'map': q = jax.tree_map(lambda x: x, p)
    elif how == 'deepcopy': q = copy.deepcopy(p)
    elif how == 'pickle': q = g.pickled(p)
    elif how == 'parts': q = type(p)(jax.tree_map(lambda x: x, (p.keys, p.contextdef)))
    else:
      S.check(jax.tree_util.tree_leaves(p.contextdef) == [], "no leaves")
      q = type(p)((p.keys, jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(p.contextdef), [])))
    a, b = p.merge(), q.merge()
    for n in names:
      for i in range(2):
        x, y = a.make_rng(n), b.make_rng(n)
        S.check(key_eq(S, x, y), "rebuilt split context draws the same keys", lambda: f"{how} {n} draw {i}: {x} vs {y}")
    S.check(AND(*[same(b.get_flag(f), flags[f]) for f in flags]), "rebuilt split context draws the same keys", "flags")
    # another context with its own counters
    p2 = split("b") if S.flip("other counters") else None
    if p2 is not None and type(p2) is type(p):
      if jax.tree_util.tree_structure(p2) == td:
        a, b = p.merge(), p2.merge()
        for n in names:
          x, y = a.make_rng(n), b.make_rng(n)
          S.check(key_eq(S, x, y), "equal structure draws equal keys", lambda: f"{n}: {x} vs {y}")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("container", "h_container"); j("metadata names", "h_container", kinds=['none', 'int'], clss=['Param', 'Node'], metas=['named']); j("nested values", "h_nested"); j("static container", "h_static")
  j("pairs of containers", "h_pair_container")
  j("state", "h_state", nent=3); j("pairs of states", "h_state", nent=2, kinds=['int'])
  j("split module", "h_pure", nmod=2, slots=[2, 1])
  j("split module leaves", "h_pure", nmod=1, slots=2, leafopts=['raw', 'nodem', 'custom', 'static'], kinds=['jarr', 'int', 'str', 'obj', 'nparr0z'])
  j("split module aliases", "h_pure", nmod=2, slots=[2, 1], leafopts=['raw', 'params', 'alias'], kinds=['jarr', 'int'])
  j("pairs of split modules", "h_pair_pure", nmod=2, slots=[2, 1], leafopts=['raw', 'params'])
  j("pairs of leaves", "h_pair_pure", nmod=1, slots=2, leafopts=['raw', 'nodem', 'statich'])
  j("split context", "h_context")
  j("copies of containers", "h_container", kinds=['int', 'jarr'], clss=['Param', 'Node', 'SubParam'], metas=['plain', 'meta', 'sharding'], copies=True)
  j("copies of split modules", "h_pure", nmod=2, slots=[2, 1], leafopts=['params'], kinds=['jarr'], copies=True)
  j("copies of split module leaves", "h_pure", nmod=1, slots=2, leafopts=['raw', 'static'], kinds=['int'], copies=True)
  j("keys of split contexts", "h_context_keys")
  for shape in ('deep', 'wide'): j(f"split module {shape}", "h_pure", nmod=shape, names=0, leafopts=['params', 'raw'], kinds=['jarr', 'int'], splits=[False, True] if shape == 'deep' else [False])
  if T:
    j("state 4", "h_state", nent=4)
    j("split module 2x2", "h_pure", nmod=2, slots=2, names=2)
    j("pairs of split modules 3", "h_pair_pure", nmod=3, slots=[2, 1, 1], leafopts=['params'], kinds=['jarr'])
    j("pairs of split modules 2x2", "h_pair_pure", nmod=2, slots=2, leafopts=['raw', 'params', 'statich'])
  return J
