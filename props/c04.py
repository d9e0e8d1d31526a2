"""C04 update_state"""
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, ALLVALS, ARRAYS, SymVal
from sx import graphs as g
from props.c01 import NAMES, SMALL

BOUNDS = dict(
  quick="modules <= 3, attributes <= 2, chains of 7 modules and modules with 12 attributes (updates of 2 paths), <= 2 update states naming any subset of the nodes (<= 3), an alias path, and one new node on any module; sequences of 3 updates of one shared node by either of its paths, each with a new value, the value it has or an equal variable; arbitrary values; split modules with 1 or 2 states",
  thorough="modules <= 3, attributes <= 3, 3 update states")
OUTSIDE = "updates with incompatible containers (C10)"
ASSUMPTIONS = ["update paths lead to modules of the graph"]
WITNESSES = ["module updated exactly", "submodule identity kept", "Pure updated", "Pure inputs untouched", "State.merge later wins", "State difference"]

def all_paths(spec, limit=4):
  """slash paths of every route of length <= limit to every attribute"""
  out = []
  def rec(i, pre):
    if len(pre) >= limit: return
    for n, s in spec.mods[i].attrs.items():
      if s.kind == 'mod': rec(s.idx, pre + (n,))
      else: out.append(("/".join(pre + (n,)), i, n))
  rec(0, ())
  return out

def all_slots(spec, limit):
  """the path by which each attribute is first reached, submodules included"""
  out = []; seen = set()
  def rec(i, pre):
    if i in seen or len(pre) >= limit: return
    seen.add(i)
    for n, s in sorted(spec.mods[i].attrs.items()):
      out.append(("/".join(pre + (n,)), i, n))
      if s.kind == 'mod': rec(s.idx, pre + (n,))
  rec(0, ())
  return out

def new_slot(S, old, val, wrap):
  """slot after assigning val (plain or wrapped like the old one)"""
  if old is None: return g.Slot('raw', value=val)
  if old.kind == 'cont': return g.Slot('cont', old.cls, old.meta, val)
  return g.Slot('raw', value=val)

def choose_updates(S, nnx, spec, nup, kinds, new=True, alias=True, few=False, over=False):
  """update states and the graph expected after them"""
  exp = spec.copy()
  paths = sorted(g.expected_paths(S, spec))
  ups = [dict() for _ in range(nup)]
  c = 0
  def put(path, k, i, n):
    nonlocal c
    val = S.leaf(f"new{c}", kinds); c += 1
    old = spec.mods[i].attrs.get(n)
    wrapped = old is not None and old.kind == 'cont' and S.flip(f"wrap{c}")
    slot = new_slot(S, old, val, wrapped)
    ups[k][path] = g.container(S, nnx, slot) if wrapped else val
    exp.mods[i].attrs[n] = slot
  if few:
    p = S.choose(0, "first path", values=paths)
    q = S.choose(0, "second path", values=[None, paths[0], paths[-1]])
    paths_ = sorted({p, q} - {None})
  else: paths_ = paths
  for path in paths_:
    i, n = g.path_slot(spec, path)
    if few:
      put(path, len(path) % nup, i, n)
      continue
    which = S.choose(0, f"upd {path}", values=[()] + [(k,) for k in range(nup)] + ([tuple(range(nup))] if nup > 1 else []))
    for k in which: put(path, k, i, n)
  if over:
    # an update that names an attribute holding a submodule or a static value: it is assigned like any other
    free = [(p, i, n) for p, i, n in all_slots(spec, 3) if p not in paths and not (spec.mods[i].attrs[n].kind == 'cont')]
    a = S.choose(0, "over", values=[None] + free)
    if a: put(a[0], nup - 1, a[1], a[2])
  if alias:
    al = [(p, i, n) for p, i, n in all_paths(spec, 3) if p not in paths and (i, n) in [g.path_slot(spec, q) for q in paths]]
    a = S.choose(0, "alias", values=[None] + al[:2])
    if a:
      # an alternative route to a node: the last update that names the node by any route wins
      k = S.choose(0, "alias in", values=list(range(nup))[::-1])
      canon = next(q for q in paths if g.path_slot(spec, q) == (a[1], a[2]))
      first = exp.mods[a[1]].attrs.get(a[2])
      S.assume(canon not in ups[k], "one update names a node once")
      put(a[0], k, a[1], a[2])
      if any(canon in u for u in ups[k + 1:]): exp.mods[a[1]].attrs[a[2]] = first
  if new:
    mods = {}
    def rec(i, pre):
      if i in mods: return
      mods[i] = pre
      for n, s in sorted(spec.mods[i].attrs.items()):
        if s.kind == 'mod': rec(s.idx, pre + (n,))
    rec(0, ())
    i = S.choose(0, "new on", values=[None] + sorted(mods))
    if i is not None:
      path = "/".join(mods[i] + ("fresh",))
      k = S.choose(nup, "new in")
      if S.flip("new var"):
        slot = g.Slot('cont', 'BatchStat', {'sharding': None}, S.leaf("newv", kinds))
        ups[k][path] = g.container(S, nnx, slot)
      else:
        slot = g.Slot('raw', value=S.leaf("newv", kinds)); ups[k][path] = slot.value
      exp.mods[i].attrs["fresh"] = slot
  return [nnx.State(u) for u in ups], exp

def check_after(S, nnx, exp, objs, root):
  c, om, why = g.match_graph(S, nnx, exp, root)
  S.check(c, "module updated exactly", lambda: f"{why}; expected {exp}")
  S.check(all(om[i] is objs[i] for i in om), "submodule identity kept", lambda: f"{exp}")

def snapshot(st): return {k: v for k, v in st.items()}

def h_module(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param'), kinds=SMALL, nup=1, new=True, few=False, over=False):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  root = objs[0]
  ups, exp = choose_updates(S, nnx, spec, nup, kinds, new, few=few, over=over, alias=not over)
  before = [snapshot(u) for u in ups]
  pure = lambda x: nnx.Pure((x, root.get_module_def()))
  form = S.choose(0, "form", values=['state', 'pure', 'tuple1'] if nup == 1 else ['tuple', 'pure'])
  upd = dict(state=ups[0], tuple1=(ups[0],), tuple=tuple(ups), pure=pure(ups[0] if nup == 1 else tuple(ups)))[form] if form != 'pure' else pure(ups[0] if nup == 1 else tuple(ups))
  r = root.update_state(upd)
  S.check(r is None, "update_state returns None")
  check_after(S, nnx, exp, objs, root)
  for u, b in zip(ups, before):
    S.check(AND(list(u) == list(b), *[same(u[k], b[k]) for k in b]), "updates untouched", lambda: f"{b}")

def h_again(S, nup=3):
  """updates that name one shared node by several paths, restoring what it has among others"""
  nnx = S.nnx
  C = g.classes(nnx)
  kind = S.choose(0, "node", values=['param', 'raw'])
  deep = S.flip("deep")
  old = S.leaf("old", ['jarr', 'nparr'])
  root, c = C['A'](), C['B']()
  c.w = nnx.Param(old) if kind == 'param' else old
  if deep: root.m = C['A'](); root.m.c = c
  else: root.a = c
  root.z = c
  if S.flip("cycle"): c.me = c
  paths = ['m/c/w' if deep else 'a/w', 'z/w']
  have = vars(c)['w']
  st = root.get_state()
  ups, want = [], old
  for i in range(nup):
    which = S.choose(0, f"update {i}", values=['none', 'first new', 'second new', 'first old', 'second old', 'state', 'equal'])
    if which == 'none': ups.append(nnx.State({})); continue
    if which == 'state': ups.append(st); want = old; continue
    if 'new' in which: v = want = S.leaf(f"new{i}", ['jarr'])
    elif which == 'equal': v = nnx.Param(old) if kind == 'param' else old; want = old
    else: v = have; want = old
    ups.append(nnx.State({paths['second' in which]: v}))
  how = S.choose(0, "how", values=['at once', 'one by one'])
  if how == 'at once': root.update_state(tuple(ups))
  else:
    for u in ups: root.update_state(u)
  S.check(AND(same(c.w, want), vars(root)['z'] is c), "module updated exactly", lambda: f"{c.w} expected {want}; {[dict(u) for u in ups]}")
  S.check(type(vars(c)['w']) is nnx.Param if kind == 'param' else True, "module updated exactly", "variable type")

def h_from_module(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param'), kinds=SMALL):
  """update from another module with the same layout and other values"""
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  other = spec.copy()
  c = 0
  for m in other.mods:
    for n, s in list(m.attrs.items()):
      if s.kind == 'mod': continue
      drop = S.choose(0, f"o{c}", values=['keep', 'drop'])
      if drop == 'drop': del m.attrs[n]
      else: m.attrs[n] = g.Slot(s.kind, s.cls, s.meta, S.leaf(f"other{c}", kinds))
      c += 1
  objs = g.build(S, nnx, spec)
  src = g.build(S, nnx, other)
  exp = spec.copy()
  reach = spec.reachable()
  for i in reach:
    for n, s in other.mods[i].attrs.items():
      if s.kind != 'mod' and s.isnode(S): exp.mods[i].attrs[n] = s
  objs[0].update_state(src[0])
  check_after(S, nnx, exp, objs, objs[0])
  c, _, why = g.match_graph(S, nnx, other, src[0])
  S.check(c, "source module untouched", lambda: f"{why}")
  objs2 = g.build(S, nnx, spec)
  objs2[0].update_state(src[0].partition())
  check_after(S, nnx, exp, objs2, objs2[0])

def h_pure(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param'), kinds=SMALL, nup=1, few=False, splits=(False, True)):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  split = S.choose(0, "split", values=list(splits))
  pure = objs[0].partition(S.pred("P"), ...) if split else objs[0].partition()
  states0 = pure.states if split else (pure.states,)
  before = [snapshot(s) for s in states0]
  ups, exp = choose_updates(S, nnx, spec, nup, kinds, new=True, alias=False, few=few)
  ub = [snapshot(u) for u in ups]
  form = S.choose(0, "form", values=['state', 'pure'] if nup == 1 else ['tuple', 'pure'])
  if form == 'state': upd = ups[0]
  elif form == 'tuple': upd = tuple(ups)
  else: upd = nnx.Pure((ups[0] if nup == 1 else tuple(ups), pure.moduledef))
  new = pure.update_state(upd)
  S.check(isinstance(new, nnx.Pure), "Pure updated", "not a Pure")
  S.check(isinstance(new.states, nnx.State), "Pure updated", "states not a State")
  # contents: every old key, updates winning
  expd = {}
  for d in before: expd.update(d)
  for d in ub: expd.update(d)
  S.check(list(new.states) == sorted(expd), "Pure updated", lambda: f"keys {list(new.states)} expected {sorted(expd)}")
  S.check(AND(*[same(new.states[k], expd[k]) for k in expd]), "Pure updated", lambda: f"{new.states!r} expected {expd}")
  S.check(new.moduledef == pure.moduledef, "Pure keeps the definition")
  now = pure.states if split else (pure.states,)
  S.check(len(now) == len(before) and all(a is b for a, b in zip(now, states0)), "Pure inputs untouched")
  for s, b in zip(tuple(now) + tuple(ups), before + ub):
    S.check(AND(list(s) == list(b), *[same(s[k], b[k]) for k in b]), "Pure inputs untouched", lambda: f"{b}")
  c, _, why = g.match_graph(S, nnx, spec, objs[0])
  S.check(c, "module untouched by Pure.update_state", lambda: why)

def h_pure_module(S, kinds=SMALL):
  """Pure updated from a module"""
  nnx = S.nnx
  C = g.classes(nnx)
  m = C['A'](); m.x = nnx.Param(S.leaf("a", kinds)); m.s = C['B'](); m.s.y = nnx.BatchStat(S.leaf("b", kinds)); m.st = S.leaf("st", ['int', 'none'])
  o = C['A'](); o.x = nnx.Param(S.leaf("a2", kinds))
  if S.flip("sub"): o.s = C['B'](); o.s.y = nnx.BatchStat(S.leaf("b2", kinds))
  new = m.partition().update_state(o)
  want = dict(m.get_state()); want.update(dict(o.get_state()))
  S.check(AND(list(new.states) == sorted(want), *[same(new.states[k], want[k]) for k in want]), "Pure updated", lambda: f"{new.states!r}")

def h_state_ops(S, n=3, kinds=('none', 'int0', 'int', 'tup0', 'jarr')):
  """State.merge, | and - as mappings"""
  nnx = S.nnx
  keys = ['b', 'a/x', 'a', 'B/0'][:n]
  ds = []
  for i in range(3):
    d = {}
    for k in keys:
      if S.flip(f"s{i}{k}"): d[k] = S.leaf(f"v{i}{k}", kinds)
    ds.append(d)
  st = [nnx.State(d) for d in ds]
  def eq(s, d): return AND(isinstance(s, nnx.State), list(s) == sorted(d), len(s) == len(d), *[same(s[k], d[k]) for k in d])
  w2 = {**ds[0], **ds[1]}; w3 = {**w2, **ds[2]}
  S.check(eq(nnx.State.merge(*st), w3), "State.merge later wins", lambda: f"{ds}")
  S.check(eq(nnx.State.merge(st[0]), ds[0]), "State.merge of one")
  S.check(eq(st[0] | st[1], w2), "State.merge later wins", lambda: f"| {ds}")
  S.check(eq(st[0] - st[1], {k: v for k, v in ds[0].items() if k not in ds[1]}), "State difference", lambda: f"{ds}")
  for s, d in zip(st, ds): S.check(eq(s, d), "State operations leave their inputs", lambda: f"{ds}")
  S.check(all((k in s) == (k in d) for s, d in zip(st, ds) for k in keys), "State membership")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  K2 = ['none', 'jarr']
  j(f"module one update names2", "h_module", nmod=2, slots=2, names=2, leafopts=['params'], kinds=['jarr', 'none'], nup=1)
  j("module one update names3", "h_module", nmod=2, slots=2, names=3, leafopts=['params', 'raw'], kinds=['jarr'], nup=1, new=False)
  j("module one update raw", "h_module", nmod=2, slots=[2, 1], names=0, leafopts=['raw', 'params'], kinds=K2, nup=1)
  j("module sharing 3x2", "h_module", nmod=3, slots=[2, 1, 2], names=0, leafopts=['param'], kinds=['jarr'], nup=1, new=False)
  j("module two updates", "h_module", nmod=2, slots=2, names=1, leafopts=['param'], kinds=['jarr', 'tup0'], nup=2, new=False)
  j("module aliased values", "h_module", nmod=2, slots=[2, 1], names=0, leafopts=['raw', 'params', 'alias'], kinds=['jarr'], nup=1)
  j("module over submodules and static values", "h_module", nmod=2, slots=[2, 1], names=0, leafopts=['raw', 'param'], kinds=['jarr', 'int'], nup=1, new=False, over=True)
  j("module containers", "h_module", nmod=1, slots=2, names=0, leafopts=['raw', 'nodem', 'bs', 'static', 'custom'], kinds=SMALL, nup=1)
  j("module containers two updates", "h_module", nmod=1, slots=2, names=0, leafopts=['raw', 'nodem', 'bs'], kinds=K2, nup=2)
  for shape in ('deep', 'wide'):
    j(f"module {shape}", "h_module", nmod=shape, names=0, leafopts=['param', 'raw'] if T else ['param'], kinds=['jarr'], nup=1, new=True, few=True)
    j(f"module {shape} two updates", "h_module", nmod=shape, names=0, leafopts=['param'], kinds=['jarr'], nup=2, new=False, few=True)
    j(f"pure {shape}", "h_pure", nmod=shape, names=0, leafopts=['param'], kinds=['jarr'], nup=1, few=True, splits=[False, True] if shape == 'deep' else [False])
  j("one shared node again and again", "h_again")
  j("from module", "h_from_module", nmod=2, slots=2, names=0, leafopts=['raw', 'param'], kinds=K2)
  j("pure one update", "h_pure", nmod=2, slots=[2, 1], names=0, leafopts=['raw', 'param'], kinds=K2, nup=1)
  j("pure two updates", "h_pure", nmod=1, slots=2, names=2, leafopts=['raw', 'param'], kinds=SMALL, nup=2)
  j("pure from module", "h_pure_module")
  j("state operations", "h_state_ops", n=3)
  if T:
    for nm in (0, 2): j(f"module one update mixed names{nm}", "h_module", nmod=2, slots=2, names=nm, leafopts=['raw', 'params'], kinds=K2, nup=1)
    j("module sharing 3x2 full", "h_module", nmod=3, slots=2, names=0, leafopts=['param'], kinds=['jarr'], nup=1, new=False)
    j("pure one update 2x2", "h_pure", nmod=2, slots=2, names=0, leafopts=['raw', 'param'], kinds=K2, nup=1)
    j("module one update 3x2", "h_module", nmod=3, slots=2, names=2, leafopts=['param'], kinds=['jarr'], nup=1)
    j("module two updates mixed", "h_module", nmod=2, slots=2, names=1, leafopts=['raw', 'param'], kinds=K2, nup=2)
    j("module three updates", "h_module", nmod=1, slots=2, names=1, leafopts=['raw', 'param'], kinds=K2, nup=3)
    j("from module 3x2", "h_from_module", nmod=3, slots=2, names=1, leafopts=['param'], kinds=['jarr'])
    j("pure two updates 2x2", "h_pure", nmod=2, slots=2, names=2, leafopts=['param'], kinds=K2, nup=2)
    j("state operations 4", "h_state_ops", n=4)
  return J
