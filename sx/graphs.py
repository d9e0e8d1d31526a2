"""Bounded module graphs chosen by the solver, with an independent description (Spec)
of what was built, and oracles that compare real modules with that description."""
import copy
from sx.engine import AND, OR, NOT, SymBool
from sx.proxies import SymVal, same, ARRAYS, ALLVALS, STATICS, KINDTAB
from sx import proxies

NODEKINDS = ARRAYS + ['state']
_cls = {}

def classes(nnx):
  """plain module classes of one nnx copy"""
  key = id(nnx)
  if key not in _cls:
    class ModA(nnx.Module):
      pass
    class ModB(nnx.Module):
      pass
    class ModSub(ModA):
      pass
    class Custom(nnx.Variable):
      pass
    # distinct classes that cannot be told apart by name
    Twin = type(nnx.Module)('ModA', (nnx.Module,), {'__qualname__': ModA.__qualname__, '__module__': ModA.__module__})
    _cls[key] = dict(A=ModA, B=ModB, Sub=ModSub, Twin=Twin, Custom=Custom, Param=nnx.Param, BatchStat=nnx.BatchStat,
                     Variable=nnx.Variable, Node=nnx.Node, Intermediate=nnx.Intermediate, Static=nnx.Static,
                     internals=frozenset(vars(ModA())))
  return _cls[key]

def internals(nnx): return classes(nnx)['internals']

def isnode(S, x):
  """is a raw value (not a container) a node? forks the path in symbolic runs"""
  if type(x) is SymVal: return x.fork_kind(NODEKINDS, "isnode")
  import jax, numpy as np
  return isinstance(x, (jax.Array, np.ndarray, S.nnx.State, S.nnx.Pure, S.nnx.Node, S.nnx.Pytree))

CONTS = {
  'param': ('Param', lambda S, l: {}),
  'params': ('Param', lambda S, l: {'sharding': ('x', None)}),
  'bs': ('BatchStat', lambda S, l: {}),
  'node': ('Node', lambda S, l: {}),
  'nodem': ('Node', lambda S, l: {'tag': S.leaf(l + ".tag", HM)}),
  'custom': ('Custom', lambda S, l: {'sharding': None, 'extra': S.leaf(l + ".extra", HM)}),
  'static': ('Static', lambda S, l: {}),
}
HM = ['none', 'false', 'int0', 'int', 'str', 'str0', 'tup0', 'tup']

class Slot:
  __slots__ = ("kind", "cls", "meta", "value", "idx", "kinds")
  def __init__(self, kind, cls=None, meta=None, value=None, idx=None, kinds=None):
    self.kind, self.cls, self.meta, self.value, self.idx, self.kinds = kind, cls, meta, value, idx, kinds
  def __repr__(self):
    return f"mod{self.idx}" if self.kind == 'mod' else f"{self.kind}:{self.cls}{self.meta or ''}={self.value!r}"
  def isnode(self, S):
    if self.kind == 'cont': return self.cls != 'Static'
    if self.kind == 'raw': return isnode(S, self.value)
    return False

class Mod:
  def __init__(self, cls): self.cls, self.attrs = cls, {}

class Spec:
  def __init__(self): self.mods = []
  def __repr__(self):
    return "; ".join(f"m{i}:{m.cls}({', '.join(f'{n}={s!r}' for n, s in m.attrs.items())})" for i, m in enumerate(self.mods))
  def copy(self):
    s = Spec()
    for m in self.mods:
      k = Mod(m.cls); k.attrs = dict(m.attrs); s.mods.append(k)
    return s
  def reachable(self, root=0):
    seen, order = {root}, [root]
    for i in order:
      for s in self.mods[i].attrs.values():
        if s.kind == 'mod' and s.idx not in seen: seen.add(s.idx); order.append(s.idx)
    return order

def container(S, nnx, slot):
  """a fresh nnx container for a slot"""
  c = classes(nnx)[slot.cls]
  return c(slot.value, **{k: v for k, v in slot.meta.items() if not (k == 'sharding' and v is None)})

def choose_spec(S, nmod, slots, names, leafopts, kinds, clsopts=('A',), minimal=True, lab="g"):
  """symbolic choice of a module graph: every slot is absent, a reference to an existing
  module (self, ancestors, siblings: sharing and cycles), a new module or a leaf"""
  if nmod in LARGE: return LARGE[nmod](S, names, list(leafopts), list(kinds), clsopts, lab)
  spec = Spec()
  spec.mods.append(Mod(S.choose(0, f"{lab}.m0.cls", values=clsopts)))
  i = 0
  nleaf = 0
  while i < len(spec.mods):
    m = spec.mods[i]
    nm = names[i % len(names)] if isinstance(names[0], (tuple, list)) else names
    for j in range(slots if isinstance(slots, int) else slots[i]):
      opts = ['absent'] + [f'ref{k}' for k in range(len(spec.mods))]
      if len(spec.mods) < nmod: opts.append('new')
      prev = [s for k in spec.mods for s in k.attrs.values() if s.kind != 'mod']
      opts += [o for o in leafopts if o != 'alias' or prev]
      o = S.choose(0, f"{lab}.m{i}.{nm[j]}", values=opts)
      if o == 'absent': continue
      if o.startswith('ref'): m.attrs[nm[j]] = Slot('mod', idx=int(o[3:])); continue
      if o == 'new':
        m.attrs[nm[j]] = Slot('mod', idx=len(spec.mods))
        spec.mods.append(Mod(S.choose(0, f"{lab}.m{len(spec.mods)}.cls", values=clsopts)))
        continue
      if o == 'alias':
        # another attribute holding the very same value object
        m.attrs[nm[j]] = copy.copy(S.choose(0, f"{lab}.m{i}.{nm[j]}.of", values=prev))
        continue
      l = f"{lab}.leaf{nleaf}"; nleaf += 1
      m.attrs[nm[j]] = leaf_slot(S, o, l, kinds)
    i += 1
  return spec

DEPTH, WIDTH = 7, 12
def deep_spec(S, names, leafopts, kinds, clsopts, lab):
  """a chain of DEPTH modules, a leaf at its end and one at any depth, and any reference back"""
  spec = Spec()
  nm = [names[i % len(names)] if isinstance(names[0], (tuple, list)) else names for i in range(DEPTH)]
  for i in range(DEPTH):
    spec.mods.append(Mod(clsopts[i % len(clsopts)]))
    if i: spec.mods[i - 1].attrs[nm[i - 1][0]] = Slot('mod', idx=i)
  last = spec.mods[-1]
  last.attrs[nm[-1][1]] = leaf_slot(S, S.choose(0, f"{lab}.end", values=leafopts), f"{lab}.leaf0", kinds)
  k = S.choose(0, f"{lab}.depth", values=list(range(DEPTH)))
  spec.mods[k].attrs['leaf'] = leaf_slot(S, S.choose(0, f"{lab}.mid", values=leafopts), f"{lab}.leaf1", kinds)
  back = S.choose(0, f"{lab}.back", values=[None, 0, DEPTH // 2, DEPTH - 1])
  if back is not None: last.attrs['Back'] = Slot('mod', idx=back)
  return spec

def wide_spec(S, names, leafopts, kinds, clsopts, lab):
  """WIDTH attributes named by numbers, one of which is a module, and one leaf of any kind"""
  spec = Spec()
  m = Mod(clsopts[0]); spec.mods.append(m)
  at = S.choose(0, f"{lab}.at", values=[1, 9, 10, WIDTH - 1])
  sub = S.choose(0, f"{lab}.sub", values=['new', 'self', 'shared'])
  for i in range(WIDTH):
    if i == at:
      m.attrs[str(i)] = Slot('mod', idx=0 if sub == 'self' else 1)
      if sub != 'self':
        spec.mods.append(Mod(clsopts[-1]))
        spec.mods[1].attrs['leaf'] = leaf_slot(S, S.choose(0, f"{lab}.mid", values=leafopts), f"{lab}.sub", kinds)
    elif sub == 'shared' and i == WIDTH - 2: m.attrs[str(i)] = Slot('mod', idx=1)
    elif i == 2: m.attrs[str(i)] = leaf_slot(S, S.choose(0, f"{lab}.end", values=leafopts), f"{lab}.leaf0", kinds)
    else: m.attrs[str(i)] = leaf_slot(S, leafopts[i % len(leafopts)], f"{lab}.leaf{i}", [kinds[i % len(kinds)]])
  return spec
LARGE = dict(deep=deep_spec, wide=wide_spec)

def leaf_slot(S, o, l, kinds):
  if o == 'raw': return Slot('raw', value=S.leaf(l, kinds), kinds=kinds)
  if o == 'statich': o, kinds = 'static', HM
  cls, mf = CONTS[o]
  meta = mf(S, l)
  if cls in ('Param', 'BatchStat', 'Custom') and 'sharding' not in meta: meta = {'sharding': None, **meta}
  return Slot('cont', cls=cls, meta=meta, value=S.leaf(l, kinds), kinds=kinds)

def build(S, nnx, spec, order=None):
  """the real module graph for a spec, built with ordinary attribute assignment"""
  C = classes(nnx)
  objs = [C[m.cls]() for m in spec.mods]
  for i, m in enumerate(spec.mods):
    items = list(m.attrs.items())
    if order: items = order(items)
    for name, s in items:
      if s.kind == 'mod': setattr(objs[i], name, objs[s.idx])
      elif s.kind == 'raw': setattr(objs[i], name, s.value)
      else: setattr(objs[i], name, container(S, nnx, s))
  return objs

def raw_attrs(nnx, m):
  return {k: v for k, v in vars(m).items() if k not in internals(nnx)}

def slot_matches(S, nnx, slot, stored, value=None):
  """stored (raw vars entry) is what the slot says: class, metadata and value"""
  if slot.kind == 'mod': return False
  if slot.kind == 'raw': return AND(not isinstance(stored, nnx.Module) if type(stored) is not SymVal else True,
                                    same(stored, slot.value))
  c = classes(nnx)[slot.cls]
  if type(stored) is not c: return False
  d = dict(vars(stored))
  v = d.pop('value', proxies)
  return AND(same(v, slot.value), same(d, dict(slot.meta)))

def match_graph(S, nnx, spec, root, ridx=0):
  """(condition, mapping idx->object, text): the graph at root is exactly the spec"""
  seen, conds = {ridx: root}, []
  back = {id(root): ridx}
  todo = [ridx]
  while todo:
    i = todo.pop()
    m, obj = spec.mods[i], seen[i]
    if type(obj) is not classes(nnx)[m.cls]: return False, seen, f"class of module {i} is {type(obj).__name__}"
    at = raw_attrs(nnx, obj)
    if set(at) != set(m.attrs):
      return False, seen, f"attributes of module {i} are {sorted(at)}, expected {sorted(m.attrs)}"
    for n, s in m.attrs.items():
      v = at[n]
      if s.kind == 'mod':
        if not isinstance(v, nnx.Module): return False, seen, f"module {i} attribute {n} is not a module"
        if s.idx in seen:
          if seen[s.idx] is not v: return False, seen, f"module {i}.{n}: sharing lost"
        else:
          if id(v) in back: return False, seen, f"module {i}.{n}: modules wrongly identified"
          seen[s.idx] = v; back[id(v)] = s.idx; todo.append(s.idx)
      else:
        c = slot_matches(S, nnx, s, v)
        if c is False: return False, seen, f"module {i} attribute {n} is {v!r}, expected {s!r}"
        conds.append(c)
  return AND(*conds), seen, "values"

def path_slot(spec, path, root=0):
  """(module idx, name) a slash path leads to, or None"""
  parts = path.split("/")
  i = root
  for p in parts[:-1]:
    s = spec.mods[i].attrs.get(p)
    if s is None or s.kind != 'mod': return None
    i = s.idx
  return (i, parts[-1]) if parts[-1] in spec.mods[i].attrs else None

def expected_nodes(S, spec, root=0):
  """set of (module idx, name) of node slots reachable from root"""
  return [(i, n) for i in spec.reachable(root) for n, s in spec.mods[i].attrs.items()
          if s.kind != 'mod' and s.isnode(S)]

def expected_paths(S, spec, root=0):
  """path -> (idx, name): first visit in name order, depth first"""
  out, seen = {}, set()
  def rec(i, pre):
    if i in seen: return
    seen.add(i)
    for n in sorted(spec.mods[i].attrs):
      s = spec.mods[i].attrs[n]
      if s.kind == 'mod': rec(s.idx, pre + (n,))
      elif s.isnode(S): out["/".join(pre + (n,))] = (i, n)
  rec(root, ())
  return out

def graphs_same(S, nnx, a, b):
  """(condition, text): two real module graphs have the same shape, classes and contents"""
  pair, back, conds = {id(a): b}, {id(b): a}, []
  todo = [(a, b, "root")]
  while todo:
    x, y, where = todo.pop()
    if type(x) is not type(y): return False, f"class at {where}: {type(x).__name__} vs {type(y).__name__}"
    ax, ay = raw_attrs(nnx, x), raw_attrs(nnx, y)
    if set(ax) != set(ay): return False, f"attributes at {where}: {sorted(ax)} vs {sorted(ay)}"
    for n in ax:
      u, v = ax[n], ay[n]
      um, vm = (type(z) is not SymVal and isinstance(z, nnx.Module) for z in (u, v))
      if um != vm: return False, f"{where}.{n}: module vs value"
      if um:
        if id(u) in pair or id(v) in back:
          if pair.get(id(u)) is not v or back.get(id(v)) is not u: return False, f"sharing at {where}.{n}"
        else:
          pair[id(u)], back[id(v)] = v, u
          todo.append((u, v, f"{where}.{n}"))
      else:
        c = same(u, v)
        if c is False: return False, f"{where}.{n}: {u!r} vs {v!r}"
        conds.append(c)
  return AND(*conds), "values"

def graph_modules(nnx, root):
  """all modules reachable through attributes, by object"""
  out, todo = [], [root]
  while todo:
    m = todo.pop()
    if any(m is o for o in out): continue
    out.append(m)
    for v in raw_attrs(nnx, m).values():
      if type(v) is not SymVal and isinstance(v, nnx.Module): todo.append(v)
  return out

def freeze(nnx, root):
  """snapshot of a module graph by object: to be compared with `frozen_same`"""
  return [(m, {n: (v, dict(vars(v)) if type(v) is not SymVal and hasattr(type(v), 'is_equivalent') else None)
               for n, v in raw_attrs(nnx, m).items()}) for m in graph_modules(nnx, root)]

def frozen_same(S, nnx, root, snap):
  """the graph is exactly as when it was frozen: same objects, same stored values"""
  ms = graph_modules(nnx, root)
  if len(ms) != len(snap) or not all(a is b for a, (b, _) in zip(ms, snap)): return False, "modules"
  conds = []
  for m, at in snap:
    now = raw_attrs(nnx, m)
    if list(now) != list(at): return False, f"attributes {list(now)} vs {list(at)}"
    for n, (v, d) in at.items():
      c = same(now[n], v)
      if c is not False and d is not None: c = AND(c, same(dict(vars(now[n])), d))
      if c is False: return False, f"attribute {n}: {now[n]!r} vs {v!r}"
      conds.append(c)
  return AND(*conds), "values"

# ------------------------------------------------------------- pairs of graphs

def py_eq(a, b):
  """python == of two (possibly symbolic, array-free) values, non-forking"""
  if type(a) is SymVal or type(b) is SymVal: return proxies.val_eq(a, b, py=True)
  return bool(a == b)

def spec_def_equal(S, a, b):
  """the two specs have the same definition: classes, submodule names, sharing, equal static attributes.
  Forks on whether raw values are nodes."""
  ab, ba, conds, todo, done = {0: 0}, {0: 0}, [], [(0, 0)], set()
  while todo:
    i, j = todo.pop()
    if (i, j) in done: continue
    done.add((i, j))
    x, y = a.mods[i], b.mods[j]
    if x.cls != y.cls: return False
    mx = {n: s.idx for n, s in x.attrs.items() if s.kind == 'mod'}
    my = {n: s.idx for n, s in y.attrs.items() if s.kind == 'mod'}
    if set(mx) != set(my): return False
    for n in mx:
      p, q = mx[n], my[n]
      if ab.setdefault(p, q) != q or ba.setdefault(q, p) != p: return False
      todo.append((p, q))
    sx = {n: s for n, s in x.attrs.items() if s.kind != 'mod' and not s.isnode(S)}
    sy = {n: s for n, s in y.attrs.items() if s.kind != 'mod' and not s.isnode(S)}
    if set(sx) != set(sy): return False
    for n in sx:
      u, v = sx[n], sy[n]
      if u.kind != v.kind: return False
      conds.append(py_eq(u.value, v.value))
  return AND(*conds)

def spec_nodes_alike(S, a, b):
  """same node paths, container classes and metadata (values free)"""
  pa, pb = expected_paths(S, a), expected_paths(S, b)
  if set(pa) != set(pb): return False
  conds = []
  for p in pa:
    u, v = a.mods[pa[p][0]].attrs[pa[p][1]], b.mods[pb[p][0]].attrs[pb[p][1]]
    if u.kind != v.kind or u.cls != v.cls: return False
    if u.kind == 'cont':
      if set(u.meta) != set(v.meta): return False
      conds += [py_eq(u.meta[k], v.meta[k]) for k in u.meta]
  return AND(*conds)

def mutate(S, spec, kinds, contopts=('param', 'bs', 'params'), clss=('A', 'B', 'Sub', 'Twin'), lab="mut"):
  """a second spec, equal to the first or differing in one chosen place; values are always fresh symbols"""
  b = spec.copy()
  c = 0
  places = [(i, n) for i, m in enumerate(b.mods) for n, s in m.attrs.items()]
  # leaf values of the second graph are independent of the first
  for i, n in places:
    s = b.mods[i].attrs[n]
    if s.kind != 'mod':
      b.mods[i].attrs[n] = Slot(s.kind, s.cls, s.meta, S.leaf(f"{lab}.val{c}", list(s.kinds or kinds)), kinds=s.kinds); c += 1
  k = S.choose(0, f"{lab}.kind", values=['none', 'class', 'rename', 'add', 'drop', 'redirect', 'meta', 'container'])
  txt = k
  if k == 'class':
    i = S.choose(0, f"{lab}.mod", values=list(range(len(b.mods))))
    b.mods[i].cls = S.choose(0, f"{lab}.cls", values=[x for x in clss if x != b.mods[i].cls])
  elif k == 'add':
    i = S.choose(0, f"{lab}.mod", values=list(range(len(b.mods))))
    b.mods[i].attrs['zz'] = Slot('raw', value=S.leaf(f"{lab}.added", kinds))
  elif k != 'none':
    def ok(i, n):
      s = b.mods[i].attrs[n]
      if k == 'redirect': return s.kind == 'mod' and len(b.mods) > 1
      if k == 'meta': return s.kind == 'cont' and s.meta
      if k == 'container': return s.kind == 'cont'
      return True
    pl = [p for p in places if ok(*p)]
    if not pl: return b, 'none'
    i, n = S.choose(0, f"{lab}.place", values=pl)
    s = b.mods[i].attrs[n]
    if k == 'rename': b.mods[i].attrs[n + 'q'] = b.mods[i].attrs.pop(n)
    elif k == 'drop': del b.mods[i].attrs[n]
    elif k == 'redirect':
      b.mods[i].attrs[n] = Slot('mod', idx=S.choose(0, f"{lab}.to", values=[x for x in range(len(b.mods)) if x != s.idx]))
    elif k == 'meta':
      meta = {x: (S.leaf(f"{lab}.{x}", HM) if x != 'sharding' else ('other',)) for x in s.meta}
      b.mods[i].attrs[n] = Slot(s.kind, s.cls, meta, s.value)
    elif k == 'container':
      o = S.choose(0, f"{lab}.cont", values=list(contopts))
      new = leaf_slot(S, o, f"{lab}.contv", kinds)
      b.mods[i].attrs[n] = Slot('cont', new.cls, new.meta, s.value)
  return b, txt


def pickled(*objs):
  """the objects written to one pickle and read back; classes, functions and symbolic values stand for themselves"""
  import io, pickle, types
  table = []
  class Out(pickle.Pickler):
    def persistent_id(self, o):
      if isinstance(o, (type, types.FunctionType)) or type(o).__module__ in ('sx.proxies', 'sx.engine'):
        table.append(o); return len(table) - 1
      return None
  class In(pickle.Unpickler):
    def persistent_load(self, i): return table[i]
  buf = io.BytesIO(); Out(buf).dump(objs); buf.seek(0)
  r = In(buf).load()
  return r if len(objs) > 1 else r[0]


def less(kw, **defaults):
  """the options without those that have their documented default, so that the default is what is used"""
  return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k])}
