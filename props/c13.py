"""C13 nnx.Pytree: lossless flattening, fixed fields, immutability, replace"""
import jax
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal, ALLVALS, TREELEAVES
from sx import graphs as g
from props.c10 import Desc, choose_desc, matches as cmatches, compatible, classes as cclasses
from props.c11 import Mapped

BOUNDS = dict(
  quick="objects of 12 fields with any one reassigned or replaced; objects of <= 3 fields, each absent, a raw value of any kind, a variable / Node / TreeNode with arbitrary metadata, Static, or a nested Pytree; every assignment order; immutable and mutable classes, subclasses of both, plain classes and dataclasses with every field role; one assignment or replace of <= 2 fields, then a second one",
  thorough="4 fields, all kinds in every position")
OUTSIDE = "dataclass fields with init=False in replace; writes through vars(); fields whose names start with _pytree__"
ASSUMPTIONS = ["metadata and static values are compared with =="]
WITNESSES = ["flatten / unflatten is the identity", "leaves are exactly the node values", "order of assignment never matters", "no new field", "immutable field", "failed assignment changes nothing", "mutable field", "replace sets exactly the named fields", "replace keeps the original", "unknown replace rejected", "mapping changes only values", "dataclass replace"]

TL = TREELEAVES + ['none']

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class Tree(nnx.Pytree):
      def __init__(self, items):
        for n, v in items: setattr(self, n, v)
    class MTree(nnx.Pytree, mutable=True):
      def __init__(self, items):
        for n, v in items: setattr(self, n, v)
    class Sub(Tree):
      pass
    class MSub(Tree, mutable=True):
      pass
    class ISub(MTree):
      pass
    class Inner(nnx.Pytree):
      def __init__(self, v, w):
        self.w = w
        self.v = nnx.Node(v)
    _C[id(nnx)] = dict(Tree=Tree, MTree=MTree, Sub=Sub, MSub=MSub, ISub=ISub, Inner=Inner)
  return _C[id(nnx)]

MUT = dict(Tree=False, MTree=True, Sub=False, MSub=True, ISub=False)

class F:
  """expected field: raw value, container description, or nested tree"""
  def __init__(self, kind, v, extra=None): self.kind, self.v, self.extra = kind, v, extra
  def __repr__(self): return f"{self.kind}:{self.v!r}{'' if self.extra is None else self.extra!r}"

def choose_field(S, lab, kinds, opts):
  o = S.choose(0, lab, values=list(opts))
  if o == 'absent': return None
  if o == 'raw': return F('raw', S.leaf(lab + ".v", kinds))
  if o == 'tree': return F('tree', S.leaf(lab + ".tv", kinds), S.leaf(lab + ".tw", g.HM))
  if o == 'treenode': return F('treenode', S.leaf(lab + ".v", kinds))
  return F('cont', choose_desc(S, lab, kinds, (o,), metas=('plain', 'meta')))

def real(nnx, f):
  if f.kind == 'raw': return f.v
  if f.kind == 'tree': return classes(nnx)['Inner'](f.v, f.extra)
  if f.kind == 'treenode': return nnx.TreeNode(f.v)
  return cclasses(nnx)[f.v.cls](f.v.value, **f.v.meta)

def fmatch(S, nnx, stored, f):
  """the stored field is what f says"""
  if f.kind == 'raw': return same(stored, f.v)
  if type(stored) is SymVal: return False
  if f.kind == 'tree':
    if type(stored) is not classes(nnx)['Inner']: return False
    d = vars(stored)
    if type(d.get('v')) is not nnx.Node: return False
    return AND(same(vars(d['v'])['value'], f.v), same(d.get('w'), f.extra), set(fields_of(nnx, stored)) == {'v', 'w'})
  if f.kind == 'treenode':
    return AND(type(stored) is nnx.TreeNode, same(vars(stored), {'value': f.v}))
  return cmatches(nnx, stored, f.v)

def isnode(S, f):
  if f.kind == 'raw': return g.isnode(S, f.v)
  if f.kind == 'cont': return f.v.cls != 'Static'
  return True

def value_of(f): return f.v.value if f.kind == 'cont' else f.v

def fields_of(nnx, obj):
  return {k: v for k, v in vars(obj).items() if not k.startswith("_pytree__")}

def matches(S, nnx, obj, cls, fs):
  if type(obj) is not cls: return False, f"class {type(obj).__name__}"
  at = fields_of(nnx, obj)
  if set(at) != set(fs): return False, f"fields {sorted(at)} vs {sorted(fs)}"
  cs = []
  for n in fs:
    c = fmatch(S, nnx, at[n], fs[n])
    if c is False: return False, f"{n} is {at[n]!r}, expected {fs[n]!r}"
    cs.append(c)
  return AND(*cs), "values"

NAMES = ['_b', 'a', 'B', 'c']
OPTS = ('absent', 'raw', 'Param', 'Static', 'treenode', 'tree')

def choose_tree(S, nf, kinds, opts, clss, lab="t"):
  cn = S.choose(0, lab + ".cls", values=list(clss))
  fs = {}
  for n in NAMES[:nf]:
    f = choose_field(S, f"{lab}.{n}", list(kinds), opts)
    if f: fs[n] = f
  return cn, fs

def h_flatten(S, nf=3, kinds=('jarr', 'int', 'none', 'nparr0z'), opts=OPTS, clss=('Tree', 'MTree')):
  nnx = S.nnx
  cn, fs = choose_tree(S, nf, kinds, opts, clss)
  cls = classes(nnx)[cn]
  obj = cls([(n, real(nnx, f)) for n, f in fs.items()])
  perm = list(fs.items())
  if len(perm) > 1:
    k = S.choose(len(perm), "rot")
    perm = perm[k:] + perm[:k]
    if S.flip("rev"): perm = perm[::-1]
  obj2 = cls([(n, real(nnx, f)) for n, f in perm])
  c, why = matches(S, nnx, obj, cls, fs)
  S.check(c, "construction", lambda: why)
  order = [n for n in sorted(fs) if isnode(S, fs[n])]
  vals = [value_of(fs[n]) for n in order]
  lv = lambda o: jax.tree_util.tree_leaves(o)
  # a None node value has no leaf of its own
  exp = []
  for v in vals:
    if type(v) is SymVal and 'none' in v.kinds:
      if v.fork_kind(['none'], "none leaf"): pass
    exp.append(v)
  leaves, td = jax.tree_util.tree_flatten(obj, is_leaf=lambda x: x is None)
  S.check(AND(len(leaves) == len(exp), *[same(a, b) for a, b in zip(leaves, exp)]), "leaves are exactly the node values", lambda: f"{leaves} vs {exp}: {fs}")
  leaves2, td2 = jax.tree_util.tree_flatten(obj2, is_leaf=lambda x: x is None)
  S.check(AND(td == td2, len(leaves2) == len(leaves), *[same(a, b) for a, b in zip(leaves, leaves2)]), "order of assignment never matters", lambda: f"{leaves} {leaves2} {td} {td2}")
  wp, _ = jax.tree_util.tree_flatten_with_path(obj, is_leaf=lambda x: x is None)
  S.check(AND(len(wp) == len(exp), len({str(p) for p, _ in wp}) == len(wp), *[AND(str(p[0]).strip(".") == n, same(x, v)) for (p, x), n, v in zip(wp, order, exp)]), "paths agree with leaves", lambda: f"{wp}")
  y = jax.tree_util.tree_unflatten(td, leaves)
  c, why = matches(S, nnx, y, cls, fs)
  S.check(c, "flatten / unflatten is the identity", lambda: why)
  c, why = matches(S, nnx, obj, cls, fs)
  S.check(c, "flatten leaves the object as it was", lambda: why)
  z = jax.tree_map(Mapped, obj, is_leaf=lambda x: x is None)
  at = fields_of(nnx, z)
  S.check(set(at) == set(fs), "mapping changes only values")
  for n, f in fs.items():
    if isnode(S, f):
      # raw nodes are the mapped value itself, containers and nested objects hold it
      q = at[n] if f.kind == 'raw' else vars(vars(at[n])['v'])['value'] if f.kind == 'tree' else vars(at[n])['value']
      S.check(AND(type(q) is Mapped, same(getattr(q, 'x', None), value_of(f))), "mapping changes only values", lambda: f"{n} became {at[n]!r}")
    else: S.check(fmatch(S, nnx, at[n], f), "mapping changes only values", lambda: f"{n} became {at[n]!r}")
    if isnode(S, f) and f.kind == 'cont': S.check(AND(type(at[n]) is cclasses(nnx)[f.v.cls], same({k: v for k, v in vars(at[n]).items() if k != 'value'}, f.v.full())), "mapping changes only values", lambda: f"{at[n]!r} vs {f!r}")
  # an unflattened object has the same restrictions
  for o in (y, z): immutable(S, nnx, o, MUT[cn], sorted(fs))

def h_classmates(S, nf=2, kinds=('jarr', 'int'), opts=('absent', 'raw', 'Param')):
  """objects of one class with their own fields: what one holds never depends on the others"""
  nnx = S.nnx
  class Tree(nnx.Pytree):
    def __init__(self, items):
      for n, v in items: setattr(self, n, v)
  class MTree(nnx.Pytree, mutable=True):
    def __init__(self, items):
      for n, v in items: setattr(self, n, v)
  class SubTree(Tree): pass
  class SubM(MTree): pass
  order = S.choose(0, "cls", values=[(Tree, Tree), (MTree, MTree), (Tree, SubTree), (SubTree, Tree), (Tree, SubM), (MTree, SubM)])
  objs = []
  for i, cls in enumerate(order):
    fs = {}
    for n in NAMES[:nf]:
      f = choose_field(S, f"t{i}.{n}", list(kinds), opts)
      if f: fs[n] = f
    objs.append((cls(list((n, real(nnx, f)) for n, f in fs.items())), cls, fs))
  for o, cls, fs in objs:
    c, why = matches(S, nnx, o, cls, fs)
    S.check(c, "construction", lambda: why)
    exp = [value_of(fs[n]) for n in sorted(fs) if isnode(S, fs[n])]
    leaves, td = jax.tree_util.tree_flatten(o, is_leaf=lambda x: x is None)
    S.check(AND(len(leaves) == len(exp), *[same(a, b) for a, b in zip(leaves, exp)]), "leaves are exactly the node values", lambda: f"{leaves} vs {exp}: {fs}, others {[f for _, _, f in objs]}")
    y = jax.tree_util.tree_unflatten(td, leaves)
    c, why = matches(S, nnx, y, cls, fs)
    S.check(c, "flatten / unflatten is the identity", lambda: why)
    immutable(S, nnx, y, cls is MTree, sorted(fs))
    immutable(S, nnx, o, cls is MTree, sorted(fs))
    if fs and cls is MTree:
      n = sorted(fs)[0]
      if fs[n].kind == 'raw':
        v = S.leaf("asg", list(kinds)); setattr(o, n, v)
        S.check(same(vars(o)[n], v), "mutable field")
        fs[n] = F('raw', v)
        c, why = matches(S, nnx, o, cls, fs)
        S.check(c, "mutable field", lambda: why)

def immutable(S, nnx, o, mut, names):
  before = dict(vars(o))
  try: setattr(o, "newfield", 1); ok = True
  except AttributeError: ok = False
  S.check(not ok, "no new field", lambda: f"added to {o!r}")
  S.check(same(dict(vars(o)), before), "failed assignment changes nothing", lambda: f"{vars(o)} vs {before}")
  if names and not mut:
    try: setattr(o, names[0], 1); ok = True
    except AttributeError: ok = False
    S.check(not ok, "immutable field", lambda: f"{o!r}")
    S.check(same(dict(vars(o)), before), "failed assignment changes nothing", lambda: f"{vars(o)} vs {before}")

def assigned(S, nnx, old, new):
  """(result field, allowed) of assigning `new` (an F) over field `old`"""
  if old is None or old.kind in ('raw', 'tree'): return new, True
  if old.kind == 'treenode':
    if new.kind == 'treenode': return new, True
    if new.kind == 'cont': return old, False
    return F('treenode', None if new.kind == 'tree' else new.v, new if new.kind == 'tree' else None), True
  if new.kind == 'treenode': return old, False
  if new.kind == 'cont':
    return F('cont', old.v.with_value(new.v.value)), compatible(old.v, new.v)
  return F('cont', old.v.with_value(new.v)), True

def h_assign(S, nf=2, kinds=('jarr', 'int', 'none'), opts=('absent', 'raw', 'Param', 'Static', 'treenode'), clss=('Tree', 'MTree', 'Sub', 'MSub', 'ISub')):
  nnx = S.nnx
  cn, fs = choose_tree(S, nf, kinds, opts, clss)
  cls = classes(nnx)[cn]
  obj = cls([(n, real(nnx, f)) for n, f in fs.items()])
  name = S.choose(0, "name", values=NAMES[:nf])
  new = choose_field(S, "new", list(kinds), [o for o in opts if o != 'absent'])
  if S.flip("unflattened"): obj = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(obj, is_leaf=lambda x: x is None), jax.tree_util.tree_leaves(obj, is_leaf=lambda x: x is None))
  before = dict(vars(obj))
  val = real(nnx, new)
  want, allowed = assigned(S, nnx, fs.get(name), new)
  try: setattr(obj, name, val); err = None
  except (AttributeError, ValueError) as ex: err = ex
  if name not in fs:
    S.check(isinstance(err, AttributeError), "no new field", lambda: f"{cn}: {fs} {name}={new!r} {err!r}")
  elif not MUT[cn]:
    S.check(isinstance(err, AttributeError), "immutable field", lambda: f"{cn}: {fs} {name}={new!r} {err!r}")
  else:
    if err is None:
      S.check(allowed, "incompatible variable rejected", lambda: f"{fs[name]!r} <- {new!r}")
      S.reach("mutable field")
      fs = {**fs, name: want}
      c, why = matches(S, nnx, obj, cls, fs)
      S.check(c, "mutable field", lambda: why)
      if new.kind in ('cont', 'treenode') and name in fs:
        S.check(vars(obj)[name] is not val, "no aliasing", lambda: f"{new!r}")
    else:
      S.check(AND(isinstance(err, ValueError), NOT(allowed)), "mutable field", lambda: f"{fs[name]!r} <- {new!r}: {err!r}")
  if err is not None:
    S.check(AND(list(vars(obj)) == list(before), *[vars(obj)[k] is before[k] for k in before]), "failed assignment changes nothing", lambda: f"{vars(obj)} vs {before}")
    c, why = matches(S, nnx, obj, cls, fs)
    S.check(c, "failed assignment changes nothing", lambda: why)

def h_replace(S, nf=2, kinds=('jarr', 'int', 'none'), opts=('absent', 'raw', 'Param', 'Static', 'treenode'), clss=('Tree', 'MTree'), second=False):
  nnx = S.nnx
  cn, fs = choose_tree(S, nf, kinds, opts, clss)
  cls = classes(nnx)[cn]
  obj = cls([(n, real(nnx, f)) for n, f in fs.items()])
  cur, cfs = obj, fs
  for r in range(2 if second else 1):
    kw, want, allowed = {}, dict(cfs), True
    unknown = False
    for n in NAMES[:nf]:
      if not S.flip(f"r{r}.{n}"): continue
      new = F('raw', S.leaf(f"r{r}.{n}.v", list(kinds)))
      if S.flip(f"r{r}.{n}.cont"): new = choose_field(S, f"r{r}.{n}.new", list(kinds), ('Param', 'Static'))
      kw[n] = real(nnx, new)
      if n not in cfs: unknown = True
      else:
        want[n], ok = assigned(S, nnx, cfs[n], new)
        allowed = AND(allowed, ok)
    try: out = cur.replace(**kw); err = None
    except (AttributeError, ValueError) as ex: err = ex
    if unknown: S.check(err is not None, "unknown replace rejected", lambda: f"{cfs} {kw}")
    elif err is None:
      S.check(allowed, "incompatible variable rejected", lambda: f"{cfs} {kw}")
      c, why = matches(S, nnx, out, cls, want)
      S.check(c, "replace sets exactly the named fields", lambda: f"{why}; {cfs} {kw}")
      S.check(out is not cur, "replace keeps the original", "same object")
      immutable(S, nnx, out, MUT[cn], sorted(want))
      # roles and leaves of the new object follow from its fields
      order = [n for n in sorted(want) if isnode(S, want[n])]
      lv = jax.tree_util.tree_leaves(out, is_leaf=lambda x: x is None)
      S.check(AND(len(lv) == len(order), *[same(a, value_of(want[n])) for a, n in zip(lv, order)]), "leaves are exactly the node values", lambda: f"{lv} {want}")
    else:
      S.check(NOT(allowed), "replace sets exactly the named fields", lambda: f"{cfs} {kw}: {err!r}")
    c, why = matches(S, nnx, obj, cls, fs)
    S.check(c, "replace keeps the original", lambda: f"{why}; {fs} {kw}")
    immutable(S, nnx, obj, MUT[cn], sorted(fs))
    if err is not None: break
    if r == 0: cur, cfs = out, want

# ---------------------------------------------------------------- dataclasses
_D = {}
ROLES = ['node', 'static', 'param', 'field', 'fieldnode', 'plain']
def dclass(nnx, roles):
  key = (id(nnx), tuple(roles))
  if key not in _D:
    ns = dict(__annotations__={})
    for i, r in enumerate(roles):
      n = NAMES[i]
      ns['__annotations__'][n] = object
      if r == 'node': ns[n] = nnx.node_field()
      if r == 'static': ns[n] = nnx.static_field()
      if r == 'param': ns[n] = nnx.var_field(nnx.Param, sharding=('x',))
      if r in ('field', 'fieldnode'): ns[n] = nnx.field()
    _D[key] = nnx.dataclass(type("D", (nnx.Pytree,), ns))
  return _D[key]

def dfield(r, v):
  if r == 'node': return F('cont', Desc('Node', {}, v))
  if r == 'static': return F('cont', Desc('Static', {}, v))
  if r == 'param': return F('cont', Desc('Param', {'sharding': ('x',)}, v))
  if r == 'fieldnode': return F('cont', Desc('Node', {}, v))
  return F('raw', v)

def h_dataclass(S, nf=2, kinds=('jarr', 'int', 'none'), second=False, roles=tuple(ROLES)):
  """dataclass pytrees: construction, flattening, replace"""
  nnx = S.nnx
  rs = [S.choose(0, f"role{i}", values=list(roles)) for i in range(nf)]
  cls = dclass(nnx, rs)
  vs = [S.leaf(f"v{i}", list(kinds)) for i in range(nf)]
  obj = cls(*[nnx.Node(v) if r == 'fieldnode' else v for r, v in zip(rs, vs)])
  fs = {NAMES[i]: dfield(r, vs[i]) for i, r in enumerate(rs)}
  c, why = matches(S, nnx, obj, cls, fs)
  S.check(c, "construction", lambda: why)
  cur, cfs = obj, fs
  for rep in range(2 if second else 1):
    kw, want = {}, dict(cfs)
    for i, r in enumerate(rs):
      if S.flip(f"r{rep}.{i}"):
        v = S.leaf(f"r{rep}.nv{i}", list(kinds))
        kw[NAMES[i]] = v
        want[NAMES[i]] = dfield(r, v)
    out = cur.replace(**kw)
    c, why = matches(S, nnx, out, cls, want)
    S.check(c, "dataclass replace", lambda: f"{why}; {cfs} {kw}")
    S.check(out is not cur, "replace keeps the original")
    order = [n for n in sorted(want) if isnode(S, want[n])]
    lv = jax.tree_util.tree_leaves(out, is_leaf=lambda x: x is None)
    S.check(AND(len(lv) == len(order), *[same(a, value_of(want[n])) for a, n in zip(lv, order)]), "leaves are exactly the node values", lambda: f"{lv} {want}")
    y = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(out, is_leaf=lambda x: x is None), lv)
    c, why = matches(S, nnx, y, cls, want)
    S.check(c, "flatten / unflatten is the identity", lambda: why)
    c, why = matches(S, nnx, obj, cls, fs)
    S.check(c, "replace keeps the original", lambda: why)
    for o in (obj, out, y): immutable(S, nnx, o, False, sorted(fs))
    cur, cfs = (y if S.flip(f"thru{rep}") else out) if second else out, want
  try: obj.replace(nosuch=1); ok = True
  except (TypeError, ValueError, AttributeError): ok = False
  S.check(not ok, "unknown replace rejected")

def h_many(S, n=12):
  """objects with many fields: order, roles, assignment and replace at any of them"""
  nnx = S.nnx
  cn = S.choose(0, "cls", values=['Tree', 'MTree'])
  cls = classes(nnx)[cn]
  at = S.choose(n, "at")
  names = [f"f{i}" for i in range(n)]
  roles = {x: ['Param', 'raw', 'static', 'treenode'][i % 4] for i, x in enumerate(names)}
  roles[names[at]] = S.choose(0, "role", values=['Param', 'raw', 'static', 'treenode'])
  vals = {x: S.leaf(f"v{i}", ['jarr'] if roles[x] != 'static' else ['int']) for i, x in enumerate(names)}
  mk = lambda x, v: dict(Param=lambda: nnx.Param(v, sharding=(x,)), raw=lambda: v, static=lambda: v, treenode=lambda: nnx.TreeNode(v))[roles[x]]()
  order = names if S.flip("forwards") else names[::-1]
  obj = cls([(x, mk(x, vals[x])) for x in order])
  def ok(o, vals, lab, txt):
    f = fields_of(nnx, o)
    S.check(set(f) == set(names) and type(o) is cls, lab, lambda: f"{txt}: {sorted(f)}")
    for x in names:
      st = f[x]
      r = roles[x]
      if r == 'Param': c = AND(type(st) is nnx.Param, same({k: v for k, v in vars(st).items() if k != 'value'}, {'sharding': (x,)}), same(vars(st)['value'], vals[x])) if type(st) is nnx.Param else False
      elif r == 'treenode': c = AND(same(vars(st)['value'], vals[x])) if type(st) is nnx.TreeNode else False
      else: c = same(st, vals[x])
      S.check(AND(c, same(getattr(o, x), vals[x])), lab, lambda: f"{txt}: {x} is {st!r}")
  ok(obj, vals, "construction", "new")
  nodes = [x for x in sorted(names) if roles[x] != 'static']
  leaves, td = jax.tree_util.tree_flatten(obj)
  S.check(AND(len(leaves) == len(nodes), *[same(a, vals[x]) for a, x in zip(leaves, nodes)]), "leaves are exactly the node values", lambda: f"{leaves}")
  ok(jax.tree_util.tree_unflatten(td, leaves), vals, "flatten / unflatten is the identity", "rebuilt")
  x = names[at]
  new = S.leaf("new", ['jarr'] if roles[x] != 'static' else ['int'])
  r = obj.replace(**{x: new})
  ok(r, {**vals, x: new}, "replace sets exactly the named fields", f"replace({x})"); ok(obj, vals, "replace leaves the original", f"replace({x})")
  try: setattr(obj, x, new); raised = False
  except AttributeError: raised = True
  S.check(raised == (cn == 'Tree'), "immutable fields reject assignment" if cn == 'Tree' else "assignment to a mutable object", lambda: f"{x} {raised}")
  ok(obj, {**vals, x: new} if cn == 'MTree' else vals, "assignment to a mutable object" if cn == 'MTree' else "a failed assignment changes nothing", x)
  # copies made by the tree functions behave in the same way
  back = jax.tree_map(lambda v: v, obj)
  try: back.extra = 1; raised = False
  except AttributeError: raised = True
  S.check(raised, "no field can be added", "rebuilt object")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("flatten 3", "h_flatten", nf=3, kinds=['jarr', 'int'], opts=['absent', 'raw', 'Param', 'Static'])
  j("flatten 2", "h_flatten", nf=2, kinds=['jarr', 'int', 'none', 'nparr0z'], clss=['Tree'])
  j("flatten kinds", "h_flatten", nf=1, kinds=TL, opts=['raw', 'Node', 'Custom', 'treenode', 'SubParam', 'BatchStat'])
  j("many fields", "h_many")
  j("classmates", "h_classmates")
  j("assign", "h_assign", nf=2, kinds=['jarr', 'int'], clss=['Tree', 'MTree'])
  j("assign kinds", "h_assign", nf=1, kinds=ALLVALS, clss=['Tree', 'MTree', 'Sub', 'MSub', 'ISub'])
  j("replace", "h_replace", nf=2, kinds=['jarr', 'int'], opts=['absent', 'raw', 'Param', 'Static'])
  j("replace kinds", "h_replace", nf=1, kinds=TL, second=True)
  j("replace treenode", "h_replace", nf=2, kinds=['jarr'], opts=['raw', 'treenode'], second=True)
  j("dataclass", "h_dataclass", nf=2, kinds=['jarr', 'int'])
  j("dataclass kinds", "h_dataclass", nf=1, kinds=TL)
  j("dataclass twice", "h_dataclass", nf=1, kinds=['jarr', 'int', 'none'], second=True)
  if T:
    j("flatten 4", "h_flatten", nf=4, kinds=['jarr', 'int'], opts=['absent', 'raw', 'Static'], clss=['Tree'])
    j("flatten 3 all", "h_flatten", nf=3, kinds=['jarr', 'int'])
    j("assign all", "h_assign", nf=2, kinds=['jarr', 'int', 'none'])
    j("replace all", "h_replace", nf=2, kinds=['jarr', 'int'], second=True)
    j("dataclass 3", "h_dataclass", nf=3, kinds=['jarr', 'int'])
    j("dataclass 2 twice", "h_dataclass", nf=2, kinds=['jarr', 'int'], second=True)
  return J
