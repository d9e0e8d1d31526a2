"""C29 dataclass field declarations"""
import dataclasses, types
import jax
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal, ALLVALS, TREELEAVES, HASHABLE
from sx import graphs as g
from props.c10 import Desc, matches as cmatches, compatible, choose_desc, classes as cclasses, real as creal

BOUNDS = dict(
  quick="dataclass Modules and Pytrees of <= 2 fields, every field specifier (field, node_field, static_field, param_field, var_field of 3 types with and without sharding, no specifier), value of every kind from the constructor (positional or keyword), a default or a default factory (also of fields outside the constructor, init=False), plain or already wrapped in any container with arbitrary metadata; inherited, frozen and keyword-only dataclasses, __post_init__; every specifier with repr, compare, hash, default and metadata options, metadata mappings shared by two declarations",
  thorough="3 fields")
OUTSIDE = "fields that are never set (init=False without a default); frozen dataclass Modules (they reject every update, merge included)"
ASSUMPTIONS = ["metadata is compared with =="]
WITNESSES = ["declared container", "plain field stores the value", "wrapped the same way is kept", "wrapped differently is rejected", "reading gives the plain value", "exactly the node fields are in the state", "exactly the node fields are leaves", "role kept by later assignment", "other options as in dataclasses.field"]

ROLES = ['node', 'static', 'param', 'var', 'var sharded', 'custom', 'custom sharded', 'field', 'plain']
SPEC = {'node': ('Node', {}), 'static': ('Static', {}), 'param': ('Param', {}), 'var': ('BatchStat', {}), 'var sharded': ('Param', {'sharding': ('x', None)}),
        'custom': ('Custom', {}), 'custom sharded': ('Custom', {'sharding': ('y',)})}

def specifier(nnx, r, **kw):
  C = cclasses(nnx)
  if r == 'node': return nnx.node_field(**kw)
  if r == 'static': return nnx.static_field(**kw)
  if r == 'param': return nnx.param_field(**kw)
  if r == 'var': return nnx.var_field(nnx.BatchStat, **kw)
  if r == 'var sharded': return nnx.var_field(nnx.Param, sharding=('x', None), **kw)
  if r == 'custom': return nnx.var_field(C['Custom'], **kw)
  if r == 'custom sharded': return nnx.var_field(C['Custom'], sharding=('y',), **kw)
  if r == 'field': return nnx.field(**kw)
  return dataclasses.field(**kw) if kw else None

NAMES = ['b', '_a', 'c']

def make(nnx, base, fields, variant):
  """fields: list of (name, role, source, default object)"""
  ns = dict(__annotations__={})
  for n, r, src, dv in fields:
    kw = {} if src in ('pos', 'kw') else {'default': dv} if src == 'default' else {'default': dv, 'init': False} if src == 'noinit' else {'default_factory': (lambda dv=dv: dv), 'init': False} if src == 'noinit factory' else {'default_factory': (lambda dv=dv: dv)}
    ns['__annotations__'][n] = object
    sp = specifier(nnx, r, **kw)
    if sp is not None: ns[n] = sp
  log = []
  if variant == 'post_init':
    def __post_init__(self): log.append(1)
    ns['__post_init__'] = __post_init__
  if variant == 'inherited' and len(fields) > 1:
    n0 = fields[0][0]
    up = dict(__annotations__={n0: object})
    if n0 in ns: up[n0] = ns.pop(n0)
    ns['__annotations__'].pop(n0)
    Up = nnx.dataclass(type("Up", (base,), up))
    return nnx.dataclass(type("D", (Up,), ns))
  if variant == 'subclass':
    D = nnx.dataclass(type("D", (base,), ns))
    return type("E", (D,), {})
  D = type("D", (base,), ns)
  if variant == 'frozen': return nnx.dataclass(frozen=True)(D)
  return nnx.dataclass(D)

def h_fields(S, nf=1, kinds=('jarr', 'int', 'none'), roles=tuple(ROLES), variants=('plain',), wraps=('no', 'same', 'other'), sources=('pos', 'kw', 'default', 'factory'), bases=('Module', 'Pytree')):
  nnx = S.nnx
  C = cclasses(nnx)
  bn = S.choose(0, "base", values=list(bases))
  base = getattr(nnx, bn)
  variant = S.choose(0, "variant", values=list(variants))
  fields, vals, descs, okc = [], [], [], []
  isdef = False
  if bn == 'Module': S.assume(variant != 'frozen', 'frozen modules cannot be updated')
  for i in range(nf):
    r = S.choose(0, f"role{i}", values=list(roles))
    src = S.choose(0, f"src{i}", values=[s for s in sources if not (s == 'pos' and any(f[2] != 'pos' for f in fields))])
    if src in ('default', 'factory'): isdef = True
    elif src in ('noinit', 'noinit factory'): S.assume(not (src == 'noinit' and r not in SPEC), "a plain field without init stays on the class")
    elif isdef: S.assume(False, "fields without default come first")
    w = S.choose(0, f"wrap{i}", values=list(wraps))
    ks = [k for k in kinds if k in HASHABLE] if src in ('default', 'noinit') else list(kinds)
    if w == 'no':
      v = S.leaf(f"v{i}", ks); x = v
      d = Desc(SPEC[r][0], SPEC[r][1], v) if r in SPEC else v
      ok = True
    else:
      if w == 'same':
        if r not in SPEC: S.assume(False, "nothing to wrap")
        dd = Desc(SPEC[r][0], SPEC[r][1], S.leaf(f"v{i}", ks))
      else: dd = choose_desc(S, f"v{i}", ks)
      if src in ('default', 'noinit'): S.assume(False, "containers are not hashable defaults") if dd.cls != 'Static' else None
      x = creal(nnx, dd)
      if r in SPEC: ok = compatible(dd, Desc(SPEC[r][0], SPEC[r][1], None)); d = Desc(SPEC[r][0], SPEC[r][1], dd.value)
      else: ok = True; d = dd
    fields.append((NAMES[i], r, src, x)); vals.append(x); descs.append(d); okc.append(ok)
  allok = AND(*okc)
  cls = make(nnx, base, fields, variant)
  args = [x for (n, r, s, _), x in zip(fields, vals) if s == 'pos']
  kw = {n: x for (n, r, s, _), x in zip(fields, vals) if s == 'kw'}
  try: obj = cls(*args, **kw); err = None
  except ValueError as ex: err = ex
  if err is not None:
    S.check(NOT(allok), "wrapped the same way is kept", lambda: f"{fields}: {err!r}")
    S.reach("wrapped differently is rejected")
    return
  S.check(allok, "wrapped differently is rejected", lambda: f"{fields}: {vars(obj)}")
  nodes = []
  for (n, r, s, x), d in zip(fields, descs):
    st = vars(obj)[n]
    if isinstance(d, Desc) if type(d) is not SymVal else False:
      S.check(cmatches(nnx, st, d), "declared container" if r in SPEC else "plain field stores the value", lambda: f"{bn} {n} ({r}, {s}) holds {st!r}, expected {d}")
      S.check(same(getattr(obj, n), d.value), "reading gives the plain value", lambda: f"{getattr(obj, n)!r} vs {d}")
      if d.cls != 'Static': nodes.append((n, d))
      if r in SPEC: S.reach("wrapped the same way is kept")
    else:
      S.check(same(st, d), "plain field stores the value", lambda: f"{bn} {n} ({r}, {s}) holds {st!r}, expected {d!r}")
      S.check(same(getattr(obj, n), d), "reading gives the plain value")
      if g.isnode(S, d): nodes.append((n, d))
  nodes.sort(key=lambda x: x[0])
  if bn == 'Module':
    st = obj.get_state()
    S.check(list(st) == [n for n, _ in nodes], "exactly the node fields are in the state", lambda: f"{st} vs {nodes}")
    for n, d in nodes: S.check(cmatches(nnx, st[n], d) if type(d) is Desc else same(st[n], d), "exactly the node fields are in the state", lambda: f"{st} vs {nodes}")
    c, why = g.graphs_same(S, nnx, obj, obj.clone())
    S.check(c, "survives split and merge", lambda: why)
    if variant != 'frozen':
      for i, ((n, r, s, x), d) in enumerate(zip(fields, descs)):
        if type(d) is Desc:
          nv = S.leaf(f"later{i}", list(kinds))
          setattr(obj, n, nv)
          S.check(cmatches(nnx, vars(obj)[n], d.with_value(nv)), "role kept by later assignment", lambda: f"{vars(obj)[n]!r} vs {d}")
  else:
    ls = jax.tree_util.tree_leaves(obj, is_leaf=lambda x: x is None)
    want = [d.value if type(d) is Desc else d for _, d in nodes]
    S.check(AND(len(ls) == len(want), *[same(a, b) for a, b in zip(ls, want)]), "exactly the node fields are leaves", lambda: f"{ls} vs {want}")
  # a second instance shares nothing
  if all(s in ('default', 'factory', 'noinit', 'noinit factory') for _, _, s, _ in fields):
    o2 = cls()
    S.check(all(vars(o2)[n] is not vars(obj)[n] for n, r, _, _ in fields if r in SPEC), "instances share no container")

def h_options(S, nf=2, roles=tuple(ROLES[:-1])):
  """the other options of a declaration are those of dataclasses.field; declarations may share one metadata mapping"""
  nnx = S.nnx
  C = cclasses(nnx)
  bn = S.choose(0, "base", values=['Module', 'Pytree'])
  meta = {'unit': 'm', 'note': ('a', 1)}
  given = S.choose(0, "metadata", values=['none', 'dict', 'proxy', 'empty'])
  mm = dict(none=None, dict=meta, proxy=types.MappingProxyType(meta), empty={})[given]
  user = {} if not mm else dict(mm)
  ns, opts, rs = dict(__annotations__={}), [], []
  for i in range(nf):
    r = S.choose(0, f"role{i}", values=list(roles))
    o = dict(repr=S.flip(f"repr{i}"), compare=S.flip(f"compare{i}"), hash=S.choose(0, f"hash{i}", values=[None, True, False])) if i == 0 else dict(repr=True, compare=True, hash=None)
    po = {k: v for k, v in o.items() if v is not (None if k == 'hash' else True)}   # what is not given has its default
    d = S.choose(0, f"default{i}", values=['none', 'value', 'factory']) if i == 0 else 'value'
    kw = dict(none={}, value=dict(default=7 + i), factory=dict(default_factory=lambda i=i: 7 + i))[d]
    ns['__annotations__'][NAMES[i]] = object
    if r == 'param' and d == 'value' and S.flip("positional default"):
      ns[NAMES[i]] = nnx.param_field(7 + i, metadata=mm, **po)
    else: ns[NAMES[i]] = specifier(nnx, r, **({} if mm is None else dict(metadata=mm)), **po, **kw)
    opts.append((o, d)); rs.append(r)
  lab = "other options as in dataclasses.field"
  S.check(dict(meta) == {'unit': 'm', 'note': ('a', 1)} and mm in (None, {}, meta), lab, lambda: f"the metadata mapping became {mm}")
  cls = nnx.dataclass(type("D", (getattr(nnx, bn),), ns))
  fs = {f.name: f for f in dataclasses.fields(cls)}
  for i, (o, d) in enumerate(opts):
    f = fs[NAMES[i]]
    S.check(all(getattr(f, k) == v for k, v in o.items()) and f.init, lab, lambda: f"{rs[i]} {o}: {f}")
    S.check(all(f.metadata.get(k) == v for k, v in user.items()), lab, lambda: f"{rs[i]} {user}: {f.metadata}")
    S.check((f.default == 7 + i) if d == 'value' else f.default is dataclasses.MISSING, lab, lambda: f"{f}")
    S.check((f.default_factory is not dataclasses.MISSING) == (d == 'factory'), lab, lambda: f"{f}")
  S.reach(lab)
  vs = [S.leaf(f"v{i}", ['jarr', 'int', 'none']) for i in range(nf)]
  obj = cls(**{NAMES[i]: vs[i] for i in range(nf)})
  for i in range(nf):
    st = vars(obj)[NAMES[i]]
    if rs[i] in SPEC: S.check(cmatches(nnx, st, Desc(SPEC[rs[i]][0], SPEC[rs[i]][1], vs[i])), "declared container", lambda: f"{NAMES[i]} of {rs} holds {st!r}")
    else: S.check(same(st, vs[i]), "plain field stores the value", lambda: f"{NAMES[i]} of {rs} holds {st!r}")
  if opts[0][1] != 'none':
    st = vars(cls())[NAMES[0]]
    S.check(cmatches(nnx, st, Desc(SPEC[rs[0]][0], SPEC[rs[0]][1], 7)) if rs[0] in SPEC else same(st, 7), "declared container", lambda: f"default of {rs[0]}: {st!r}")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  K = TREELEAVES + ['none']
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("one field", "h_fields", nf=1, wraps=['no'], kinds=K + ['func', 'cls'], variants=['plain', 'post_init', 'subclass', 'frozen'])
  j("not in the constructor", "h_fields", nf=1, wraps=['no', 'same', 'other'], kinds=['jarr', 'int', 'none', 'str', 'tup0'], sources=['noinit', 'noinit factory'], variants=['plain', 'post_init', 'subclass', 'frozen'])
  j("two fields not in the constructor", "h_fields", nf=2, wraps=['no', 'same'], kinds=['int'], roles=['node', 'static', 'param', 'var sharded'], sources=['pos', 'default', 'noinit', 'noinit factory'], variants=['plain', 'inherited'])
  j("falsy values", "h_fields", nf=1, wraps=['no'], kinds=['none', 'false', 'int0', 'str0', 'jarr0z', 'nparr0z', 'tup0', 'list0', 'dict0'], sources=['pos', 'default', 'factory'], bases=['Module'])
  for r in ROLES: j(f"wrapped {r}", "h_fields", nf=1, wraps=['same', 'other'], roles=[r], kinds=['jarr', 'none'], variants=['plain'] if not T else ['plain', 'frozen', 'subclass'])
  j("two fields", "h_fields", nf=2, wraps=['no'], kinds=['jarr', 'int'], variants=['plain', 'inherited'], sources=['pos', 'kw'], roles=['node', 'static', 'var sharded', 'custom', 'plain'])
  j("two fields defaults", "h_fields", nf=2, wraps=['no', 'same'], kinds=['int'], variants=['plain', 'inherited'], roles=['static', 'param', 'node', 'field'])
  j("options", "h_options", nf=1)
  j("shared metadata", "h_options", nf=2, roles=['node', 'static', 'param', 'custom sharded', 'field'])
  if T: j("three fields", "h_fields", nf=3, wraps=['no'], kinds=['jarr', 'int'], sources=['pos', 'factory'], roles=['node', 'static', 'var sharded', 'plain'])
  return J
