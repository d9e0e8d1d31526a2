"""C14 flax serialization of nnx.Pytree"""
import copy, collections
import jax
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal, ARRAYS
from sx import graphs as g
from props import c13
from props.c13 import F, NAMES, fields_of, classes, MUT
from props.c10 import Desc, matches as cmatches, classes as cclasses

BOUNDS = dict(
  quick="objects of 12 fields with lists and dicts of 12; objects of <= 3 fields (raw values of any kind, variables / nodes / TreeNode with metadata, Static, nested Pytrees), field values being leaves, tuples, named tuples, lists, dicts and nested Pytrees one level deep; restore into an object of the same shape with other values; one missing or unknown field at either level; dataclass, mutable and inherited classes",
  thorough="all kinds of field in every position")
OUTSIDE = "the byte encoding of flax (to_bytes); restoring a dict of another shape inside tuples and lists (flax's own checks)"
ASSUMPTIONS = []
WITNESSES = ["exactly the node fields are saved", "every node field is restored", "static fields kept", "target untouched", "saved dict untouched", "missing field rejected", "unknown field rejected", "nested structure kept"]

NT = collections.namedtuple("NT", ["p", "q"])
FORMS = ['leaf', 'tuple', 'list', 'dict', 'nt', 'inner']

class V:
  """a structured value: the real object and its expected state dict"""
  def __init__(self, nnx, form, ls):
    a, b = ls
    self.form, self.ls = form, ls
    I = classes(nnx)['Inner']
    if form == 'leaf': self.real, self.sd = a, a
    if form == 'tuple': self.real, self.sd = (a, (b,)), {'0': a, '1': {'0': b}}
    if form == 'list': self.real, self.sd = [a, b], {'0': a, '1': b}
    if form == 'dict': self.real, self.sd = {'k': a, 'l': [b]}, {'k': a, 'l': {'0': b}}
    if form == 'nt': self.real, self.sd = NT(a, b), {'p': a, 'q': b}
    if form == 'inner': self.real, self.sd = I(a, 'st'), {'v': a}
  def __repr__(self): return f"{self.form}{self.ls}"

def vsame(nnx, x, v, wst='st'):
  """x is the structured value v"""
  a, b = v.ls
  if v.form == 'leaf': return same(x, a)
  if v.form == 'inner':
    if type(x) is not classes(nnx)['Inner']: return False
    f = fields_of(nnx, x)
    return AND(set(f) == {'v', 'w'}, type(f['v']) is nnx.Node, same(vars(f['v'])['value'], a), same(f['w'], wst))
  if v.form == 'nt' and type(x) is not NT: return False
  return same(x, v.real)

def struct(S, lab, kinds, forms):
  return (S.choose(0, lab + ".form", values=list(forms)), )

def choose(S, nnx, nf, opts, forms, kinds):
  """(roles): list of (name, option, form, metadata leaf)"""
  out = []
  for n in NAMES[:nf]:
    o = S.choose(0, f"t.{n}", values=list(opts))
    if o == 'absent': continue
    form = S.choose(0, f"t.{n}.form", values=list(forms)) if o not in ('raw', 'static raw', 'Static') else 'leaf'
    tag = S.leaf(f"t.{n}.tag", g.HM) if o in ('Node', 'Custom') else None
    out.append((n, o, form, tag))
  return out

def instance(S, nnx, cls, shape, lab, kinds):
  """an object of the given shape with fresh values: (object, {name: (V, stored check)})"""
  vals, items = {}, []
  for n, o, form, tag in shape:
    ks = list(kinds) if o != 'static raw' else ['int', 'none', 'str', 'tup0'] if len(kinds) > 3 else ['int', 'none']
    if o == 'raw': ks = ARRAYS if len(kinds) > 3 else ['jarr', 'nparr0z']
    v = V(nnx, form, (S.leaf(f"{lab}.{n}.0", ks), S.leaf(f"{lab}.{n}.1", ks) if form not in ('leaf', 'inner') else None))
    vals[n] = v
    x = v.real
    C = cclasses(nnx)
    if o == 'Param': x = nnx.Param(x, sharding=('x',))
    elif o == 'treenode': x = nnx.TreeNode(x)
    elif o == 'Static': x = nnx.Static(x)
    elif o in ('Node', 'Custom'): x = C[o](x, tag=tag)
    elif o == 'pytree': x = classes(nnx)['Inner'](V(nnx, form, v.ls).real, v.ls[0]) if False else x
    items.append((n, x))
  return cls(items), vals

def stored_ok(nnx, st, o, tag, v):
  C = cclasses(nnx)
  if o in ('raw', 'static raw'): return vsame(nnx, st, v)
  if type(st) is SymVal: return False
  want = dict(Param=nnx.Param, treenode=nnx.TreeNode, Static=nnx.Static, Node=nnx.Node, Custom=C['Custom'])[o]
  if type(st) is not want: return False
  d = {k: x for k, x in vars(st).items() if k != 'value'}
  meta = {'Param': {'sharding': ('x',)}, 'Node': {'tag': tag}, 'Custom': {'sharding': None, 'tag': tag}}.get(o, {})
  return AND(vsame(nnx, vars(st)['value'], v), same(d, meta))

def object_ok(nnx, obj, cls, shape, vals):
  if type(obj) is not cls: return False
  at = fields_of(nnx, obj)
  if set(at) != {n for n, *_ in shape}: return False
  return AND(*[stored_ok(nnx, at[n], o, tag, vals[n]) for n, o, form, tag in shape])

STATIC = ('static raw', 'Static')

def h_roundtrip(S, nf=2, opts=('absent', 'raw', 'Param', 'treenode', 'static raw', 'Static'), forms=('leaf',), kinds=('jarr', 'int', 'str'), clss=('Tree', 'MTree')):
  from flax import serialization as fs
  nnx = S.nnx
  cn = S.choose(0, "cls", values=list(clss))
  cls = classes(nnx)[cn]
  shape = choose(S, nnx, nf, opts, forms, kinds)
  a, va = instance(S, nnx, cls, shape, "a", kinds)
  b, vb = instance(S, nnx, cls, shape, "b", kinds)
  sd = fs.to_state_dict(a)
  want = {n: va[n].sd for n, o, *_ in shape if o not in STATIC}
  S.check(AND(type(sd) is dict, set(sd) == set(want), *[same(sd[n], want[n]) for n in want if n in sd]), "exactly the node fields are saved", lambda: f"{sd} vs {want}")
  S.check(object_ok(nnx, a, cls, shape, va), "saving leaves the object as it was")
  bad = S.choose(0, "bad", values=['no', 'missing', 'unknown', 'nested missing', 'nested unknown', 'both', 'static name'])
  nodes = [n for n, o, *_ in shape if o not in STATIC]
  inner = [n for n, o, form, tag in shape if form == 'inner' and o not in STATIC]
  d = {k: (dict(v) if isinstance(v, dict) and type(v) is dict else v) for k, v in sd.items()}
  expect = None
  if bad in ('missing', 'both') and nodes: del d[nodes[S.choose(len(nodes), "which")]]; expect = 'missing field rejected'
  if bad in ('unknown', 'both'): d['zz'] = 1; expect = expect or 'unknown field rejected'
  if bad == 'static name':
    st = [n for n, o, *_ in shape if o in STATIC]
    if st: d[st[0]] = 5; expect = 'unknown field rejected'
  if bad == 'nested missing' and inner: del d[inner[0]]['v']; expect = 'missing field rejected'
  if bad == 'nested unknown' and inner: d[inner[0]]['zz'] = 1; expect = 'unknown field rejected'
  extra = None
  if 'unknown' in bad or bad in ('both', 'static name'):
    # whatever an unknown entry holds
    extra = S.choose(0, "extra", values=[1, None, {}, 0, "", 'array', {'v': None}])
    if extra == 'array': extra = S.leaf("extra array", ['jarr'])
    for q in [d] + [d[n] for n in inner if n in d]:
      for k in list(q):
        if k == 'zz' or (q is d and k in [n for n, o, *_ in shape if o in STATIC]): q[k] = extra
  before = copy.copy(d)
  try: c = fs.from_state_dict(b, d); err = None
  except (ValueError, KeyError) as ex: err = ex
  if expect:
    S.check(err is not None, expect, lambda: f"{d}")
    S.reach(expect)
  else:
    S.check(err is None, "every node field is restored", lambda: repr(err))
    vc = {n: (vb if o in STATIC else va)[n] for n, o, *_ in shape}
    at = fields_of(nnx, c)
    S.check(AND(type(c) is cls, set(at) == set(vc)), "every node field is restored", lambda: f"{c!r}")
    for n, o, form, tag in shape:
      S.check(stored_ok(nnx, at[n], o, tag, vc[n]), "static fields kept" if o in STATIC else "every node field is restored" if form == 'leaf' else "nested structure kept", lambda: f"{n}: {at[n]!r} vs {o} {vc[n]}")
    S.check(c is not b, "target untouched")
    # the restored object is as restricted as any other, and saves the same dict
    c13.immutable(S, nnx, c, MUT[cn], sorted(vc))
    S.check(same(fs.to_state_dict(c), sd), "restored object saves the same dict", lambda: f"{fs.to_state_dict(c)} vs {sd}")
  S.check(object_ok(nnx, b, cls, shape, vb), "target untouched", lambda: f"{b!r}")
  S.check(object_ok(nnx, a, cls, shape, va), "target untouched", lambda: f"{a!r}")
  S.check(same(d, before), "saved dict untouched", lambda: f"{d} vs {before}")

_D = {}
def h_dataclass(S, kinds=('jarr', 'int', 'none'), forms=('leaf',)):
  """dataclass pytrees: every field role"""
  from flax import serialization as fs
  nnx = S.nnx
  rs = [S.choose(0, f"role{i}", values=list(c13.ROLES)) for i in range(2)]
  cls = c13.dclass(nnx, rs)
  mk = lambda r, v: nnx.Node(v) if r == 'fieldnode' else v
  form = S.choose(0, "form", values=list(forms))
  def inst(lab):
    vs = [V(nnx, form if r not in ('field', 'plain') else 'leaf', (S.leaf(f"{lab}{i}", list(kinds)), S.leaf(f"{lab}{i}x", list(kinds)) if form not in ('leaf', 'inner') else None)) for i, r in enumerate(rs)]
    return cls(*[mk(r, v.real) for r, v in zip(rs, vs)]), vs
  a, va = inst("a")
  b, vb = inst("b")
  isn = lambda r, v: r in ('node', 'param', 'fieldnode') or (r in ('field', 'plain') and g.isnode(S, v.ls[0]))
  # the two objects have the same shape
  for r, x, y in zip(rs, va, vb): S.assume(isn(r, x) == isn(r, y), "same shape")
  sd = fs.to_state_dict(a)
  want = {NAMES[i]: v.sd for i, (r, v) in enumerate(zip(rs, va)) if isn(r, v)}
  S.check(AND(set(sd) == set(want), *[same(sd[n], want[n]) for n in want if n in sd]), "exactly the node fields are saved", lambda: f"{sd} vs {want}")
  c = fs.from_state_dict(b, sd)
  for o, vals in ((c, [x if isn(r, x) else y for r, x, y in zip(rs, va, vb)]), (b, vb), (a, va)):
    at = fields_of(nnx, o)
    for i, (r, v) in enumerate(zip(rs, vals)):
      st = at[NAMES[i]]
      t = dict(node=nnx.Node, param=nnx.Param, fieldnode=nnx.Node, static=nnx.Static).get(r)
      ok = vsame(nnx, st, v) if t is None else AND(type(st) is t, vsame(nnx, vars(st)['value'], v), same(vars(st).get('sharding'), ('x',)) if r == 'param' else True)
      S.check(ok, "target untouched" if o is not c else "every node field is restored" if isn(r, v) else "static fields kept", lambda: f"{st!r} vs {r} {v}")

def h_many(S, n=12):
  """many fields and long lists"""
  from flax import serialization as fs
  nnx = S.nnx
  cls = classes(nnx)[S.choose(0, "cls", values=['Tree', 'MTree'])]
  at = S.choose(n, "at")
  names = [f"f{i}" for i in range(n)]
  roles = {x: ['Param', 'raw', 'static', 'treenode', 'list'][i % 5] for i, x in enumerate(names)}
  roles[names[at]] = S.choose(0, "role", values=['Param', 'raw', 'static', 'list', 'dict', 'inner'])
  def make(tag):
    vals, items = {}, []
    for i, x in enumerate(names):
      r = roles[x]
      k = n if r in ('list', 'dict') else 1
      v = [S.leaf(f"{tag}{i}.{q}", ['jarr'] if r != 'static' else ['int']) for q in range(k)]
      vals[x] = v
      items.append((x, dict(Param=lambda: nnx.Param(v[0], sharding=(x,)), raw=lambda: v[0], static=lambda: v[0], treenode=lambda: nnx.TreeNode(v[0]), list=lambda: nnx.Param(list(v)),
                            dict=lambda: nnx.Node({f"k{q}": y for q, y in enumerate(v)}), inner=lambda: classes(nnx)['Inner'](v[0], tag))[r]()))
    return cls(items), vals
  a, va = make("a"); b, vb = make("b")
  def ok(o, vals, statics, tag, lab):
    S.check(type(o) is cls and set(fields_of(nnx, o)) == set(names), lab)
    for x in names:
      r, st = roles[x], fields_of(nnx, o)[x]
      v = statics[x] if r == 'static' else vals[x]
      if r in ('raw', 'static'): c = same(st, v[0])
      elif r == 'inner': c = AND(same(st.v, v[0]), st.w == tag)
      elif type(st) is not dict(Param=nnx.Param, treenode=nnx.TreeNode, list=nnx.Param, dict=nnx.Node)[r]: c = False
      else:
        c = same(st.value, v if r == 'list' else {f"k{q}": y for q, y in enumerate(v)} if r == 'dict' else v[0])
        if r == 'Param': c = AND(c, st.sharding == (x,))
      S.check(c, lab, lambda: f"{x} ({r}) is {st!r}")
  sd = fs.to_state_dict(a)
  want = {x: {str(q): y for q, y in enumerate(va[x])} if roles[x] == 'list' else {f"k{q}": y for q, y in enumerate(va[x])} if roles[x] == 'dict' else {'v': va[x][0]} if roles[x] == 'inner' else va[x][0] for x in names if roles[x] != 'static'}
  S.check(same(sd, want), "exactly the node fields are saved", lambda: f"{sd} vs {want}")
  r = fs.from_state_dict(b, sd)
  ok(r, va, vb, "b", "every node field is restored"); ok(b, vb, vb, "b", "target untouched"); ok(a, va, va, "a", "saving leaves the object as it was")
  if roles[names[at]] != 'static':
    d = dict(sd); del d[names[at]]
    try: fs.from_state_dict(b, d); bad = True
    except ValueError: bad = False
    S.check(not bad, "missing field rejected", names[at])

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("roundtrip 2", "h_roundtrip", nf=2, kinds=['int'], clss=['Tree'])
  j("roundtrip 3", "h_roundtrip", nf=3, opts=['raw', 'Param', 'static raw'], kinds=['int'], clss=['Tree'])
  j("classes", "h_roundtrip", nf=1, opts=['raw', 'Node', 'Custom', 'treenode', 'Static', 'static raw'], clss=['Tree', 'MTree', 'Sub', 'MSub', 'ISub'], kinds=['int', 'jarr', 'str', 'obj', 'none', 'nparr0z'])
  j("structures", "h_roundtrip", nf=2, opts=['absent', 'Param', 'treenode'], forms=FORMS, kinds=['int'], clss=['Tree'])
  j("many fields", "h_many")
  j("dataclass", "h_dataclass", kinds=['jarr', 'int'])
  j("dataclass structures", "h_dataclass", kinds=['int'], forms=FORMS)
  if T:
    j("roundtrip 3 all", "h_roundtrip", nf=3, kinds=['int'])
    j("structures 2", "h_roundtrip", nf=2, opts=['raw', 'Param', 'treenode', 'Node', 'static raw'], forms=FORMS, kinds=['int'], clss=['Tree', 'MSub'])
  return J
