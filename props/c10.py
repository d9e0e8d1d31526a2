"""C10 variable containers: type, metadata, aliasing"""
import jax
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal, ALLVALS, val_eq
from sx import graphs as g
from sx.graphs import HM

BOUNDS = dict(
  quick="containers Param, BatchStat, Node, Static, a user-defined Variable and a subclass of Param, with arbitrary metadata values; assigned values of every kind; programs of <= 3 assignments over 2 modules with 2 attributes sharing one variable object",
  thorough="programs of <= 4 assignments")
OUTSIDE = "in-place mutation of a value by the user"
ASSUMPTIONS = ["metadata values are compared with =="]
WITNESSES = ["plain value keeps type and metadata", "compatible variable replaces the value", "incompatible variable rejected", "rejected assignment changes nothing", "no aliasing", "idempotent wrapping", "incompatible wrapping rejected", "replace", "initializer metadata"]

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class Custom(nnx.Variable): pass
    class SubParam(nnx.Param): pass
    class M(nnx.Module): pass
    _C[id(nnx)] = dict(Param=nnx.Param, BatchStat=nnx.BatchStat, Node=nnx.Node, Static=nnx.Static, Custom=Custom, SubParam=SubParam, M=M)
  return _C[id(nnx)]

class Desc:
  """expected container: class name, metadata, value"""
  def __init__(self, cls, meta, value): self.cls, self.meta, self.value = cls, meta, value
  def with_value(self, v): return Desc(self.cls, self.meta, v)
  def __repr__(self): return f"{self.cls}({self.value!r}, {self.meta})"
  def full(self):
    d = dict(self.meta)
    if self.cls in ('Param', 'BatchStat', 'Custom', 'SubParam') : d.setdefault('sharding', None)
    return d

METANAMES = ['default', 'name', 'metadata', 'type', 'cls', 'container', '_private', 'init', 'unbox', 'node', 'kwargs', 'mesh']

def choose_desc(S, lab, kinds, clss=('Param', 'BatchStat', 'Node', 'Static', 'Custom', 'SubParam'), metas=('plain', 'meta', 'sharding')):
  c = S.choose(0, f"{lab}.cls", values=list(clss))
  m = {}
  if c != 'Static':
    k = S.choose(0, f"{lab}.meta", values=[x for x in metas if x != 'sharding' or c != 'Node'])
    if k == 'meta': m = {'tag': S.leaf(f"{lab}.tag", HM)}
    if k == 'named': m = {S.choose(0, f"{lab}.name", values=METANAMES): S.leaf(f"{lab}.tag", ['none', 'int'])}
    if k == 'two': m = {'tag': S.leaf(f"{lab}.tag", ['none', 'int', 'str']), 'extra': S.leaf(f"{lab}.extra", ['none', 'int', 'str'])}
    if k == 'sharding': m = {'sharding': ('x', None) if S.flip(f"{lab}.sh") else ('y',)}
  return Desc(c, m, S.leaf(f"{lab}.v", kinds))

def real(nnx, d): return classes(nnx)[d.cls](d.value, **d.meta)

def matches(nnx, obj, d):
  if type(obj) is SymVal or type(obj) is not classes(nnx)[d.cls]: return False
  v = dict(vars(obj))
  val = v.pop('value', None)
  f = d.full()
  return AND(set(v) == set(f), same(val, d.value), *[same(v[k], f[k]) for k in f if k in v])

def compatible(a, b):
  """same type and equal metadata (python equality of metadata values)"""
  if a.cls != b.cls: return False
  x, y = a.full(), b.full()
  if set(x) != set(y): return False
  def eq(u, v):
    if type(u) is SymVal or type(v) is SymVal: return val_eq(u, v, py=True)
    return u == v
  return AND(*[eq(x[k], y[k]) for k in x])

def h_assign(S, kinds=tuple(ALLVALS), clss=None, how=None, metas=('plain', 'meta', 'sharding')):
  """one assignment to an attribute that holds a container"""
  nnx = S.nnx
  C = classes(nnx)
  m = C['M']()
  cl = clss or ['Param', 'BatchStat', 'Node', 'Static', 'Custom', 'SubParam']
  d = choose_desc(S, "old", ['none', 'int0', 'jarr'], cl, metas)
  orig = real(nnx, d)
  m.a = orig
  m.other = 5
  S.check(matches(nnx, vars(m)['a'], d), "stored with its type and metadata", lambda: f"{vars(m)['a']!r} vs {d}")
  S.check(same(m.a, d.value), "reading gives the value")
  how = how or S.choose(0, "how", values=['plain', 'container'])
  via = S.choose(0, "via", values=['setattr', 'update_state', 'view'] if d.cls != 'Static' else ['setattr'])
  if how == 'plain': new, exp = S.leaf("new", kinds), None
  else:
    e = choose_desc(S, "new", ['none', 'int', 'jarr'], *([cl, metas] if 'named' in metas else []))
    new = real(nnx, e)
    ok = compatible(d, e)
  before = vars(m)['a']
  try:
    if via == 'setattr': m.a = new
    elif via == 'update_state': m.update_state(nnx.State({'a': new}))
    else: m.mutable_state_dict()['a'].value = new
    raised = False
  except ValueError: raised = True
  if how == 'plain':
    S.check(not raised, "plain value keeps type and metadata", "rejected")
    w = d.with_value(new)
    S.check(matches(nnx, vars(m)['a'], w), "plain value keeps type and metadata", lambda: f"{vars(m)['a']!r} vs {w}")
    S.check(same(m.a, new), "reading gives the value")
  elif raised:
    S.check(NOT(ok), "compatible variable replaces the value", lambda: f"{d} <- {e} rejected")
    S.reach("incompatible variable rejected")
    S.check(matches(nnx, vars(m)['a'], d), "rejected assignment changes nothing", lambda: f"{vars(m)['a']!r} vs {d}")
    S.check(same(m.a, d.value), "rejected assignment changes nothing")
  else:
    S.check(ok, "incompatible variable rejected", lambda: f"{d} <- {e} accepted")
    S.reach("compatible variable replaces the value")
    w = d.with_value(e.value)
    S.check(matches(nnx, vars(m)['a'], w), "compatible variable replaces the value", lambda: f"{vars(m)['a']!r} vs {w}")
    S.check(matches(nnx, new, e), "no aliasing", lambda: f"the assigned object became {new!r}")
  S.check(matches(nnx, orig, d), "no aliasing", lambda: f"the original object became {orig!r}, was {d}")
  S.check(same(m.other, 5), "other attributes untouched")

def h_alias(S, nops=2, kinds=('none', 'int', 'jarr'), clss=('Param', 'Node', 'Static', 'Custom'), metas=('plain', 'meta', 'sharding')):
  """one variable object assigned in several places; programs of assignments"""
  nnx = S.nnx
  C = classes(nnx)
  d = choose_desc(S, "v", kinds, clss, metas)
  var = real(nnx, d)
  ms = [C['M'](), C['M']()]
  places = [(0, 'a'), (0, 'b'), (1, 'a')]
  exp = {}
  for i, n in places:
    setattr(ms[i], n, var); exp[i, n] = d
  for k in range(nops):
    op = S.choose(0, f"op{k}", values=['set', 'reassign', 'del', 'copyfrom', 'update', 'update alias', 'object', 'stored object'])
    i, n = S.choose(0, f"place{k}", values=places)
    if op in ('set', 'update'):
      v = S.leaf(f"new{k}", kinds)
      if op == 'set': setattr(ms[i], n, v)
      elif d.cls != 'Static' and (i, n) in exp: ms[i].update_state(nnx.State({n: v}))
      else: continue
      exp[i, n] = exp[i, n].with_value(v) if (i, n) in exp and isinstance(exp[i, n], Desc) else v
    elif op == 'reassign':
      if isinstance(exp.get((i, n)), Desc):
        if d.meta.get('tag') == ('changed',) or d.meta.get('sharding') == ('changed',): continue
        setattr(ms[i], n, var); exp[i, n] = exp[i, n].with_value(d.value)
      elif (i, n) not in exp: setattr(ms[i], n, var); exp[i, n] = d
    elif op == 'object':
      # the assigned object itself is changed
      if d.cls == 'Static': continue
      v = S.leaf(f"new{k}", kinds); var.value = v; d = d.with_value(v)
      if d.meta: key = next(iter(d.meta)); setattr(var, key, ('changed',)); d = Desc(d.cls, {**d.meta, key: ('changed',)}, v)
    elif op == 'stored object':
      if d.cls == 'Static' or not isinstance(exp.get((i, n)), Desc): continue
      v = S.leaf(f"new{k}", kinds); vars(ms[i])[n].value = v; exp[i, n] = exp[i, n].with_value(v)
    elif op == 'del':
      if (i, n) in exp: delattr(ms[i], n); del exp[i, n]
    elif op in ('copyfrom', 'update alias'):
      # the raw container of one place is assigned to another
      j, q = S.choose(0, f"from{k}", values=places)
      if (j, q) in exp and isinstance(exp[j, q], Desc):
        if (i, n) in exp and not isinstance(exp[i, n], Desc): continue
        if op == 'copyfrom' or d.cls == 'Static': setattr(ms[i], n, vars(ms[j])[q])
        else: ms[i].update_state(nnx.State({n: ms[j].get_state()[q]}))
        exp[i, n] = exp[j, q]
    for (i2, n2) in places:
      at = g.raw_attrs(nnx, ms[i2])
      S.check((n2 in at) == ((i2, n2) in exp), "no aliasing", lambda: f"presence of {n2}")
      if (i2, n2) in exp:
        e = exp[i2, n2]
        S.check(matches(nnx, at[n2], e) if isinstance(e, Desc) else same(at[n2], e), "no aliasing", lambda: f"module {i2}.{n2} is {at[n2]!r}, expected {e} after {op}")
    S.check(matches(nnx, var, d), "no aliasing", lambda: f"the variable object became {var!r}")
  # states do not alias later assignments either
  if d.cls != 'Static' and isinstance(exp.get((0, 'a')), Desc):
    st = ms[0].get_state()
    e = exp[0, 'a']
    ms[0].a = S.leaf("late", kinds)
    S.check(matches(nnx, st['a'], e), "no aliasing", lambda: f"an extracted state changed: {st['a']!r}")

def h_wrap(S, kinds=('none', 'int', 'jarr', 'tup0')):
  nnx = S.nnx
  d = choose_desc(S, "inner", kinds)
  e = choose_desc(S, "outer", ['none'])
  inner = real(nnx, d)
  ok = compatible(d, e)
  try:
    out = classes(nnx)[e.cls](inner, **e.meta); raised = False
  except ValueError: raised = True
  if raised:
    S.check(NOT(ok), "idempotent wrapping", lambda: f"{e.cls}({d}, {e.meta}) rejected")
    S.reach("incompatible wrapping rejected")
  else:
    S.check(ok, "incompatible wrapping rejected", lambda: f"{e.cls}({d}, {e.meta}) accepted")
    S.check(OR(matches(nnx, out, d), matches(nnx, out, e.with_value(d.value))), "idempotent wrapping", lambda: f"{out!r} vs {d}")
  S.check(matches(nnx, inner, d), "wrapping leaves the inner object", lambda: f"{inner!r}")

def h_replace(S, kinds=('none', 'int', 'jarr', 'list')):
  nnx = S.nnx
  d = choose_desc(S, "c", kinds)
  obj = real(nnx, d)
  cp = obj.copy()
  S.check(AND(matches(nnx, cp, d), cp is not obj), "replace", lambda: f"copy {cp!r}")
  how = S.choose(0, "how", values=['value', 'meta', 'both', 'unknown', 'container', 'unknown both'])
  nv, nt = S.leaf("nv", kinds), S.leaf("nt", ['none', 'str', 'tup'])
  key = next(iter(d.full()), None)
  if how in ('meta', 'both') and (key is None): return
  try:
    if how == 'value': r, w = obj.replace(value=nv), d.with_value(nv)
    elif how == 'meta': r, w = obj.replace(**{key: nt}), Desc(d.cls, {**d.full(), key: nt}, d.value)
    elif how == 'both': r, w = obj.replace(value=nv, **{key: nt}), Desc(d.cls, {**d.full(), key: nt}, nv)
    elif how == 'unknown': r, w = obj.replace(nosuch=1), None
    elif how == 'unknown both': r, w = obj.replace(value=nv, nosuch=1), None
    else: r, w = obj.replace(value=real(nnx, d.with_value(nv))), d.with_value(nv)
    S.check(w is not None, "unknown metadata rejected", lambda: f"{r!r}")
    S.check(matches(nnx, r, w), "replace", lambda: f"{r!r} vs {w}")
  except ValueError:
    S.check(how.startswith('unknown'), "replace", lambda: f"{how} of {d} rejected")
  S.check(matches(nnx, obj, d), "replace leaves the original", lambda: f"{obj!r}")

def h_metadata(S, kinds=('int', 'jarr')):
  """metadata attached by an initializer ends up in the variable"""
  nnx = S.nnx
  v, t = S.leaf("v", kinds), S.leaf("t", HM)
  meta = S.choose(0, "meta", values=[{}, {'sharding': ('a',)}, {'tag': t}, {'sharding': ('a', 'b'), 'tag': t}])
  extra = S.choose(0, "extra", values=[{}, {'other': 1}])
  cls = S.choose(0, "cls", values=['Param', 'Custom', 'Node'])
  init = nnx.with_metadata(lambda *a: v, **meta)
  p = classes(nnx)[cls](init(None, (1,)), **extra)
  want = Desc(cls, {**extra, **meta}, v)
  S.check(matches(nnx, p, want), "initializer metadata", lambda: f"{p!r} vs {want}")
  m = classes(nnx)['M'](); m.p = p
  S.check(matches(nnx, vars(m)['p'], want), "initializer metadata", lambda: f"{vars(m)['p']!r}")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  for c in (['Param', 'SubParam'], ['BatchStat', 'Custom'], ['Node', 'Static']):
    j(f"assign {c[0]} {c[1]}", "h_assign", clss=c)
  j("assign metadata names", "h_assign", clss=['Param', 'Node'], kinds=['none', 'jarr'], metas=['named'])
  j("alias two", "h_alias", nops=2)
  j("alias three", "h_alias", nops=3, kinds=['jarr'], clss=['Param', 'Node'] if T else ['Param'], metas=['meta'])
  if T: j("alias four", "h_alias", nops=4, kinds=['jarr'], clss=['Custom'], metas=['plain'])
  j("wrap", "h_wrap"); j("replace", "h_replace"); j("initializer metadata", "h_metadata")
  return J
