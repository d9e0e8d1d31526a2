"""C32 initializers with metadata and logical partitioning"""
import sys
import jax, jax.numpy as jnp, numpy as np
from jax.sharding import PartitionSpec as P, Mesh, NamedSharding
from sx.engine import AND, OR, NOT
from sx.proxies import same, choose_name
from sx import graphs as g, jx
from props.c21 import reference, names_of

BOUNDS = dict(
  quick="wrapping by with_metadata and with_logical_partitioning with opaque values and metadata, 0-2 dimension names (arbitrary), one rule, used twice, wrapped 2-3 times over, for every variable class; partitioned variables of 1-2 dimensions and 0-2 rules over two mesh axes (the assignment decided by an independent reference), mesh given, global, both or none, rules given, ambient, both or none, read at creation, from the module, after merge, copy, assignment, under jit and as kernel of Linear; scans of length 2-3 over layers with partitioned kernels (all array values, exact arithmetic)",
  thorough="three rules; every combination of mesh and rules for scans")
OUTSIDE = "meshes of several devices (a mesh of one device with two axes is used: the requested sharding is compared, not what XLA does with it); sharding lists"
ASSUMPTIONS = ["a sharding constraint does not change values (jax)"]
WITNESSES = ["same value as the wrapped initializer", "metadata attached", "sharding readable", "reading gives the value", "assignment keeps the metadata", "metadata not shared", "constrained as the rules say", "unconstrained without a mesh", "unconstrained without rules", "custom read function", "layers use the wrapped value", "survives split and merge", "partitioned layers in a scan"]

CLS = ['Param', 'BatchStat', 'Custom', 'Variable']
def h_wrapped(S, kinds=('jarr', 'int', 'none'), metas=('int', 'none', 'tup')):
  nnx = S.nnx
  C = g.classes(nnx)
  how = S.choose(0, "how", values=['metadata', 'logical'])
  cls = C[S.choose(0, "cls", values=CLS)]
  v, w = S.leaf("v", list(kinds)), S.leaf("w", list(kinds))
  calls = []
  def init(*a, **k):
    calls.append((a, k)); return v if len(calls) == 1 else w
  nd = S.choose(3, "ndims")
  dims = tuple(None if S.flip(f"d{i}none") else choose_name(S, f"d{i}", 3) for i in range(nd)) if how == 'logical' else ('a',)
  extra = {}
  if S.flip("extra"): extra['tag'] = S.leaf("tag", list(metas))
  rules = S.choose(0, "rules", values=['none', 'one', 'empty'])
  rules = dict(none=None, one=((choose_name(S, "rn", 3), choose_name(S, "rm", 1)),), empty=())[rules] if how == 'logical' else None
  if how == 'metadata':
    init_ = nnx.with_metadata(init, sharding=dims, **extra)
    want = dict(sharding=dims, **extra)
  else:
    rkw = {} if rules is None and S.flip("omit rules") else dict(rules=rules)
    init_ = nnx.with_logical_partitioning(init, dims, **rkw, **extra)
    want = dict(sharding=dims, mesh=None, rules=rules, **extra)
  S.check(not calls, "same value as the wrapped initializer", "called too early")
  args = ('key', (2, 3), jnp.float32)
  kw = S.flip("kw")
  r = init_(*args[:2], dtype=args[2]) if kw else init_(*args)
  S.check(calls == [(args[:2], dict(dtype=args[2])) if kw else (args, {})], "same value as the wrapped initializer", lambda: f"{calls}")
  # metadata given to the variable as well: added, the initializer's first
  vm = {}
  own = S.choose(0, "own metadata", values=['none', 'other', 'same'])
  if own == 'other': vm['mark'] = S.leaf("mark", list(metas))
  if own == 'same': vm.update(mark=1, **{k: S.leaf("clash " + k, list(metas)) for k in (('sharding', 'tag') if 'tag' in extra else ('sharding',))})
  x = cls(r, **vm)
  want = {**vm, **want}
  y = cls(init_(*args), **vm)
  S.check(len(calls) == 2, "same value as the wrapped initializer")
  def holds(c, val, lab):
    S.check(type(c) is cls and same(c.value, val), "same value as the wrapped initializer", lambda: f"{c}")
    d = {k: q for k, q in vars(c).items() if k != 'value'}
    u = d.pop('unbox_fn', None)
    S.check((u is not None) == (how == 'logical'), lab, lambda: f"{c}")
    S.check(AND(set(d) == set(want), *[same(d[k], want[k]) for k in want if k in d]), lab, lambda: f"{d} expected {want}")
  holds(x, v, "metadata attached"); holds(y, w, "metadata attached")
  x2 = x.replace(sharding=('changed',))
  holds(x, v, "metadata not shared"); holds(y, w, "metadata not shared")
  vars(x2)['sharding'] = None
  holds(y, w, "metadata not shared")
  m = C['A'](); m.p = x; m.q = y
  S.check(AND(same(m.p, v), same(m.q, w)), "reading gives the value", lambda: f"{m.p} {m.q}")
  st, md = m.partition()
  S.check(set(st) == {'p', 'q'}, "survives split and merge")
  holds(st['p'], v, "survives split and merge"); holds(st['q'], w, "survives split and merge")
  for back in (md.merge(st), m.clone(), st and md.merge(jax.tree_util.tree_map(lambda t: t, st, is_leaf=lambda t: isinstance(t, nnx.Node)))):
    S.check(AND(same(back.p, v), same(back.q, w)), "survives split and merge", lambda: f"{back.p} {back.q}")
    holds(vars(back)['p'], v, "survives split and merge")
  if v is not None and dims:
    spec = nnx.get_partition_spec(st)
    S.check(AND(isinstance(spec['p'], P), tuple(spec['p']) == dims if isinstance(spec['p'], P) else False), "sharding readable", lambda: f"{spec} {dims}")
  nv = S.leaf("nv", list(kinds))
  if g.isnode(S, nv) or not isinstance(nv, nnx.Node):
    m.p = nv
    S.check(same(m.p, nv), "assignment keeps the metadata", lambda: f"{m.p}")
    holds(vars(m)['p'], nv, "assignment keeps the metadata"); holds(vars(m)['q'], w, "metadata not shared")
    S.check(same(back.p, v), "metadata not shared")

def h_layers(S, kinds=('jarr', 'int', 'none')):
  """an initializer wrapped several times over"""
  nnx = S.nnx
  C = g.classes(nnx)
  cls = C[S.choose(0, "cls", values=CLS)]
  v = S.leaf("v", list(kinds))
  init_ = lambda *a: v
  n = 2 + S.choose(2, "layers")
  logical = S.choose(n + 1, "logical at")      # n: nowhere
  want = {}
  for i in range(n):      # from the inside out, the innermost metadata first
    meta = {f"m{i}": S.leaf(f"m{i}", ['int', 'none', 'tup'])}
    if S.flip(f"clash{i}"): meta['tag'] = S.leaf(f"tag{i}", ['int', 'none', 'tup'])
    if i == logical:
      dims = (choose_name(S, "d", 3), None)
      init_ = nnx.with_logical_partitioning(init_, dims, **meta)
      meta = dict(meta, sharding=dims, mesh=None, rules=None)
    else: init_ = nnx.with_metadata(init_, **meta)
    want = {**meta, **want}
  own = {'mark': S.leaf("mark", ['int', 'none'])} if S.flip("own") else {}
  x = cls(init_('key', (2, 3), jnp.float32), **own)
  if 'sharding' not in want: want['sharding'] = None
  want = {**own, **want}
  def holds(c, lab):
    S.check(AND(type(c) is cls, same(c.value, v)), "same value as the wrapped initializer", lambda: f"{c}")
    d = {k: q for k, q in vars(c).items() if k not in ('value', 'unbox_fn')}
    S.check(AND(set(d) == set(want), *[same(d[k], want[k]) for k in want if k in d]), lab, lambda: f"{d} expected {want}")
  holds(x, "metadata attached")
  m = C['A'](); m.p = x
  S.check(same(m.p, v), "reading gives the value", lambda: f"{m.p}")
  holds(vars(m.clone())['p'], "survives split and merge")

def h_unbox(S, kinds=('jarr', 'int', 'none', 'str')):
  """a read function given as metadata is applied to the stored variable whenever the attribute is read"""
  nnx = S.nnx
  C = g.classes(nnx)
  seen = []
  out = S.leaf("out", list(kinds))
  def unbox(var): seen.append((var, var.value)); return (out, var.value, vars(var).get('tag'))
  v = S.leaf("v", list(kinds)); nv = S.leaf("nv", list(kinds)); tag = S.leaf("tag", ['int', 'none'])
  cls = C[S.choose(0, "cls", values=CLS + ['Node'])]
  if S.flip("direct"): c = cls(v, unbox_fn=unbox, tag=tag)
  else: c = cls(nnx.with_metadata(lambda: v, unbox_fn=unbox, tag=tag)())
  m = C['A'](); sub = C['B'](); m.sub = sub
  own = m if S.flip("root") else sub
  own.p = c
  def read(o, val):
    seen.clear()
    r = o.p
    S.check(AND(len(seen) == 1, same(r[0], out), same(r[1], val), same(r[2], tag)), "custom read function", lambda: f"{r} {seen}")
    S.check(seen[0][0] is vars(o)['p'], "custom read function", "not applied to the stored variable")
  read(own, v)
  seen.clear()
  st, md = m.partition()
  pth = 'p' if own is m else 'sub/p'
  S.check(AND(list(st) == [pth], type(st[pth]) is cls, same(st[pth].value, v)), "survives split and merge", lambda: f"{st}")
  b = md.merge(st)
  read(b if own is m else b.sub, v)
  own.p = nv
  S.check(same(vars(own)['p'].value, nv), "assignment keeps the metadata"); read(own, nv)
  views = m.mutable_state_dict()
  r = views[pth].value
  S.check(AND(same(r[1], nv), same(r[0], out)), "custom read function", "view")

def constraint_specs(jaxpr):
  out = []
  for e in jaxpr.eqns:
    if e.primitive.name == 'sharding_constraint':
      sh = e.params['sharding']
      o = sh if isinstance(sh, NamedSharding) else getattr(sh, '_original_sharding', None)
      out.append((e, o.spec if isinstance(o, NamedSharding) else None))
  return out

def norm(t, n):
  t = tuple(tuple(names_of(q)) for q in t)
  return t + ((),) * (n - len(t))

def h_mesh(S, nr=2, where=('value', 'init', 'layer', 'merged', 'assigned', 'copied')):
  nnx = S.nnx
  D = ['a', 'b', None]
  nd = 1 + S.choose(2, "ndims-1")
  dims = tuple(S.choose(0, f"d{i}", values=D) for i in range(nd))
  RN, RM = ['a', 'b'], ['x', 'y', ('x', 'y'), None]
  rules = tuple((S.choose(0, f"r{i}", values=RN), S.choose(0, f"m{i}", values=RM)) for i in range(S.choose(nr + 1, "nrules")))
  mesh_how = S.choose(0, "mesh", values=['given', 'global', 'both', 'none'])
  rules_how = S.choose(0, "rules", values=['given', 'ambient', 'given over ambient'])
  at = S.choose(0, "where", values=list(where))
  if at == 'layer' and nd != 2: return
  mesh = Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('x', 'y'))
  kw = {}
  if mesh_how in ('given', 'both'): kw['mesh'] = mesh
  if rules_how != 'ambient': kw['rules'] = rules
  ambient = rules if rules_how == 'ambient' else (('a', 'y'), ('b', 'x')) if rules_how == 'given over ambient' else ()
  import contextlib
  @contextlib.contextmanager
  def env(on=True):
    with contextlib.ExitStack() as st:
      if on and mesh_how in ('global', 'both'): st.enter_context(mesh)
      st.enter_context(nnx.logical_axis_rules(ambient))
      yield
  shape = (2, 3)[:nd]
  def init(key, shape, dtype): return jax.random.uniform(key, shape).astype(dtype)
  winit = nnx.with_logical_partitioning(init, dims, **kw)
  ref = reference(dims, rules)
  active = mesh_how != 'none' and len(rules) > 0
  detail = lambda: f"dims {dims} rules {rules} ({rules_how}) mesh {mesh_how} at {at}"
  key = np.zeros((2,), np.uint32)
  x0 = np.arange(float(np.prod(shape)), dtype=np.float32).reshape(shape)
  def build():   # made without constraints of its own
    p = nnx.Param(jnp.asarray(x0), **{k: v for k, v in vars(nnx.Param(winit_meta())).items() if k != 'value'})
    m = g.classes(nnx)['A'](); m.p = p
    return m
  def winit_meta():
    r = nnx.with_logical_partitioning(lambda: 0, dims, **kw)
    if mesh_how in ('given', 'both'):
      # take the metadata without running the initializer under the mesh
      c = nnx.with_logical_partitioning(lambda: 0, None, **kw)()
      c.metadata = dict(c.metadata, sharding=dims)
      return c
    return r()
  err = None
  try:
    if at == 'init':
      with env(): jp = jax.make_jaxpr(lambda k: nnx.Param(winit(k, shape, jnp.float32)).value)(key)
      arg = None
    elif at == 'layer':
      m = None
      def f(k, inp):
        if mesh_how in ('given', 'both'): mm = nnx.Linear(2, 3, kernel_init=lambda *a: winit_arr(nnx, dims, kw, x0), use_bias=False, ctx=nnx.context(0))
        else: mm = nnx.Linear(2, 3, kernel_init=lambda *a: winit_arr(nnx, dims, kw, x0), use_bias=False, ctx=nnx.context(0))
        return mm(inp)
      with env(): jp = jax.make_jaxpr(lambda inp: f(None, inp))(np.ones((2, 2), np.float32))
    else:
      m = build()
      st, md = m.partition()
      def f(x):
        o = md.merge(st)
        if at == 'copied':
          import copy
          o = copy.copy(o)
        if at == 'assigned': o.p = x
        else: o.update_state(jax.tree_util.tree_map(lambda _: x, st))
        if at == 'merged': o = o.clone()
        return o.p
      with env(): jp = jax.make_jaxpr(f)(x0)
  except ValueError as ex: jp, err = None, ex
  if active and ref == 'dup':
    S.check(err is not None, "constrained as the rules say", lambda: f"no error for duplicate names; {detail()}"); return
  S.check(err is None, "constrained as the rules say", lambda: f"{err!r}; {detail()}")
  cs = constraint_specs(jp.jaxpr)
  if not active:
    S.check(not cs, "unconstrained without a mesh" if mesh_how == 'none' else "unconstrained without rules", lambda: f"{jp}; {detail()}")
  else:
    S.check(len(cs) >= 1, "constrained as the rules say", lambda: f"no constraint; {detail()}")
    for e, spec in cs:
      S.check(spec is not None and norm(tuple(spec), nd) == norm(ref[0], nd), "constrained as the rules say", lambda: f"{spec} expected {ref[0]}; {detail()}")
  if at in ('value', 'merged', 'assigned', 'copied'):
    out = jax.core.eval_jaxpr(jp.jaxpr, jp.consts, x0 + 1)
    S.check(len(out) == 1 and np.array_equal(out[0], x0 + 1), "reading gives the value", detail)

def winit_arr(nnx, dims, kw, x0):
  r = nnx.with_logical_partitioning(lambda: 0, None, **kw)
  c = r()
  c.metadata = dict(c.metadata, sharding=dims)
  c.value = jnp.asarray(x0)
  return c

def h_values(S):
  """layers with partitioned parameters compute what they compute with plain ones"""
  nnx = S.nnx
  layer = S.choose(0, "layer", values=['Linear', 'Embed', 'Conv', 'LayerNorm'])
  mesh_how = S.choose(0, "mesh", values=['given', 'global', 'none'])
  amb = S.flip("ambient rules")
  mesh = Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('x', 'y'))
  rules = (('in', 'x'), ('out', 'y'))
  kw = {} if mesh_how != 'given' else dict(mesh=mesh)
  if not amb: kw['rules'] = rules
  I = jx.Inputs(S); I.key("key")
  if layer == 'Embed': I.int("x", (2,), lo=0, hi=2)
  elif layer == 'Conv': I.f32("x", (1, 3, 2))
  else: I.f32("x", (2, 2))
  def init(key, shape, dtype): return jax.random.uniform(key, shape).astype(dtype)
  def run(inp, wrap):
    import contextlib
    lp = (lambda names: nnx.with_logical_partitioning(init, names, **kw)) if wrap else (lambda names: init)
    ctx = nnx.context(params=inp["key"])
    with contextlib.ExitStack() as es:
      if wrap and mesh_how == 'global': es.enter_context(mesh)
      if wrap and amb: es.enter_context(nnx.logical_axis_rules(rules))
      if layer == 'Linear': m = nnx.Linear(2, 3, kernel_init=lp(('in', 'out')), bias_init=lp(('out',)), ctx=ctx)
      elif layer == 'Embed': m = nnx.Embed(3, 2, embedding_init=lp(('out', None)), ctx=ctx)
      elif layer == 'Conv': m = nnx.Conv(2, 2, (2,), kernel_init=lp((None, 'in', 'out')), bias_init=lp(('out',)), ctx=ctx)
      else: m = nnx.LayerNorm(2, scale_init=lp(('in',)), bias_init=lp((None,)), ctx=ctx)
      if wrap:
        sh = {n: vars(p).get('sharding') for n, p in m.get_state().items()}
        want = dict(Linear=dict(kernel=('in', 'out'), bias=('out',)), Embed=dict(embedding=('out', None)), Conv=dict(kernel=(None, 'in', 'out'), bias=('out',)), LayerNorm=dict(scale=('in',), bias=(None,)))[layer]
        S.check(sh == want, "metadata attached", lambda: f"{sh} {want}")
      y = m(inp["x"])
      o = m.clone()
      return y, o(inp["x"]), {n: p.value for n, p in m.get_state().items()}
  jx.agree(S, I, lambda i: run(i, True), lambda i: run(i, False), "layers use the wrapped value", f"{layer} mesh {mesh_how} ambient {amb}")

def h_scan(S, combos=(('none', False), ('given', False), ('global', True))):
  """stacked layers whose kernels are partitioned: the same values as plain ones, sharding with the layer axis outside"""
  nnx = S.nnx
  mesh_how, amb = S.choose(0, "mode", values=[tuple(c) for c in combos])
  axis = S.choose(0, "axis", values=[0, 1])
  L = 2 + S.choose(2, "length-2")
  mesh = Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('x', 'y'))
  rules = (('in', 'x'), ('layers', 'y'))
  kw = dict(mesh=mesh) if mesh_how == 'given' else {}
  if not amb: kw['rules'] = rules
  I = jx.Inputs(S); I.f32("x", (1, 2)); I.key("key")
  def init(key, shape, dtype): return jax.random.uniform(key, shape).astype(dtype)
  def run(inp, wrap):
    import contextlib
    k = nnx.with_logical_partitioning(init, ('in', None), **kw) if wrap else init
    class Layer(nnx.Module):
      def __init__(self, *, ctx): self.lin = nnx.Linear(2, 2, kernel_init=k, use_bias=False, ctx=ctx)
      def __call__(self, x, _):
        if wrap: S.check(vars(self.lin)['kernel'].sharding == ('in', None), "partitioned layers in a scan", lambda: f"inside: {vars(self.lin)['kernel'].sharding}")
        return self.lin(x), None
    with contextlib.ExitStack() as es:
      if wrap and mesh_how == 'global': es.enter_context(mesh)
      if wrap and amb: es.enter_context(nnx.logical_axis_rules(rules))
      opts = dict(variable_axes={nnx.Param: axis}, length=L, split_rngs=['params'])
      if wrap: opts['metadata_params'] = {nnx.PARTITION_NAME: 'layers'}
      m = nnx.Scan(Layer, **opts)(ctx=nnx.context(params=inp["key"]))
      kern = vars(m.scan_module.lin)['kernel']
      if wrap:
        w = ['in', None]; w.insert(axis, 'layers')
        S.check(kern.sharding == tuple(w), "partitioned layers in a scan", lambda: f"{kern.sharding} {w}")
      v = m.scan_module.lin.kernel
      y, _ = m(inp["x"], None)
      return y, v, kern.value
  jx.agree(S, I, lambda i: run(i, True), lambda i: run(i, False), "partitioned layers in a scan", f"mesh {mesh_how} ambient {amb} axis {axis} length {L}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, world=None, **cfg):
    d = dict(name=name, fn=fn, cfg=cfg)
    if world: d['world'] = world
    J.append(d)
  j("wrapped", "h_wrapped")
  j("unbox", "h_unbox")
  j("wrapped several times", "h_layers")
  for w in ('value', 'init', 'layer', 'merged', 'assigned', 'copied'):
    j(f"mesh {w}", "h_mesh", world='plain', where=[w], nr=2 if T or w in ('value', 'init') else 1)
  j("values", "h_values", world='plain')
  j("scan", "h_scan", world='plain', **(dict(combos=[[a, b] for a in ('none', 'given', 'global') for b in (False, True)]) if T else {}))
  if T: j("mesh value three", "h_mesh", world='plain', where=['value'], nr=3)
  return J
