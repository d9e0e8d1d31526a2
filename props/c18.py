"""C18 initialisation through nnx.scan / nnx.Scan"""
import jax, jax.numpy as jnp, numpy as np
from sx import jx
from props.c17 import split_pred, take

BOUNDS = dict(
  quick="1-3 layers; constructors = programs of <= 2 creations (out of 16: variables of 4 classes, raw arrays, submodules, shared and cyclic submodules, draws from 3 streams declared in 2 orders, constructor arguments) after a fixed parameter; variable_axes assigning classes, unions, predicates to axes 0, 1, -1; every way to name the split streams; through nnx.scan on __init__, nnx.scan with is_init, nnx.Scan, nnx.Scan of nnx.Remat and nested nnx.Scan; with or without context; all keys and argument values (random bits are uninterpreted functions of the key)",
  thorough="programs of 3 creations, 4 layers")
OUTSIDE = "variables that are not axis-mapped but depend on a split stream (rejected by JAX), more than two nested scans"
ASSUMPTIONS = ["random bits and key derivations are uninterpreted functions", "layer i of a split stream uses the i-th key of jax.random.split of the stream's forked key"]
WITNESSES = ["stack of the constructor results", "same structure as one layer", "split streams differ, others do not", "missing length rejected", "not a context rejected", "context afterwards", "nested"]

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class Cache(nnx.Variable): pass
    class Const(nnx.Variable): pass
    class Sub(nnx.Module): pass
    _C[id(nnx)] = dict(Cache=Cache, Const=Const, Sub=Sub)
  return _C[id(nnx)]

# creation -> (class name, stream or None)
MAKES = dict(w=('Param', 'params'), wd=('Param', 'dropout'), v=('Cache', 'params'), vd=('Cache', 'dropout'), wn=('Param', 'noise'), b=('BatchStat', None), bd=('BatchStat', 'dropout'), k=('Const', None),
             kp=('Const', 'params'), r=('None_', None), rd=('None_', 'dropout'), sub=('Param', 'params'), cyc=('Param', 'params'), arg=('Param', None), two=('Param', 'both'), static=(None, None))
def make(nnx, m, prog, args, kw, ctx):
  C = classes(nnx)
  def draw(name, sh=(2,)): return jax.random.uniform(ctx.make_rng(name), sh) if ctx is not None and ctx.has_rng(name) else jnp.full(sh, 0.25)
  m.seen = nnx.Static(None if ctx is None else (ctx.get_flag('train'), ctx.has_flag('other'), ctx.has_rng('noise')))
  m.other = nnx.Static((tuple(q for q in args if not hasattr(q, 'shape')), tuple(sorted((n, q) for n, q in kw.items() if not hasattr(q, 'shape')))))
  args = [q for q in args if hasattr(q, 'shape')]; kw = {n: q for n, q in kw.items() if hasattr(q, 'shape')}
  m.w0 = nnx.Param(draw('params'), sharding=('d',))
  for i, op in enumerate(prog):
    n = f"n{i}"
    cls, st = MAKES[op]
    if op == 'static': setattr(m, n, 'text'); m.num = 3; m.stat = nnx.Static((1, 2)); continue
    if op == 'arg':
      a = m.w0 * 0
      for q in args: a = a + q
      for q in kw.values(): a = a * q
      setattr(m, n, nnx.Param(a)); continue
    if op == 'two': setattr(m, n, nnx.Param(draw('dropout') * draw('params') + draw('params'))); continue
    if op in ('sub', 'cyc'):
      s = C['Sub'](); s.w = nnx.Param(draw('params')); s.c = nnx.BatchStat(jnp.zeros(())); setattr(m, n, s); setattr(m, n + 'again', s)
      if op == 'cyc': s.up = m
      continue
    v = draw(st, (2, 3) if op == 'v' else (2,)) if st else jnp.ones((2,)) * (2 + i) + (sum(jnp.sum(q) for q in args) if args else 0)
    if cls == 'None_': setattr(m, n, v)
    else: setattr(m, n, (C.get(cls) or getattr(nnx, cls))(v, **(dict(tag=i) if i else {})))

def roles(nnx, name):
  C = classes(nnx); P, B, Ca, Co = nnx.Param, nnx.BatchStat, C['Cache'], C['Const']
  base = dict(Param='c', Cache='c', BatchStat='c', Const='c', None_='c')
  return {
    'P0': lambda: (dict(base, Param=0), dict(variable_axes={P: 0})),
    'P1': lambda: (dict(base, Param=1), dict(variable_axes={P: 1})),
    'P-1': lambda: (dict(base, Param=-1), dict(variable_axes={P: -1})),
    'P0 V1': lambda: (dict(base, Param=0, Cache=1, Const='b'), dict(variable_axes={P: 0, Ca: 1}, variable_broadcast=Co)),
    'V1 P0': lambda: (dict(base, Param=0, Cache=1, Const='b'), dict(variable_axes={Ca: 1, P: 0}, variable_broadcast=Co, variable_carry=...)),
    'union': lambda: (dict(base, Param=1, Cache=1, BatchStat='b'), dict(variable_axes={(P, Ca): 1}, variable_broadcast=B)),
    'Variable': lambda: (dict(base, Param=0, Cache=0, BatchStat=0, Const=0), dict(variable_axes={nnx.Variable: 0})),
    'all': lambda: (dict(base, Param=0, Cache=0, BatchStat=0, Const=0, None_=0), dict(variable_axes={(lambda p, v: True): 0})),
    'carry all': lambda: (dict(base), dict()),
  }[name]()
ROLES = ['P0', 'P1', 'P-1', 'P0 V1', 'V1 P0', 'union', 'Variable', 'all', 'carry all']
SPLITS = {'none': None, 'params': 'params', 'list': ['params'], 'dict': {'params': True, 'dropout': False}, 'all': ..., 'two': ('params', 'dropout'), 'drop': 'dropout', 'noise': ['noise'], 'pred': lambda n: n == 'params'}

def leaves(nnx, m):
  """(structure, values) of everything reachable"""
  from sx.progs import facts
  f, vals, order = facts(nnx, m)
  out = []
  for cls, rec in f: out.append((cls.__name__, {n: (e if e[0] != 'node' else ('node', e[1], {k: v for k, v in e[2].items() if v is not None})) for n, e in rec.items()}))
  kinds = {}
  for i, t in enumerate(order):
    for n, v in vars(t).items():
      if f"{i}.{n}" in vals: kinds[f"{i}.{n}"] = type(v).__name__ if isinstance(v, nnx.Node) else 'None_'
  return out, vals, kinds

def allowed(op, role, split, noctx):
  cls, st = MAKES[op]
  if cls is None or noctx: return True
  streams = {'params': ['params'], 'dropout': ['dropout'], 'noise': ['noise'], 'both': ['params', 'dropout'], None: []}[st]
  if isinstance(role[cls], str) and any(split(s) for s in streams): return False
  return True

def h_init(S, roles_=('P0',), makes=tuple(MAKES), nops=1, lengths=(2,), splits=('params',), entries=('decorator', 'Scan'), ctxs=(True,), orders=('unsorted',)):
  nnx = S.nnx
  C = classes(nnx)
  rname = S.choose(0, "roles", values=list(roles_))
  role, opts = roles(nnx, rname)
  sname = S.choose(0, "split", values=list(splits)); split = split_pred(SPLITS[sname])
  usectx = S.choose(0, "ctx", values=list(ctxs))
  if usectx is True and not allowed('w', role, split, False): return
  prog = []
  for k in range(nops):
    prog.append(S.choose(0, f"make{k}", values=[o for o in makes if allowed(o, role, split, usectx is not True)]))
  L = S.choose(0, "length", values=list(lengths))
  entry = S.choose(0, "entry", values=list(entries))
  detail = f"{rname} {prog} L={L} split={sname} {entry} ctx={usectx}"
  o = dict(opts, length=L)
  if sname != 'none': o['split_rngs'] = SPLITS[sname]
  if entry == 'kwargs defaults': pass
  I = jx.Inputs(S)
  I.key("key"); I.key("key2"); I.key("key3"); I.f32("a", (2,)); I.f32("b", ())
  withargs = 'arg' in prog or 'b' in prog
  rec = {}
  order = S.choose(0, "stream order", values=list(orders))
  class Layer(nnx.Module):
    def __init__(self, *args, ctx=None, **kw): make(nnx, self, prog, args, kw, ctx)
  def given(inp):
    args = (inp["a"],) if withargs else (); kw = dict(z=inp["b"]) if 'arg' in prog else {}
    if 'arg' in prog: args += (None, 'tag', False); kw.update(opt=None, off=False, zero=0, mode='two')
    # streams are declared in no particular order, the constructor may use some of them
    if usectx == 'flags only': return args, kw, nnx.context(flags=dict(train=True))
    if usectx == 'empty': return args, kw, nnx.context()
    ctx = (nnx.context(noise=inp["key3"], dropout=inp["key2"], params=inp["key"], flags=dict(train=True)) if order == 'unsorted' else
           nnx.context(dropout=inp["key2"], noise=inp["key3"], params=inp["key"], flags=dict(train=True))) if usectx else None
    return args, kw, ctx
  def find(m, name, seen):
    if type(m).__name__ == name: return m
    if id(m) in seen: return None
    seen.add(id(m))
    for v in vars(m).values():
      if isinstance(v, nnx.Module):
        q = find(v, name, seen)
        if q is not None: return q
  def real(inp):
    args, kw, ctx = given(inp)
    if ctx is not None: kw['ctx'] = ctx
    if entry == 'decorator':
      class Layer2(nnx.Module):
        @(lambda f: nnx.scan(f, **o))
        def __init__(self, *args, ctx=None, **kw): make(nnx, self, prog, args, kw, ctx)
      Layer2.__name__ = 'Layer'
      m = Layer2(*args, **kw)
    elif entry == 'is_init':
      class Layer3(nnx.Module):
        def __init__(self, *args, **kw): self.setup(*args, **kw)
        def setup(self, *args, ctx=None, **kw): make(nnx, self, prog, args, kw, ctx)
      Layer3.setup = nnx.scan(Layer3.setup, is_init=True, **o)
      Layer3.__name__ = 'Layer'
      m = Layer3(*args, **kw)
    elif entry == 'Scan': m = find(nnx.Scan(Layer, **o)(*args, **kw), 'Layer', set())
    elif entry == 'Scan Remat': m = find(nnx.Scan(nnx.Remat(Layer), **o)(*args, **kw), 'Layer', set())
    elif entry == 'Remat Scan': m = find(nnx.Remat(nnx.Scan(Layer, **o))(*args, **kw), 'Layer', set())
    S.check(m is not None, "same structure as one layer", "no layer found")
    st, vals, kinds = leaves(nnx, m)
    rec['r'] = (st, kinds)
    tail = [jax.random.uniform(ctx.make_rng(n), (2,)) for n in ('params', 'dropout', 'noise') if ctx.has_rng(n)] if ctx is not None else []
    return vals, tail
  def ref(inp):
    args, kw, ctx = given(inp)
    stack = None
    res = []
    if ctx is not None:
      pc = ctx.partition()
      sk = {n: (jax.random.split(k, L) if split(n) else k) for n, k in pc.keys.items()}
    for i in range(L):
      c = pc.contextdef.merge({n: (k[i] if split(n) else k) for n, k in sk.items()}) if ctx is not None else None
      res.append(leaves(nnx, Layer(*args, ctx=c, **kw)))
    st, v0, kinds = res[0]
    out = {}
    for n in v0:
      r = role[kinds[n]]
      out[n] = v0[n] if isinstance(r, str) else jnp.stack([q[1][n] for q in res], axis=r)
    if 'r' in rec:
      S.check(rec['r'][0] == st, "same structure as one layer", lambda: f"{rec['r'][0]} expected {st}; {detail}")
      S.check(rec['r'][1] == kinds, "same structure as one layer", detail)
    tail = [jax.random.uniform(ctx.make_rng(n), (2,)) for n in ('params', 'dropout', 'noise') if ctx.has_rng(n)] if ctx is not None else []
    return out, tail
  S.reach("context afterwards"); S.reach("split streams differ, others do not")
  jx.agree(S, I, real, ref, "stack of the constructor results", detail)

def h_nested(S):
  """a scanned module inside a scanned module, initialised and applied"""
  nnx = S.nnx
  s1 = S.choose(0, "outer split", values=['none', 'params']); s2 = S.choose(0, "inner split", values=['none', 'params'])
  a1, a2 = S.choose(0, "axes", values=[(0, 0), (1, 0), (0, 1), (-1, 0)])
  how = S.choose(0, "how", values=['Scan Scan', 'decorated in Scan'])
  L1, L2 = 2, 3
  I = jx.Inputs(S); I.key("key"); I.f32("x", (2,))
  class Leaf(nnx.Module):
    def __init__(self, *, ctx): self.w = nnx.Param(jax.random.uniform(ctx.make_rng('params'), (2,)))
    def __call__(self, x, _): return x * self.w + 1, None
  S1, S2 = SPLITS[s1], SPLITS[s2]
  o2 = dict(variable_axes={nnx.Param: a2}, split_rngs=S2, length=L2)
  o1 = dict(variable_axes={nnx.Param: a1}, split_rngs=S1, length=L1)
  class Deco(nnx.Module):
    @(lambda f: nnx.scan(f, **o2))
    def __init__(self, *, ctx): self.w = nnx.Param(jax.random.uniform(ctx.make_rng('params'), (2,)))
    @(lambda f: nnx.scan(f, **o2))
    def __call__(self, x, _): return x * self.w + 1, None
  def real(inp):
    ctx = nnx.context(params=inp["key"])
    m = nnx.Scan(nnx.Scan(Leaf, **o2) if how == 'Scan Scan' else Deco, **o1)(ctx=ctx)
    (p, w), = m.get_state().items()
    y, _ = m(inp["x"], None)
    return w.value, y
  def ref(inp):
    ctx = nnx.context(params=inp["key"])
    pc = ctx.partition(); p1, p2 = split_pred(S1), split_pred(S2)
    k1 = {n: (jax.random.split(k, L1) if p1(n) else k) for n, k in pc.keys.items()}
    rows, x = [], inp["x"]
    for i in range(L1):
      c = pc.contextdef.merge({n: (k[i] if p1(n) else k) for n, k in k1.items()}).partition()
      k2 = {n: (jax.random.split(k, L2) if p2(n) else k) for n, k in c.keys.items()}
      ws = []
      for j in range(L2):
        l = Leaf(ctx=c.contextdef.merge({n: (k[j] if p2(n) else k) for n, k in k2.items()}))
        ws.append(l.w); x = x * l.w + 1
      rows.append(jnp.stack(ws, axis=a2))
    return jnp.stack(rows, axis=a1), x
  S.reach("nested")
  jx.agree(S, I, real, ref, "stack of the constructor results", f"nested {how} {s1} {s2} axes {a1} {a2}")

def h_reject(S):
  nnx = S.nnx
  axes = S.flip("axes"); spl = S.flip("split"); usectx = S.flip("ctx"); giveL = S.flip("length")
  entry = S.choose(0, "entry", values=['decorator', 'Scan'])
  bad = S.choose(0, "context", values=['good', 'number', 'pure', 'key', 'dict']) if usectx else 'good'
  o = {}
  if axes: o['variable_axes'] = {nnx.Param: 0}
  if spl: o['split_rngs'] = 'params'
  if giveL: o['length'] = 2
  def body(self, ctx=None): self.w = nnx.Param(jnp.ones((3,)))
  class Layer(nnx.Module):
    def __init__(self, *, ctx=None): body(self, ctx)
  class Deco(nnx.Module):
    @(lambda f: nnx.scan(f, **o))
    def __init__(self, *, ctx=None): body(self, ctx)
  def go():
    kw = {}
    if usectx:
      c = nnx.context(0)
      kw['ctx'] = {'good': c, 'number': 0, 'pure': c.partition(), 'key': jax.random.PRNGKey(0), 'dict': {}}[bad]
    return (Deco if entry == 'decorator' else nnx.Scan(Layer, **o))(**kw)
  want = None
  if (axes or (spl and usectx and bad == 'good')) and not giveL: want = ValueError
  elif bad != 'good': want = TypeError
  lab = "missing length rejected" if want is ValueError else "not a context rejected" if want is TypeError else "same structure as one layer"
  try: m = go(); err = None
  except Exception as e: err = e; m = None
  if want is None:
    S.check(err is None, lab, lambda: f"{type(err)}: {err} {o} ctx={usectx}")
    (p, w), = m.get_state().items()
    S.check(w.value.shape == ((2, 3) if axes else (3,)), lab, lambda: f"{w.value.shape} {o}")
  else: S.check(isinstance(err, (ValueError, TypeError) if bad != 'good' and want is ValueError else want), lab, lambda: f"{o} ctx={bad}: {type(err)} {err}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=3))
  for r in ROLES:
    j(f"roles {r}", "h_init", roles_=[r], lengths=[1, 2, 3] if r in ('P0', 'P0 V1') else [2, 3], splits=['params', 'none', 'all'], entries=['decorator', 'Scan', 'is_init'] if r == 'P0' else ['decorator', 'Scan'])
  j("splits", "h_init", roles_=['P0', 'P0 V1', 'all'], makes=['w', 'wd', 'wn', 'vd', 'two', 'rd', 'b'], orders=['unsorted', 'sorted'], splits=list(SPLITS), lengths=[2], entries=['decorator', 'Scan'])
  j("entries", "h_init", roles_=['P0', 'V1 P0', 'carry all'], splits=['params', 'none'], lengths=[2], entries=['decorator', 'Scan', 'is_init', 'Scan Remat', 'Remat Scan'])
  j("no context", "h_init", roles_=['P0', 'P1', 'carry all', 'P0 V1'], lengths=[2, 3], splits=['params', 'none'], ctxs=[False])
  j("no streams", "h_init", roles_=['P0', 'carry all'], makes=['w', 'b', 'sub'], lengths=[2], splits=['params', 'none', 'all'], ctxs=['flags only', 'empty'], entries=['decorator', 'Scan', 'is_init'])
  j("two", "h_init", roles_=['P0 V1'], nops=2, lengths=[2], splits=['params', 'two'])
  j("two all", "h_init", roles_=['Variable'], nops=2, lengths=[2], splits=['all', 'none'], makes=['w', 'wd', 'vd', 'b', 'sub', 'arg'])
  j("nested", "h_nested")
  j("reject", "h_reject")
  if T:
    for r in ('P0 V1', 'union', 'V1 P0'): j(f"three {r}", "h_init", roles_=[r], nops=3, lengths=[3], splits=['params', 'list'], makes=['w', 'v', 'b', 'bd', 'sub', 'cyc', 'arg', 'two', 'kp', 'r'])
    for r in ROLES: j(f"two {r}", "h_init", roles_=[r], nops=2, lengths=[2, 4], splits=['params', 'none', 'all', 'drop'])
  return J
