"""C17 nnx.scan equals the loop over the layers"""
import jax, jax.numpy as jnp, numpy as np
from sx import jx
from sx.graphs import less

BOUNDS = dict(
  quick="scans of length 1-3 over layers with <= 2 modules (alone, nested, shared, cyclic), each with a Param, a Cache, a BatchStat, a Const variable, a raw array and statics; layer methods = programs of <= 2 operations (out of 19); variable_axes assigning classes, unions and predicates to axes 0, 1, -1, broadcast and carried filters, in_axes and out_axes 0, 1, -1 and per leaf, reverse, unroll 1-3, every way to name the split streams, calls through nnx.scan on functions and methods, nnx.Scan, its call accessor and nested accessors, inside nnx.jit, nnx.grad and another scan, two calls in a row; all array values and keys (exact arithmetic)",
  thorough="all pairs of operations for the main axis assignments, three operations on the core set, every combination of reverse, unroll and length with created variables")
OUTSIDE = "writes to existing broadcast variables (they have no effect outside of the step), deleting nodes or changing their type inside the method, data_transform (unused by the code), scans of length 0"
ASSUMPTIONS = ["floats are exact reals, random bits and key derivations are uninterpreted functions", "step i of a split stream uses the i-th key of jax.random.split of the stream's forked key"]
WITNESSES = ["same carry, outputs and state as the loop", "identities and statics kept", "inconsistent lengths rejected", "missing length rejected", "wrong length rejected", "rejection changes nothing", "created variables", "keys", "accessor", "inside jit", "inside grad", "nested scan"]

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class Cache(nnx.Variable): pass
    class Const(nnx.Variable): pass
    class Sub(nnx.Module):
      def go(self, acc, x, *a, **k): return body_of(self)(self, acc, x, *a, **k)
    class Layer(nnx.Module):
      def __init__(self, make=None):
        if make is not None: make(self)
      def __call__(self, acc, x, *a, **k): return body_of(self)(self, acc, x, *a, **k)
      def go(self, acc, x, *a, **k): return body_of(self)(self, acc, x, *a, **k)
    _C[id(nnx)] = dict(Cache=Cache, Const=Const, Sub=Sub, Layer=Layer)
  return _C[id(nnx)]
_B = {}
def body_of(m): return _B['f']

# nodes: name -> (module, attribute, class name, shape of one layer)
NODES = {"0.w": ('Param', (2,)), "0.v": ('Cache', (2, 3)), "0.c": ('BatchStat', ()), "0.b": ('Const', (2,)), "0.r": (None, (2,)),
         "1.w": ('Param', (2,)), "1.c": ('BatchStat', ())}
META = {"0.w": dict(sharding=('d',)), "0.v": dict(tag='x')}
GRAPHS = dict(single=[], sub=[(0, 'p', 1)], shared=[(0, 'p', 1), (0, 'q', 1)], cycle=[(0, 'p', 1), (1, 'up', 0)])

def roles(nnx, name):
  """class name -> axis | 'b' | 'c', and the nnx options"""
  C = classes(nnx)
  Ca, Co = C['Cache'], C['Const']
  P, B = nnx.Param, nnx.BatchStat
  base = dict(Param='c', Cache='c', BatchStat='c', Const='c', None_='c')
  def mk(opts, **kw): return {**base, **kw}, opts
  return {
    'P0': lambda: mk(dict(variable_axes={P: 0}), Param=0),
    'P1': lambda: mk(dict(variable_axes={P: 1}), Param=1),
    'P-1': lambda: mk(dict(variable_axes={P: -1}), Param=-1),
    'P0 V1 b': lambda: mk(dict(variable_axes={P: 0, Ca: 1}, variable_broadcast=Co), Param=0, Cache=1, Const='b'),
    'P1 V2 b': lambda: mk(dict(variable_axes={P: 1, Ca: 2}, variable_broadcast=Co), Param=1, Cache=2, Const='b'),
    'P1 V0': lambda: mk(dict(variable_axes={P: 1, Ca: 0}), Param=1, Cache=0),
    'V2 P0 b': lambda: mk(dict(variable_axes={Ca: 2, P: 0}, variable_broadcast=Co), Param=0, Cache=2, Const='b'),
    'V0 P1': lambda: mk(dict(variable_axes={Ca: 0, P: 1}), Param=1, Cache=0),
    'V-1': lambda: mk(dict(variable_axes={Ca: -1}, variable_broadcast=(P, Co), variable_carry=...), Cache=-1, Param='b', Const='b'),
    'union': lambda: mk(dict(variable_axes={(P, Ca): 1}, variable_broadcast=Co), Param=1, Cache=1, Const='b'),
    'pred': lambda: mk(dict(variable_axes={(lambda path, v: path.split('/')[-1] in ('w', 'nw', 'v')): 0}, variable_broadcast=(lambda path, v: path.split('/')[-1] in ('b', 'nb')), variable_carry=...), Param=0, Cache=0, Const='b'),
    'explicit': lambda: mk(dict(variable_axes={P: 0}, variable_broadcast=(Co, Ca), variable_carry=(B, lambda path, v: path.split('/')[-1] in ('r', 'nr'))), Param=0, Cache='b', Const='b'),
    'raw axis': lambda: mk(dict(variable_axes={P: 0, (lambda path, v: path.split('/')[-1] in ('r', 'nr')): 1}, variable_broadcast=Co), Param=0, None_=1, Const='b'),
    'carry all': lambda: mk(dict()),
  }[name]()
ROLES = ['P0', 'P1', 'P-1', 'P0 V1 b', 'P1 V2 b', 'V0 P1', 'P1 V0', 'V2 P0 b', 'V-1', 'union', 'pred', 'explicit', 'raw axis', 'carry all']

def clsname(nnx, v):
  if isinstance(v, nnx.Node): return type(v).__name__
  return 'None_'

def present(graph): return [n for n in NODES if n[0] == '0' or graph != 'single']

def stack_shape(sh, axis, L):
  sh = list(sh); n = len(sh) + 1
  sh.insert(axis if axis >= 0 else axis + n, L)
  return tuple(sh)

def inputs(S, role, graph, L):
  I = jx.Inputs(S)
  for n in present(graph):
    c, sh = NODES[n]
    r = role[c or 'None_']
    I.f32(n, sh if r in ('b', 'c') else stack_shape(sh, r, L))
  return I

def populate(nnx, m, graph, vals, sub=None):
  """fill module m (and its submodule) from vals: name -> (class or None, metadata, value)"""
  C = classes(nnx)
  ms = [m]
  if graph != 'single': ms.append(sub if sub is not None else C['Sub']())
  for n, (cls, meta, v) in vals.items():
    setattr(ms[int(n[0])], n[2:], cls(v, **meta) if cls is not None else v)
  for i, t in enumerate(ms): t.k = 3 + i
  ms[0].st = nnx.Static('s')
  for a, nm, b in GRAPHS[graph]: setattr(ms[a], nm, ms[b])
  return ms

def start(nnx, graph, inp):
  C = classes(nnx)
  get = lambda c: None if c is None else C.get(c) or getattr(nnx, c)
  return {n: (get(NODES[n][0]), META.get(n, {}), inp[n]) for n in present(graph)}

def read(nnx, ms):
  out = {}
  for i, t in enumerate(ms):
    for n, v in vars(t).items():
      if n.startswith('_module__') or isinstance(v, (nnx.Module, nnx.Static)): continue
      if isinstance(v, nnx.Node): out[f"{i}.{n}"] = (type(v), {k: q for k, q in vars(v).items() if k != 'value'}, v.value)
      elif isinstance(v, (jax.Array, np.ndarray)): out[f"{i}.{n}"] = (None, {}, v)
  return out

def step(nnx, op, k, t, acc, x, args, kw, ctx):
  C = classes(nnx)
  xa = x['a'] if isinstance(x, dict) else x
  if op == 'w': acc = acc * t.w + xa
  elif op == 'w=': t.w = t.w * acc
  elif op == 'v': acc = acc + jnp.sum(t.v * jnp.array([1., 2., 3.]), axis=-1) if hasattr(t, 'v') else acc
  elif op == 'v=':
    if hasattr(t, 'v'): t.v = t.v + acc[:, None] * jnp.array([1., 2., 3.])
  elif op == 'c=': t.c = t.c * 2 + jnp.sum(acc)
  elif op == 'c': acc = acc * t.c
  elif op == 'b': acc = acc + (t.b if hasattr(t, 'b') else t.w)
  elif op == 'r=':
    if hasattr(t, 'r'): t.r = t.r + acc
  elif op == 'r': acc = acc * (t.r if hasattr(t, 'r') else 2)
  elif op == 'x': acc = acc * xa + (jnp.sum(x['b'], axis=-1) if isinstance(x, dict) else 0)
  elif op == 'nw': t.nw = nnx.Param(acc * 2, sharding=('e',)) if not hasattr(t, 'nw') else t.nw + acc
  elif op == 'nc':
    if not hasattr(t, 'nc'): t.nc = nnx.BatchStat(acc)
    else: t.nc = t.nc * 2 + acc
  elif op == 'nb':
    if not hasattr(t, 'nb'): t.nb = C['Const'](acc + 1)
    acc = acc * t.nb
  elif op == 'nr':
    if not hasattr(t, 'nr'): t.nr = acc * 3
    else: t.nr = t.nr + acc
  elif op == 'key': acc = acc + jax.random.uniform(ctx.make_rng('params'), (2,)) if ctx is not None else acc + 1
  elif op == 'ctx':   # all the method can see of its context
    acc = acc * (5 if ctx is None else 2)
    if ctx is not None:
      for i, n in enumerate(('noise', 'dropout', 'params')):
        if ctx.has_rng(n): acc = acc + jax.random.uniform(ctx.make_rng(n), (2,)) * (2 + i)
      for i, n in enumerate(('train', 'other')):
        if ctx.has_flag(n): acc = acc * (7 + 2 * i + 4 * bool(ctx.get_flag(n)))
  elif op == 'key2':
    if ctx is not None: t.w = t.w * jax.random.uniform(ctx.make_rng('dropout'), (2,)); acc = acc + jax.random.uniform(ctx.make_rng('dropout'), (2,))
  elif op == 'args':
    for a in args: acc = acc + a
    for q in kw.values(): acc = acc * q
  elif op == 'upd': t.update_state(nnx.State({'w': nnx.Param(t.w + acc, **{q: z for q, z in vars(vars(t)['w']).items() if q != 'value'})}))
  elif op == 'static': acc = acc * t.k
  elif op == 'both': t.w, acc = acc, t.w
  elif op == 'id': pass
  else: raise KeyError(op)
  return acc
OPS = ['w', 'w=', 'v', 'v=', 'c=', 'c', 'b', 'r=', 'r', 'x', 'nw', 'nc', 'nb', 'nr', 'key', 'key2', 'args', 'upd', 'static', 'both']

def program(nnx, prog, graph):
  def body(m, acc, x, *args, ctx=None, **kw):
    for k, (op, where) in enumerate(prog):
      t = getattr(m, where) if where and hasattr(m, where) else m
      acc = step(nnx, op, k, t, acc, x, args, kw, ctx)
    flag = ctx.get_flag('train') if ctx is not None else None
    return acc, {'o': acc * (2 if flag else 1), 'm': acc[:, None] * jnp.array([1., 2., 3.])}
  return body

def split_pred(f):
  if f is None: return lambda n: False
  if f is ...: return lambda n: True
  if isinstance(f, str): return lambda n: n == f
  if isinstance(f, dict): return lambda n: any(split_pred(q)(n) for q, inc in f.items() if inc)
  if isinstance(f, (list, tuple)): return lambda n: any(split_pred(q)(n) for q in f)
  return f

def take(x, axis, i): return jnp.take(x, i, axis=axis)
def per_leaf(axes, tree, f):
  if isinstance(axes, dict): return {k: per_leaf(axes[k], tree[k], f) for k in tree}
  return jax.tree_util.tree_map(lambda x: f(axes, x), tree)

def loop(nnx, graph, role, st, body, acc, xs, L, args=(), kw={}, ctx=None, split=None, reverse=False, in_axes=0, out_axes=0, layer=None):
  """the layers one after the other; st: name -> (class, metadata, stacked or plain value)"""
  if ctx is not None:
    pc = ctx.partition()
    keys, pred = pc.keys, split_pred(split)
    sk = {n: (jax.random.split(k, L) if pred(n) else k) for n, k in keys.items()}
  C = classes(nnx)
  def rl(cls): return role[cls.__name__ if cls is not None else 'None_']
  carry = {n: e for n, e in st.items() if rl(e[0]) == 'c'}
  bc = {n: e for n, e in st.items() if rl(e[0]) == 'b'}
  ax = {n: e for n, e in st.items() if not isinstance(rl(e[0]), str)}
  outs, axo = [None] * L, [None] * L
  for i in (range(L - 1, -1, -1) if reverse else range(L)):
    vals = dict(carry); vals.update(bc)
    for n, (cls, meta, v) in ax.items(): vals[n] = (cls, meta, take(v, rl(cls), i))
    ms = populate(nnx, (layer or C['Layer'])(), graph, vals)
    k2 = dict(kw)
    if ctx is not None:
      k2['ctx'] = pc.contextdef.merge({n: (k[i] if pred(n) else k) for n, k in sk.items()})
    x = per_leaf(in_axes, xs, lambda a, q: take(q, a, i))
    acc, outs[i] = body(ms[0], acc, x, *args, **k2)
    now = read(nnx, ms)
    carry = {n: e for n, e in now.items() if rl(e[0]) == 'c'}
    for n, e in now.items():
      if rl(e[0]) == 'b' and n not in bc: bc[n] = e
    axo[i] = {n: e for n, e in now.items() if not isinstance(rl(e[0]), str)}
  final = {**carry, **bc}
  for n in axo[0]: final[n] = (axo[0][n][0], axo[0][n][1], jnp.stack([o[n][2] for o in axo], axis=rl(axo[0][n][0])))
  out = jax.tree_util.tree_map(lambda *q: q, *[{'_': o} for o in outs], is_leaf=lambda q: False)
  def st_leaf(axes, key): return jnp.stack([o[key] for o in outs], axis=axes)
  res = {k: st_leaf(out_axes[k] if isinstance(out_axes, dict) else out_axes, k) for k in outs[0]}
  return acc, res, final

def split_of(name): return {'none': None, 'params': 'params', 'list': ['params'], 'dict': {'params': True, 'dropout': False}, 'all': ..., 'two': ('params', 'dropout'), 'pred': lambda n: n == 'dropout', 'drop': 'dropout', 'noise': ['noise', 'params']}[name]
INX = {'0': 0, '1': 1, '-1': -1, 'dict': {'a': 0, 'b': 1}, 'dict2': {'a': 1, 'b': -1}, 'dict0': 0}
OUTX = {'0': 0, '1': 1, '-1': -1, 'dict': {'o': 0, 'm': 2}, 'dict2': {'o': -1, 'm': 1}}

def h_scan(S, roles_=('P0',), graphs=('sub',), ops=tuple(OPS), nops=1, lengths=(3,), entries=('func',), inx=('0',), outx=('0',), splits=('params',), reverses=(False,), unrolls=(1,), giveL=(False,), wheres=(None, 'p'), calls=1, mode='plain', meta=False, ctxs=('two',)):
  nnx = S.nnx
  graph = S.choose(0, "graph", values=list(graphs))
  rname = S.choose(0, "roles", values=list(roles_))
  role, opts = roles(nnx, rname)
  opts = dict(opts)
  L = S.choose(0, "length", values=list(lengths))
  ws = [w for w in wheres if w is None or graph != 'single']
  if graph == 'shared' and nops > 1: ws = ws + ['q']
  prog = [(S.choose(0, f"op{k}", values=list(ops)), S.choose(0, f"at{k}", values=ws)) for k in range(nops)]
  entry = S.choose(0, "entry", values=list(entries))
  if 'accessor p' == entry and graph == 'single': entry = 'Scan'
  inn, outn = S.choose(0, "in_axes", values=list(inx)), S.choose(0, "out_axes", values=list(outx))
  in_axes, out_axes = INX[inn], OUTX[outn]
  sname = S.choose(0, "split", values=list(splits)) if any(o in ('key', 'key2', 'ctx') for o, _ in prog) else 'params'
  split = split_of(sname)
  reverse = S.choose(0, "reverse", values=list(reverses)); unroll = S.choose(0, "unroll", values=list(unrolls))
  gl = S.choose(0, "give length", values=list(giveL))
  use_ctx = any(o in ('key', 'key2', 'ctx') for o, _ in prog)
  ctxk = S.choose(0, "context", values=list(ctxs)) if use_ctx else 'two'
  use_args = any(o == 'args' for o, _ in prog)
  detail = f"{graph} {rname} L={L} {prog} {entry} in_axes={inn} out_axes={outn} split={sname} reverse={reverse} unroll={unroll} length given={gl} {mode} context={ctxk}"
  I = inputs(S, role, graph, L)
  I.f32("acc", (2,))
  dx = inn.startswith('dict')
  if dx:
    ia, ib = (in_axes['a'], in_axes['b']) if isinstance(in_axes, dict) else (in_axes, in_axes)
    I.f32("xa", stack_shape((2,), ia, L)); I.f32("xb", stack_shape((2, 3), ib, L))
  else: I.f32("xa", stack_shape((2,), in_axes, L))
  if use_ctx: I.key("key"); I.key("key2"); I.key("key3")
  if use_args: I.f32("arg", (2,)); I.f32("kwarg", ())
  o = less(dict(opts, in_axes=in_axes, out_axes=out_axes, reverse=reverse, unroll=unroll), in_axes=0, out_axes=0, reverse=False, unroll=1)
  if sname != 'none' and use_ctx: o['split_rngs'] = split
  if gl or entry in ('Scan', 'accessor', 'accessor p'): o['length'] = L
  if meta: o['metadata_params'] = {nnx.PARTITION_NAME: 'layers'}
  body = program(nnx, prog, graph)
  C = classes(nnx)
  rec = {}
  def given(inp):
    xs = {'a': inp["xa"], 'b': inp["xb"]} if dx else inp["xa"]
    args = (inp["arg"],) if use_args else ()
    kw = dict(z=inp["kwarg"]) if use_args else {}
    if use_ctx:
      kw['ctx'] = {'two': lambda: nnx.context(params=inp["key"], dropout=inp["key2"], flags=dict(train=True)),
                   'three': lambda: nnx.context(params=inp["key"], noise=inp["key3"], dropout=inp["key2"], flags=dict(train=True, other=False)),
                   'flags only': lambda: nnx.context(flags=dict(train=True)), 'no flags': lambda: nnx.context(noise=inp["key"]),
                   'empty': lambda: nnx.context()}[ctxk]()
    return inp["acc"], xs, args, kw
  psub = entry == 'accessor p'
  def real(inp):
    _B['f'] = body
    acc, xs, args, kw = given(inp)
    vals = start(nnx, graph, inp)
    if entry in ('func', 'method'):
      if entry == 'method':
        class Cls(C['Layer']):
          @(lambda f: nnx.scan(f, **o))
          def __call__(self, acc, x, *a, **k): return body(self, acc, x, *a, **k)
        ms = populate(nnx, Cls(), graph, vals)
        call = ms[0]
      else:
        ms = populate(nnx, C['Layer'](), graph, vals)
        sc = nnx.scan(body, **o)
        call = lambda *a, **k: sc(ms[0], *a, **k)
      root = ms[0]
    else:
      def make(m): populate(nnx, m, graph, {n: (c, mt, jnp.zeros(NODES[n][1])) for n, (c, mt, v) in vals.items()})
      o2 = dict(o)
      root = nnx.Scan(C['Layer'], **o2)(make)
      def find(m, seen):
        if type(m) is C['Layer']: return m
        if id(m) in seen: return None
        seen.add(id(m))
        for v in vars(m).values():
          if isinstance(v, nnx.Module):
            q = find(v, seen)
            if q is not None: return q
      inner = find(root, set())
      S.check(inner is not None, "accessor", "no layer in the scan module")
      ms = [inner] + ([inner.p] if graph != 'single' else [])
      for n, (c, mt, v) in vals.items(): setattr(ms[int(n[0])], n[2:], v)
      call = {'Scan': root, 'accessor': lambda *a, **k: root.call.go(*a, **k), 'accessor p': lambda *a, **k: root.call.p.go(*a, **k)}[entry]
    ids = list(ms)
    kept = [(t.k, vars(t).get('st')) for t in ms]
    outs = []
    for c in range(calls):
      if c: ms[0].w = ms[0].w * 2
      if mode == 'jit' and entry == 'func':
        if 'ctx' in kw:
          a2 = nnx.jit(lambda m, acc, xs, *args, **k: nnx.scan(body, **o)(m, acc, xs, *args, **k))(ms[0], acc, xs, *args, **kw)
        else: a2 = nnx.jit(lambda m, acc, xs, *args, **k: nnx.scan(body, **o)(m, acc, xs, *args, **k))(ms[0], acc, xs, *args, **kw)
      elif mode == 'grad':
        def lossf(m, acc, xs):
          a, out = nnx.scan(body, **o)(m, acc, xs, *args, **kw)
          return jnp.sum(a * a) + jnp.sum(out['m'] * out['m']), (a, out)
        gr, a2 = nnx.grad(lossf, has_aux=True)(ms[0], acc, xs)
        a2 = a2 + ({p.split('/')[-1] + ('1' if '/' in p else '0'): v.value for p, v in gr.items()},)
      else: a2 = call(acc, xs, *args, **kw)
      outs.append(a2)
      if mode != 'grad': acc = a2[0]
    if use_ctx and kw['ctx'].has_rng('params'): outs.append(jax.random.uniform(kw['ctx'].make_rng('params'), (2,)))
    now = [ms[0]] + ([ms[0].p] if graph != 'single' else [])
    S.check(all(a is b for a, b in zip(ids, now)), "identities and statics kept", lambda: f"modules replaced; {detail}")
    S.check([(t.k, vars(t).get('st')) for t in now] == kept, "identities and statics kept", lambda: f"static values changed; {detail}")
    for a, nm, b in GRAPHS[graph]: S.check(getattr(now[a], nm) is now[b], "identities and statics kept", lambda: f"sharing lost; {detail}")
    f = read(nnx, now)
    rec['f'] = {n: (c, mt) for n, (c, mt, v) in f.items()}
    return outs, {n: v for n, (c, mt, v) in f.items()}
  def ref(inp):
    acc, xs, args, kw = given(inp)
    st = start(nnx, graph, inp)
    ctx = kw.pop('ctx', None)
    outs = []
    b = (lambda m, *a, **k: body(m.p, *a, **k)) if psub else body
    for c in range(calls):
      if c: cl, mt, v = st["0.w"]; st["0.w"] = (cl, mt, v * 2)
      cx = ctx.partition().merge() if ctx is not None and mode == 'jit' else ctx
      run = lambda s, a, x: loop(nnx, graph, role, s, b, a, x, L, args, kw, cx, split if 'split_rngs' in o else None, reverse, in_axes, out_axes)
      if mode == 'grad':
        P = [n for n, e in st.items() if e[0] is nnx.Param]
        def lossf(d):
          a, out, fin = run({n: (e[0], e[1], d.get(n, e[2])) for n, e in st.items()}, acc, xs)
          return jnp.sum(a * a) + jnp.sum(out['m'] * out['m']), (a, out, {n: e[2] for n, e in fin.items()})
        gr, (a, out, fv) = jax.grad(lossf, has_aux=True)({n: st[n][2] for n in P})
        _, _, fin = run(st, acc, xs)
        st = {n: (e[0], e[1], fv[n]) for n, e in fin.items()}
        outs.append((a, out, {n[2:] + n[0]: g for n, g in gr.items()}))
      else:
        a, out, st = run(st, acc, xs)
        outs.append((a, out)); acc = a
    if ctx is not None and ctx.has_rng('params'): outs.append(jax.random.uniform(ctx.make_rng('params'), (2,)))
    if 'f' in rec:
      def exp(n, e):
        return (e[0], {k: v for k, v in e[1].items() if v is not None})
      want = {n: exp(n, e) for n, e in st.items()}
      got = {n: (c, {k: v for k, v in mt.items() if v is not None}) for n, (c, mt) in rec['f'].items()}
      if meta:
        want = {n: (c, {k: v for k, v in m.items() if k != 'sharding'}) for n, (c, m) in want.items()}
        got = {n: (c, {k: v for k, v in m.items() if k != 'sharding'}) for n, (c, m) in got.items()}
      S.check(got == want, "identities and statics kept", lambda: f"types and metadata: {got} expected {want}; {detail}")
    return outs, {n: v for n, (c, mt, v) in st.items()}
  if any(q in ('nw', 'nc', 'nb', 'nr') for q, _ in prog): S.reach("created variables")
  if use_ctx: S.reach("keys")
  if entry.startswith('accessor'): S.reach("accessor")
  if mode == 'jit': S.reach("inside jit")
  if mode == 'grad': S.reach("inside grad")
  jx.agree(S, I, real, ref, "same carry, outputs and state as the loop", detail)

def h_nested(S, ops=('w', 'w=', 'c=', 'key', 'x')):
  """a scan inside the scanned method, over the same kind of layers"""
  nnx = S.nnx
  op1 = S.choose(0, "inner op", values=list(ops)); op2 = S.choose(0, "outer op", values=list(ops))
  spl = S.choose(0, "split", values=['params', 'none'])
  ax = S.choose(0, "axes", values=[(0, 0), (0, 1), (1, 0)])
  L1, L2 = 2, 3
  split = split_of(spl)
  I = jx.Inputs(S)
  outer_ax, inner_ax = ax
  I.f32("w", stack_shape((2,), outer_ax, L1))          # outer layer parameter
  per = stack_shape((2,), inner_ax, L2)                # what the outer step sees of the inner stack
  I.f32("pw", stack_shape(per, outer_ax, L1)); I.f32("c"); I.f32("pc")
  I.f32("acc", (2,)); I.f32("x", (L1, L2, 2)); I.key("key"); I.key("key2")
  C = classes(nnx)
  b1, b2 = program(nnx, [(op1, None)], 'single'), program(nnx, [(op2, None)], 'single')
  def outer(m, acc, x, ctx=None):
    acc, out = nnx.scan(b1, variable_axes={nnx.Param: inner_ax}, split_rngs=split)(m.p, acc, x, ctx=ctx)
    acc, out2 = b2(m, acc, x[0], ctx=ctx)
    return acc, (out, out2)
  def mk(w, pw, c, pc):
    m = C['Layer'](); m.p = C['Sub'](); m.w = nnx.Param(w); m.c = nnx.BatchStat(c); m.p.w = nnx.Param(pw); m.p.c = nnx.BatchStat(pc); m.k = 2; m.p.k = 5
    return m
  def real(inp):
    m = mk(inp["w"], inp["pw"], inp["c"], inp["pc"])
    ctx = nnx.context(params=inp["key"], dropout=inp["key2"])
    a, o = nnx.scan(outer, variable_axes={nnx.Param: outer_ax}, split_rngs=split)(m, inp["acc"], inp["x"], ctx=ctx)
    return a, o, m.w, m.p.w, m.c, m.p.c
  def ref(inp):
    ctx = nnx.context(params=inp["key"], dropout=inp["key2"])
    pc_ = ctx.partition(); pred = split_pred(split)
    sk = {n: (jax.random.split(k, L1) if pred(n) else k) for n, k in pc_.keys.items()}
    acc, c, pc, w, pw, outs = inp["acc"], inp["c"], inp["pc"], [], [], []
    for i in range(L1):
      cx = pc_.contextdef.merge({n: (k[i] if pred(n) else k) for n, k in sk.items()})
      m = mk(take(inp["w"], outer_ax, i), None, c, None)
      ipw = take(inp["pw"], outer_ax, i)
      p2 = cx.partition(); sk2 = {n: (jax.random.split(k, L2) if pred(n) else k) for n, k in p2.keys.items()}
      io, iw = [], []
      for j in range(L2):
        c2 = p2.contextdef.merge({n: (k[j] if pred(n) else k) for n, k in sk2.items()})
        q = C['Sub'](); q.w = nnx.Param(take(ipw, inner_ax, j)); q.c = nnx.BatchStat(pc); q.k = 5
        acc, o = b1(q, acc, inp["x"][i, j], ctx=c2)
        pc = q.c; io.append(o); iw.append(q.w)
      acc, o2 = b2(m, acc, inp["x"][i, 0], ctx=cx)
      c = m.c; w.append(m.w); pw.append(jnp.stack(iw, axis=inner_ax))
      outs.append(({k: jnp.stack([o[k] for o in io]) for k in io[0]}, o2))
    out = ({k: jnp.stack([o[0][k] for o in outs]) for k in outs[0][0]}, {k: jnp.stack([o[1][k] for o in outs]) for k in outs[0][1]})
    return acc, out, jnp.stack(w, axis=outer_ax), jnp.stack(pw, axis=outer_ax), c, pc
  S.reach("nested scan")
  jx.agree(S, I, real, ref, "same carry, outputs and state as the loop", f"{op1} in {op2} axes {ax} split {spl}")

def h_reject(S):
  """lengths that disagree or are missing"""
  nnx = S.nnx
  C = classes(nnx)
  how = S.choose(0, "how", values=['x vs variables', 'variables', 'x leaves', 'given vs variables', 'given vs x', 'nothing', 'nothing given'])
  entry = S.choose(0, "entry", values=['func', 'method'])
  n1 = S.choose(0, "n1", values=[1, 2, 3]); n2 = S.choose(0, "n2", values=[1, 2, 3])
  I = jx.Inputs(S)
  lw = n1; lv = n1; lx = n1; lx2 = n1; given = None
  vax = {nnx.Param: 0, C['Cache']: 1}
  if how == 'x vs variables': lx = lx2 = n2
  elif how == 'variables': lv = n2
  elif how == 'x leaves': lx2 = n2
  elif how in ('given vs variables', 'given vs x'): given = n2
  I.f32("w", (lw, 2)); I.f32("v", (2, lv)); I.f32("x", (lx, 2)); I.f32("x2", (lx2, 2))
  def body(m, acc, x): return acc + m.c, (x if x is not None else acc)
  opts = dict(variable_axes=vax)
  if how == 'given vs x' or how.startswith('nothing'): opts = dict()
  if how == 'nothing given': given = n1
  if given is not None: opts['length'] = given
  bad = (n1 != n2) if not how.startswith('nothing') else how == 'nothing'
  lab = "missing length rejected" if how == 'nothing' else "wrong length rejected" if given is not None else "inconsistent lengths rejected"
  S.reach(lab)
  def real(inp):
    class Cls(C['Layer']):
      @(lambda f: nnx.scan(f, **opts))
      def __call__(self, acc, x): return body(self, acc, x)
    m = Cls()
    m.w = nnx.Param(inp["w"]); m.v = C['Cache'](inp["v"]); m.c = nnx.BatchStat(jnp.ones(()))
    before = dict(vars(m)); vals = {k: v.value for k, v in before.items() if isinstance(v, nnx.Node)}
    xs = None if how.startswith('nothing') else (inp["x"], inp["x2"])
    try:
      r = m(jnp.zeros(()), xs) if entry == 'method' else nnx.scan(body, **opts)(m, jnp.zeros(()), xs)
      ok = True
    except ValueError: ok = False; r = None
    S.check(ok == (not bad), lab, lambda: f"{how} {n1} {n2} accepted={ok}")
    if bad: S.check(set(vars(m)) == set(before) and all(vars(m)[k].value is v for k, v in vals.items()), "rejection changes nothing")
    return () if r is None else r
  def ref(inp):
    if bad: return ()
    L = n1
    xs = None if how.startswith('nothing') else (inp["x"], inp["x2"])
    outs = []
    acc = jnp.zeros(())
    for i in range(L):
      outs.append(acc if xs is None else (xs[0][i], xs[1][i]))
      acc = acc + 1
    return acc, jax.tree_util.tree_map(lambda *q: jnp.stack(q), *outs)
  jx.agree(S, I, real, ref, "same carry, outputs and state as the loop", f"{how} {n1} {n2}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=3))
  for r in ROLES:
    one = not (T or r in ('P0', 'P0 V1 b'))
    j(f"roles {r}", "h_scan", roles_=[r], graphs=['sub'] if one else ['single', 'sub', 'shared', 'cycle'], lengths=[2] if one else [3])
  j("axes", "h_scan", roles_=['P0 V1 b', 'P1'], ops=['x', 'w='], wheres=[None], inx=list(INX), outx=['0', 'dict'], giveL=[False, True], lengths=[2])
  j("out axes", "h_scan", roles_=['carry all', 'union'], ops=['x', 'nw'], wheres=[None], inx=['0', 'dict2'], outx=list(OUTX), lengths=[2])
  j("order", "h_scan", roles_=['P0 V1 b', 'carry all'], ops=['c=', 'w', 'nw', 'nc', 'nb', 'key', 'v='], wheres=[None], lengths=[1, 2, 3], reverses=[False, True], unrolls=[1, 2])
  j("unroll all", "h_scan", roles_=['P1 V2 b'], ops=['w', 'nc', 'v='], wheres=[None], lengths=[3], reverses=[False, True], unrolls=[3])
  j("streams", "h_scan", roles_=['P0'], ops=['key', 'key2'], nops=1, wheres=[None], splits=['none', 'params', 'list', 'dict', 'all', 'two', 'pred', 'drop'], entries=['func', 'method', 'Scan'], lengths=[2])
  j("contexts", "h_scan", roles_=['P0'], ops=['ctx'], wheres=[None], ctxs=['three', 'flags only', 'no flags', 'empty'], splits=['none', 'params', 'all', 'pred', 'noise'], entries=['func', 'method', 'Scan', 'accessor'], lengths=[2])
  j("contexts in jit", "h_scan", roles_=['P0'], ops=['ctx'], wheres=[None], ctxs=['three', 'flags only', 'no flags', 'empty'], splits=['none', 'noise'], mode='jit', lengths=[2])
  j("entries", "h_scan", roles_=['P0', 'P1 V2 b'], graphs=['sub', 'cycle'], ops=['w', 'w=', 'c=', 'key', 'args', 'nw', 'x'], entries=['method', 'Scan', 'accessor', 'accessor p'], wheres=[None], lengths=[2])
  j("entries shared", "h_scan", roles_=['P0'], graphs=['shared'], ops=['w=', 'key'], entries=['Scan', 'accessor', 'accessor p'], lengths=[2])
  j("in jit", "h_scan", roles_=['P0 V1 b'], graphs=['sub', 'cycle'], ops=['w', 'w=', 'c=', 'nc', 'nw', 'key'], mode='jit', lengths=[2], wheres=[None, 'p'])
  j("in grad", "h_scan", roles_=['P0', 'P1 V2 b'], graphs=['sub'], ops=['w', 'w=', 'c=', 'c', 'b'], mode='grad', lengths=[2], wheres=[None, 'p'])
  j("two calls", "h_scan", roles_=['P0 V1 b', 'P1'], graphs=['sub'], calls=2, lengths=[2], reverses=[False, True], wheres=[None])
  core = ['w', 'w=', 'c=', 'nc', 'nb', 'both', 'key', 'x']
  j("two ops", "h_scan", roles_=['P0 V1 b'], graphs=['sub'], ops=core, nops=2, lengths=[2])
  j("two ops shared", "h_scan", roles_=['P1'], graphs=['shared'], ops=['w=', 'w', 'c='], nops=2, lengths=[2])
  j("nested", "h_nested")
  j("reject", "h_reject")
  if T:
    for r in ['P0 V1 b', 'P1 V2 b', 'raw axis', 'explicit']:
      j(f"pairs {r}", "h_scan", roles_=[r], graphs=['sub'], nops=2, lengths=[3], wheres=[None, 'p'] if r == 'P0 V1 b' else [None])
    j("three ops", "h_scan", roles_=['P0 V1 b'], graphs=['single'], ops=core, nops=3, lengths=[3])
    j("order pairs", "h_scan", roles_=['P0 V1 b'], graphs=['single'], ops=['c=', 'nw', 'nc', 'nb', 'key'], nops=2, lengths=[1, 2, 3, 4], reverses=[False, True], unrolls=[1, 2, 3])
    j("pairs shared", "h_scan", roles_=['P0', 'P1'], graphs=['shared', 'cycle'], ops=core, nops=2, lengths=[2])
  return J
