"""C19 nnx.remat / nnx.Remat change nothing"""
import jax, jax.numpy as jnp, numpy as np
from sx import jx, progs
from sx.progs import facts, build, inputs, run, choose_prog, at

BOUNDS = dict(
  quick="module graphs of 9 shapes (<= 4 modules; trees, sharing, cycles); methods = programs of <= 2 operations (out of 12) on any module; through nnx.remat on functions and methods, nnx.Remat, its call accessor, nested accessors, inside nnx.scan / nnx.Scan, nnx.jit, nested remat, with contexts (draws from two streams, flags; without streams; empty), static arguments, checkpoint policies, prevent_cse; outputs, state updates, nnx.grad over parameters and jax.grad over inputs; 1-2 calls; all array values and keys (exact arithmetic)",
  thorough="programs of 2 operations on every shape and entry, 3 operations on shared and cyclic graphs")
OUTSIDE = "deleting nodes, changing their type or metadata or static attributes inside the method; the memory behaviour of checkpointing"
ASSUMPTIONS = ["floats are exact reals, random bits are uninterpreted functions of the key", "jax.checkpoint's primitive computes its inner jaxpr", "with a context, the unwrapped method is given a context split off the one passed"]
WITNESSES = ["same output and state", "identities and statics kept", "same gradients", "accessor", "nested in scan", "context", "static argument"]

def loss_terms(nnx, m, acc): return jnp.sum(acc * acc) + jnp.sum(m.w * m.w * acc) * m.c

def find(nnx, m, cls, seen=None):
  seen = set() if seen is None else seen
  if type(m) is cls: return m
  if id(m) in seen: return None
  seen.add(id(m))
  for v in vars(m).values():
    if isinstance(v, nnx.Module):
      q = find(nnx, v, cls, seen)
      if q is not None: return q

def fill(nnx, ms, inp, shape):
  n, edges = progs.SHAPES[shape]
  for i, m in enumerate(ms):
    m.w = nnx.Param(inp[f"w{i}"], sharding=('d',)); m.c = nnx.BatchStat(inp[f"c{i}"]); m.r = inp[f"r{i}"]; m.k = 3 + i; m.st = nnx.Static("s")
  for a, name, b in edges: setattr(ms[a], name, ms[b])

ENTRIES = ['func', 'method', 'Remat', 'Remat.call', 'Remat.call.go', 'Remat.call.p.go', 'nested', 'nested Remat']
OPTS = {'default': {}, 'no cse': dict(prevent_cse=False), 'policy none': dict(policy=jax.checkpoint_policies.nothing_saveable), 'policy all': dict(policy=jax.checkpoint_policies.everything_saveable)}

def h_remat(S, shapes=('single',), nops=1, ops=tuple(progs.OPS), entries=('func',), wraps=('plain',), opts=('default',), ctxs=(None,), calls=1, alias=True):
  nnx = S.nnx
  shape = S.choose(0, "shape", values=list(shapes))
  prog = choose_prog(S, shape, nops, ops, alias=alias)
  entry = S.choose(0, "entry", values=[e for e in entries if '.p.' not in e or any(a == 0 and n == 'p' for a, n, b in progs.SHAPES[shape][1])])
  wrap = S.choose(0, "wrap", values=list(wraps))
  on = S.choose(0, "options", values=list(opts)); o = dict(OPTS[on])
  cx = S.choose(0, "ctx", values=list(ctxs))
  I = inputs(S, shape); I.f32("y", (2,))
  if cx: I.key("key"); I.key("key2")
  detail = f"{shape} {prog} {entry} {wrap} {on} ctx={cx}"
  viap = '.p.' in entry
  # paths of the program that exist below the module the method is bound to
  def body(m, x, z=None, ctx=None):
    acc = x
    for k, (op, path) in enumerate(prog):
      t = m
      for q in path: t = getattr(t, q) if hasattr(t, q) else t
      acc = progs.step(nnx, op, m, t, acc, x, str(k))
    if ctx is not None:
      acc = acc * 3      # the method knows whether it was given a context
      if ctx.has_rng('params'): acc = acc + jax.random.uniform(ctx.make_rng('params'), (2,))
      if cx == 'two':
        m.w = m.w * jax.random.uniform(ctx.make_rng('dropout'), (2,)); acc = acc * jax.random.uniform(ctx.make_rng('params'), (2,))
      if ctx.get_flag('train'): acc = acc * 2
    if z is not None: acc = acc * z['z']
    return {'acc': acc, 'l': [m.w * acc]}
  def mkctx(inp):
    if not cx: return None
    if cx == 'flags only': return nnx.context(flags=dict(train=True))
    if cx == 'empty': return nnx.context()
    return nnx.context(params=inp["key"], dropout=inp["key2"], flags=dict(train=cx == 'two'))
  class Cls(nnx.Module):
    def __init__(self, filler=None):
      if filler is not None: filler(self)
    def __call__(self, x, z=None, *, ctx=None): return body(self, x, z, ctx)
    def go(self, x, z=None, *, ctx=None): return body(self, x, z, ctx)
  rec = {}
  def objects(inp, wrapped):
    """root layer, callable (x, z, ctx) -> output"""
    n, edges = progs.SHAPES[shape]
    ms = [None] * n
    def filler(self):
      ms[0] = self
      for i in range(1, n): ms[i] = Cls()
      fill(nnx, ms, inp, shape)
    if not wrapped:
      root = Cls(filler)
      t = root.p if viap else root
      return root, lambda x, z, **kw: body(t, x, z, **kw)
    if entry == 'func':
      root = Cls(filler); f = nnx.remat(body, **o)
      return root, lambda x, z, **kw: f(root, x, z, **kw)
    if entry == 'nested':
      root = Cls(filler); f = nnx.remat(body, **o); g = nnx.remat(lambda m, x, z=None, ctx=None: f(m, x, z, ctx=ctx) if ctx is not None else f(m, x, z))
      return root, lambda x, z, **kw: g(root, x, z, **kw)
    if entry == 'method':
      class Deco(Cls):
        @(lambda f: nnx.remat(f, **o))
        def __call__(self, x, z=None, *, ctx=None): return body(self, x, z, ctx)
      root = Deco(filler); return root, root
    w = nnx.Remat(Cls, **o)(filler) if entry != 'nested Remat' else nnx.Remat(nnx.Remat(Cls, **o))(filler)
    root = find(nnx, w, Cls)
    S.check(root is not None, "accessor", "wrapped module not found")
    if entry in ('Remat', 'nested Remat'): return root, w
    if entry == 'Remat.call': return root, lambda *a, **k: w.call(*a, **k)
    if entry == 'Remat.call.go': return root, lambda *a, **k: w.call.go(*a, **k)
    return root, lambda *a, **k: w.call.p.go(*a, **k)
  def go(inp, wrapped):
    root, call = objects(inp, wrapped)
    before = list(facts(nnx, root)[2])
    outs = []
    ctx = mkctx(inp)
    z = {'z': inp["y"]}
    def kws():
      if ctx is None: return {}
      if wrapped: return dict(ctx=ctx)
      c = ctx.partition().merge()
      for _ in range((entry.startswith('nested')) + (wrap == 'jit' and entry == 'func')): c = c.partition().merge()
      return dict(ctx=c)
    for c in range(calls):
      x = inp["x"] if c == 0 else inp["y"]
      if wrap == 'jit' and entry == 'func' and wrapped:
        f = nnx.remat(body, **o)
        outs.append(nnx.jit(lambda m, x, z, **kw: f(m, x, z, **kw))(root, x, z, **kws()))
      else: outs.append(call(x, z, **kws()))
    if ctx is not None and ctx.has_rng('dropout'): outs.append(jax.random.uniform(ctx.make_rng('dropout'), (2,)))
    f, vals, order = facts(nnx, root)
    S.check(len(order) >= len(before) and all(any(a is b for b in order) for a in before), "identities and statics kept", lambda: f"modules replaced; {detail}")
    f = [('C' if issubclass(c, Cls) else c, r) for c, r in f]
    if wrapped: rec['f'] = f
    elif 'f' in rec: S.check(rec['f'] == f, "identities and statics kept", lambda: f"{rec['f']} expected {f}; {detail}")
    return outs, vals
  def grads(inp, wrapped):
    """gradients over the inputs, and over the parameters through nnx.grad or by rebuilding"""
    ctx = lambda: (dict(ctx=mkctx(inp)) if wrapped else dict(ctx=functools_fork(mkctx(inp), 1 + entry.startswith('nested')))) if cx else {}
    z = {'z': inp["y"]}
    def l(x, ws):
      root, call = objects({**inp, **ws}, wrapped)
      out = call(x, z, **ctx())
      return jnp.sum(out['acc'] ** 2) + jnp.sum(out['l'][0]) + sum(jnp.sum(v * v) for v in facts(nnx, root)[1].values())
    ws = {k: v for k, v in inp.items() if k[0] in 'wcr' and k[1:].isdigit()}
    if wrap == 'jax.grad': return jax.grad(l, argnums=(0, 1))(inp["x"], ws)
    if wrap == 'value_and_grad twice': return jax.grad(lambda x: jnp.sum(jax.grad(l)(x, ws) ** 2))(inp["x"])
    # nnx.grad over the parameters of the layer module
    if wrapped:
      root, call = objects(inp, True)
      if entry == 'func':
        f = nnx.remat(body, **o)
        g = nnx.grad(lambda m, x: jnp.sum(f(m, x, z, **ctx())['acc'] ** 2) + jnp.sum(m.w ** 3), stateful=True)(root, inp["x"])
      else:
        g = nnx.grad(lambda m, x: jnp.sum(m(x, z, **ctx())['acc'] ** 2) + jnp.sum(m.w ** 3), stateful=True)(root, inp["x"])
      return {p: v.value for p, v in g.items()}, facts(nnx, root)[1]
    can = progs.canonical(shape)
    sel = {"/".join(can[i] + ('w',)): i for i in can}
    def l2(d):
      root, call = objects({**inp, **{f"w{i}": d[p] for p, i in sel.items()}}, False)
      return jnp.sum(call(inp["x"], z, **ctx())['acc'] ** 2) + jnp.sum(root.w ** 3), facts(nnx, root)[1]
    g, vals = jax.grad(l2, has_aux=True)({p: inp[f"w{i}"] for p, i in sel.items()})
    return g, vals
  if cx: S.reach("context")
  if '.call' in entry: S.reach("accessor")
  if wrap in ('plain', 'jit'): jx.agree(S, I, lambda i: go(i, True), lambda i: go(i, False), "same output and state", detail)
  else: jx.agree(S, I, lambda i: grads(i, True), lambda i: grads(i, False), "same gradients", detail)

def functools_fork(ctx, n):
  for _ in range(n): ctx = ctx.partition().merge()
  return ctx

def h_scan(S, ops=('scale', 'add', 'read', 'raw', 'new', 'upd'), nops=1):
  """remat inside scan equals scan"""
  nnx = S.nnx
  how = S.choose(0, "how", values=['decorator', 'Scan(Remat)', 'Remat(Scan)', 'function', 'Scan(Remat).call.call'])
  prog = choose_prog(S, 'single', nops, ops)
  cx = S.flip("ctx"); grad = S.flip("grad"); spl = S.choose(0, "split", values=['params', None]) if cx else None
  L = 2
  I = jx.Inputs(S)
  I.f32("w0", (L, 2)); I.f32("c0"); I.f32("r0", (2,)); I.f32("x", (2,)); I.f32("xs", (L, 2))
  if cx: I.key("key")
  detail = f"{how} {prog} ctx={cx} grad={grad} split={spl}"
  def body(m, x, s, ctx=None):
    acc = run(nnx, prog, m, x) * s
    if ctx is not None: acc = acc + jax.random.uniform(ctx.make_rng('params'), (2,))
    return acc, m.w * acc
  so = dict(variable_axes={nnx.Param: 0}, length=L, split_rngs=spl)
  class Cls(nnx.Module):
    def __init__(self, mk=None):
      self.w = nnx.Param(jnp.zeros((2,)), sharding=('d',)); self.c = nnx.BatchStat(jnp.zeros(())); self.r = jnp.zeros((2,)); self.k = 3
    def __call__(self, x, s, *, ctx=None): return body(self, x, s, ctx)
  def go(inp, wrapped):
    ctx = (nnx.context(params=inp["key"]),) if cx else ()
    def setup(inner):
      inner.w = inp["w0"]; inner.c = inp["c0"]; inner.r = inp["r0"]
    if how == 'decorator' or how == 'function':
      f = (lambda m, x, s, ctx=None: body(m, x, s, ctx))
      # remat forwards its own fork of the context
      g = nnx.remat(f) if wrapped else (lambda m, x, s, ctx=None: f(m, x, s, ctx=functools_fork(ctx, 1) if ctx is not None else None))
      class D(Cls):
        __call__ = nnx.scan(g, **so)
      m = D(); setup(m); inner = m
      call = m if how == 'decorator' else lambda *a, **k: nnx.scan(g, **so)(m, *a, **k)
    else:
      if wrapped:
        m = nnx.Scan(nnx.Remat(Cls), **so)() if how.startswith('Scan(Remat)') else nnx.Remat(nnx.Scan(Cls, **so))()
      else:
        class F(Cls):
          def __call__(self, x, s, *, ctx=None): return body(self, x, s, functools_fork(ctx, 1) if ctx is not None and how.startswith('Scan') else ctx)
        m = nnx.Scan(F, **so)()
      inner = find(nnx, m, Cls) if wrapped else find(nnx, m, F)
      setup(inner)
      call = m
      if wrapped and how.endswith('.call.call'): call = lambda *a, **k: m.call.call(*a, **k)
    kw = dict(ctx=ctx[0]) if cx else {}
    if cx and how == 'Remat(Scan)' and not wrapped: kw['ctx'] = functools_fork(ctx[0], 1)
    a, out = call(inp["x"], inp["xs"], **kw)
    st = {p.split('/')[-1]: (v.value if isinstance(v, nnx.Node) else v) for p, v in inner.get_state().items()}
    tail = jax.random.uniform(ctx[0].make_rng('params'), (2,)) if cx else 0
    return a, out, st, tail
  def real(inp, wrapped=True):
    if not grad: return go(inp, wrapped)
    def l(x, w):
      a, out, st, _ = go({**inp, 'x': x, 'w0': w}, wrapped)
      return jnp.sum(a * a) + jnp.sum(out * out) + sum(jnp.sum(v) for v in st.values())
    return jax.grad(l, argnums=(0, 1))(inp["x"], inp["w0"])
  S.reach("nested in scan")
  jx.agree(S, I, real, lambda i: real(i, False), "same gradients" if grad else "same output and state", detail)

def h_static(S):
  """static arguments stay Python values, other arguments may be any pytree"""
  nnx = S.nnx
  how = S.choose(0, "how", values=['int', 'tuple', 'two', 'Remat', 'negative', 'first', 'first tuple', 'first and last', 'Remat first', 'negative first'])
  mode = S.choose(0, "mode", values=['a', 'b'])
  I = inputs(S, 'single'); I.f32("y", (2,))
  def f(m, x, kind, y):
    m.w = m.w * x
    return x * 2 + y if kind == 'a' else m.w * 3 - y
  if 'first' in how:
    f_ = f
    def f(m, kind, x, y): return f_(m, x, kind if kind in ('a', 'b') else 1 / 0, y if how != 'first and last' else jnp.ones((2,)) * y)
  nums = {'first': 0, 'first tuple': (0,), 'first and last': (0, 2), 'Remat first': 0, 'negative first': -3, 'int': 1, 'tuple': (1,), 'two': (1,), 'Remat': 1, 'negative': -2}[how]
  class Cls(nnx.Module):
    def __init__(self, inp): self.w = nnx.Param(inp["w0"])
    def __call__(self, *a): return f(self, *a)
  def order(x, kind, y):
    if how == 'first and last': y = 3
    return (kind, x, y) if 'first' in how else (x, kind, y)
  def real(inp):
    if how.startswith('Remat'):
      w = nnx.Remat(Cls, static_argnums=nums)(inp); m = find(nnx, w, Cls)
      return w(*order(inp["x"], mode, inp["y"])), m.w
    m = Cls(inp)
    r = nnx.remat(f, static_argnums=nums)(m, *order(inp["x"], mode, inp["y"]))
    if how == 'two': r = r + nnx.remat(f, static_argnums=nums)(m, inp["x"], 'b', inp["y"])
    return r, m.w
  def ref(inp):
    m = Cls(inp)
    r = f(m, *order(inp["x"], mode, inp["y"]))
    if how == 'two': r = r + f(m, inp["x"], 'b', inp["y"])
    return r, m.w
  S.reach("static argument")
  jx.agree(S, I, real, ref, "same output and state", f"static {how} {mode}")

def h_init(S):
  """initialisation is unchanged by the decorator and the wrapper"""
  nnx = S.nnx
  how = S.choose(0, "how", values=['decorator', 'Remat', 'is_init'])
  I = jx.Inputs(S); I.key("key"); I.f32("a", (2,))
  def init(self, a, *, ctx):
    self.w = nnx.Param(jax.random.uniform(ctx.make_rng('params'), (2,)) * a); self.c = nnx.BatchStat(a); self.k = 3
  class Plain(nnx.Module):
    def __init__(self, a, *, ctx): init(self, a, ctx=ctx)
  class Deco(nnx.Module):
    @nnx.remat
    def __init__(self, a, *, ctx): init(self, a, ctx=ctx)
  class Is(nnx.Module):
    def __init__(self, a, *, ctx): self.setup(a, ctx=ctx)
    setup = nnx.remat(init, is_init=True)
  rec = {}
  def look(m):
    return {n: (type(v).__name__) for n, v in vars(m).items() if not n.startswith('_module__')}, (m.w, m.c)
  def real(inp):
    ctx = nnx.context(params=inp["key"])
    m = {'decorator': Deco, 'Remat': nnx.Remat(Plain), 'is_init': Is}[how](inp["a"], ctx=ctx)
    if how == 'Remat': m = find(nnx, m, Plain)
    rec['r'], v = look(m)
    return v, jax.random.uniform(ctx.make_rng('params'))
  def ref(inp):
    ctx = nnx.context(params=inp["key"])
    r, v = look(Plain(inp["a"], ctx=ctx))
    if 'r' in rec: S.check(rec['r'] == r, "identities and statics kept", lambda: f"{rec['r']} {r}")
    return v, jax.random.uniform(ctx.make_rng('params'))
  jx.agree(S, I, real, ref, "same output and state", f"init {how}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=3))
  core = ['scale', 'add', 'read', 'swap', 'new', 'upd']
  for s in progs.SHAPES:
    j(f"func {s}", "h_remat", shapes=[s], entries=['func'], alias=s in ('shared', 'cycle'))
    j(f"entries {s}", "h_remat", shapes=[s], entries=ENTRIES[1:], ops=core if s in ('single', 'shared', 'cycle') else ['scale', 'new', 'swap'], alias=False)
  j("context", "h_remat", shapes=['single', 'shared'], entries=ENTRIES, ops=['scale', 'new', 'noop'], ctxs=['one', 'two', 'flags only', 'empty'], wraps=['plain', 'jit'], alias=False)
  j("options", "h_remat", shapes=['shared'], entries=['func', 'method', 'Remat'], ops=['scale', 'read'], opts=list(OPTS), wraps=['plain', 'jax.grad', 'jit'], alias=False)
  j("two calls", "h_remat", shapes=['single', 'cycle'], entries=['func', 'method', 'Remat.call'], calls=2, ops=[o for o in progs.OPS if not o.startswith('new')], alias=False)
  for s in ['single', 'shared', 'cycle']:
    j(f"grads {s}", "h_remat", shapes=[s], entries=['func', 'method', 'Remat.call'], wraps=['jax.grad'], ops=core, alias=False)
    j(f"nnx.grad {s}", "h_remat", shapes=[s], entries=['func', 'method'], wraps=['nnx.grad'], ops=core, alias=False)
  j("grad of grad", "h_remat", shapes=['single'], entries=['func', 'Remat'], wraps=['value_and_grad twice'], ops=['scale', 'add', 'read', 'swap'])
  j("grads context", "h_remat", shapes=['single'], entries=['func', 'method', 'Remat', 'nested'], wraps=['jax.grad'], ops=['scale', 'read'], ctxs=['one', 'two', 'flags only'])
  j("two ops", "h_remat", shapes=['single', 'shared'], nops=2, entries=['method'], ops=core, alias=False)
  j("scan", "h_scan")
  j("static", "h_static")
  j("init", "h_init")
  if T:
    for s in progs.SHAPES: j(f"two ops {s}", "h_remat", shapes=[s], nops=2, entries=['func', 'method', 'Remat.call'], ops=core, alias=False)
    for s in ['shared', 'cycle']: j(f"three ops {s}", "h_remat", shapes=[s], nops=3, entries=['method'], ops=core, alias=False)
    j("grads two ops", "h_remat", shapes=['single', 'shared'], nops=2, entries=['func', 'Remat.call'], wraps=['jax.grad', 'nnx.grad'], ops=core, alias=False)
    j("scan two ops", "h_scan", nops=2)
  return J
