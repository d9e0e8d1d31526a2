"""C27 TrainState"""
import jax, jax.numpy as jnp, numpy as np, optax
from sx import jx

BOUNDS = dict(
  quick="states of 1-3 parameters (scalars, vectors, matrices) in nested and shared modules, 13 optimisers (with momentum, moments, weight decay, clipping, schedules, masks, chains), 1-2 steps with any gradients and parameters, initial step 0-3 or an array, up to 3 extra fields of 7 kinds (states, arrays, node and static containers, plain values), any subset of them replaced; apply on every mix of states and field names, through a call or a named method, all array values in exact arithmetic",
  thorough="3 steps for every optimiser, all parameter layouts")
OUTSIDE = "floating point rounding, optimisers that return other than update/apply rules, replacing fields that do not exist, dtype changes of the step"
ASSUMPTIONS = ["floats are exact reals; sqrt, powers and inverses are uninterpreted functions of normalised arguments"]
WITNESSES = ["updated parameters and optimiser state", "step plus one", "passed fields replaced", "other fields unchanged", "old train state unmodified", "leaves", "apply", "initial optimiser state", "several steps", "unknown fields are rejected"]

def optimisers():
  return dict(
    sgd=lambda: optax.sgd(0.5), momentum=lambda: optax.sgd(0.5, momentum=0.5), nesterov=lambda: optax.sgd(0.25, momentum=0.5, nesterov=True),
    adam=lambda: optax.adam(0.25, b1=0.5, b2=0.75, eps=0.125), adamw=lambda: optax.adamw(0.25, b1=0.5, b2=0.75, eps=0.125, weight_decay=0.5),
    decay=lambda: optax.chain(optax.add_decayed_weights(0.5), optax.sgd(0.5)), clip=lambda: optax.chain(optax.clip(1.0), optax.scale(-0.5)),
    clipnorm=lambda: optax.chain(optax.clip_by_global_norm(1.0), optax.sgd(0.5)),
    schedule=lambda: optax.sgd(optax.piecewise_constant_schedule(0.5, {1: 0.5, 2: 0.25})), trace=lambda: optax.chain(optax.trace(0.5), optax.scale(-1.0)),
    ema=lambda: optax.chain(optax.ema(0.5, debias=False), optax.scale(-0.5)), rms=lambda: optax.rmsprop(0.25, decay=0.5, eps=0.125),
    masked=lambda: optax.masked(optax.sgd(0.5), lambda p: jax.tree_util.tree_map(lambda x: x.ndim > 0, p)),
    multi=lambda: optax.chain(optax.identity(), optax.adagrad(0.5, initial_accumulator_value=0.25)))

LAYOUTS = dict(one={'w': (2,)}, two={'w': (2,), 'b': ()}, mat={'w': (2, 2)}, nested={'w': (2,), 'sub/w': (), 'sub/b': (2,)}, shared={'w': (), 'sub/w': (2,)})

def classes(nnx):
  class Sub(nnx.Module): pass
  class Net(nnx.Module):
    def __call__(self, x, k=1.0):
      self.count = self.count + x * k
      return x * jnp.sum(self.w) + self.count
    def other(self, x): return x - jnp.sum(self.w)
  return Sub, Net

def build(nnx, layout, vals, count):
  Sub, Net = build.cls.setdefault(id(nnx), classes(nnx))
  m = Net()
  for n, sh in LAYOUTS[layout].items():
    o = m
    if n.startswith('sub/'):
      if not hasattr(m, 'sub'): m.sub = Sub()
      o = m.sub
    setattr(o, n.split('/')[-1], nnx.Param(vals["p:" + n]))
  if layout == 'shared': m.again = m.sub
  m.count = nnx.BatchStat(count)
  return m.partition(nnx.Param, nnx.BatchStat)
build.cls = {}

EXTRAS = ['none', 'state', 'array', 'node', 'param', 'static', 'plain', 'string']
NODES = ('state', 'array', 'node', 'param', 'tree')

def extra(nnx, kd, v, bs):
  """(value passed in, value read back)"""
  if kd == 'state': return bs, bs
  if kd == 'array': return v, v
  if kd == 'node': return nnx.Node(v), v
  if kd == 'param': return nnx.Param(v, sharding=('a',)), v
  if kd == 'static': return nnx.Static(7), 7
  if kd == 'plain': return 3, 3
  if kd == 'string': return 'tag', 'tag'

def stable(x): return x

def h_step(S, opts=('sgd',), layouts=('two',), nsteps=(1,), extras=(('none',),), steps0=(0,), jit=False):
  nnx = S.nnx
  opt = S.choose(0, "optimiser", values=list(opts)); layout = S.choose(0, "layout", values=list(layouts)); n = S.choose(0, "steps", values=list(nsteps)); step0 = S.choose(0, "initial step", values=list(steps0))
  ex = tuple(k for k in S.choose(0, "extra fields", values=[tuple(e) for e in extras]) if k != 'none')
  rep = tuple(S.flip(f"replace {k}") for k in range(len(ex)))
  rep_own = S.choose(0, "replace own", values=['no', 'tx'])
  detail = f"TrainState {opt} {layout} {n} steps from {step0} extra fields {ex} replaced {rep} {rep_own}"
  I = jx.Inputs(S)
  for nm, sh in LAYOUTS[layout].items():
    I.f32("p:" + nm, sh)
    for k in range(n): I.f32(f"g{k}:" + nm, sh)
  I.f32("count"); I.f32("v", (2,)); I.f32("v2", (2,)); I.f32("count2")
  names = [f"f{chr(98 - i)}{i}" for i in range(len(ex))]
  tx0 = optimisers()[opt]()
  tx1 = optax.chain(tx0)      # another object; same state layout is not required before the next step
  L = jax.tree_util.tree_leaves
  def grads(inp, k): return build(nnx, layout, {"p:" + nm: inp[f"g{k}:" + nm] for nm in LAYOUTS[layout]}, inp["count"])[0][0]
  def real(inp):
    (params, bs), md = build(nnx, layout, inp, inp["count"])
    (_, bs2), _ = build(nnx, layout, inp, inp["count2"])
    kw, want = {}, {}
    for nm, kd in zip(names, ex): kw[nm], want[nm] = extra(nnx, kd, inp["v"], bs)
    if step0 is not None: kw['step'] = inp["count"].astype(jnp.int32) if step0 == 'array' else inp["v"].astype(jnp.int32) if step0 == 'vector' else step0
    ts = nnx.TrainState(md, params=params, tx=tx0, **kw)
    S.check(type(ts) is nnx.TrainState and ts.moduledef is md and ts.tx is tx0, "initial optimiser state", detail)
    def leaves_ok(t, w):
      got = len(L(t))
      exp = len(L(t.params)) + len(L(t.opt_state)) + 1 + sum(len(L(w[nm])) for nm, kd in zip(names, ex) if kd in NODES)
      S.check(got == exp, "leaves", lambda: f"{got} leaves, expected {exp}; {detail}")
      ids = {id(x) for x in L(t)}
      S.check(all(id(x) in ids for x in L((t.params, t.opt_state, t.step)) + [x for nm, kd in zip(names, ex) if kd in NODES for x in L(w[nm])]), "leaves", detail)
      S.check(all(id(x) not in ids or not hasattr(x, 'dtype') for nm, kd in zip(names, ex) if kd not in NODES for x in [w[nm]]), "leaves", detail)
      # the tree rebuilds the same train state
      l, td = jax.tree_util.tree_flatten(t)
      u = jax.tree_util.tree_unflatten(td, l)
      S.check(type(u) is nnx.TrainState and u.tx is t.tx and u.moduledef is t.moduledef and all(a is b for a, b in zip(L(u), l)), "leaves", detail)
      for nm, kd in zip(names, ex):
        if kd not in NODES: S.check(getattr(u, nm) == w[nm], "leaves", detail)
    leaves_ok(ts, want)
    first = (ts.params, ts.opt_state, ts.step)
    cur, hist = ts, []
    for k in range(n):
      rkw = {}
      if k == 0:
        for nm, kd, r in zip(names, ex, rep):
          if r: rkw[nm], want2 = {'state': (bs2, bs2), 'static': (9, 9), 'plain': (4, 4), 'string': ('other', 'other')}.get(kd, (inp["v2"], inp["v2"])); want = dict(want, **{nm: want2})
        if rep_own == 'tx': rkw['tx'] = tx1
      before = {a: b for a, b in vars(cur).items()}
      bl, bt = jax.tree_util.tree_flatten(cur)
      new = cur.apply_gradients(grads(inp, k), **rkw)
      S.check(type(new) is nnx.TrainState and new is not cur, "old train state unmodified", detail)
      al, at = jax.tree_util.tree_flatten(cur)
      S.check(set(vars(cur)) == set(before) and all(vars(cur)[a] is before[a] for a in before) and len(al) == len(bl) and all(a is b for a, b in zip(al, bl)), "old train state unmodified", detail)
      S.check(set(vars(new)) == set(before), "other fields unchanged", lambda: f"{set(vars(new)) ^ set(before)}; {detail}")
      S.check(new.moduledef is md and new.tx is (tx1 if rep_own == 'tx' else tx0), "passed fields replaced" if rep_own == 'tx' and k == 0 else "other fields unchanged", detail)
      for nm, kd, r in zip(names, ex, rep):
        S.check(getattr(new, nm) is want[nm] or (kd not in NODES and getattr(new, nm) == want[nm]), "passed fields replaced" if r and k == 0 else "other fields unchanged", lambda: f"{nm}: {getattr(new, nm)!r}; {detail}")
        S.check(type(vars(new)[nm]) is type(vars(cur)[nm]), "other fields unchanged", lambda: f"container of {nm}; {detail}")
      leaves_ok(new, want)
      cur = new
      hist.append((new.params, new.opt_state, new.step))
      if rep_own == 'tx': break
    return first, hist, (ts.params, ts.opt_state, ts.step)
  def ref(inp):
    params = build(nnx, layout, inp, inp["count"])[0][0]
    opt_state = tx0.init(params)
    step = inp["count"].astype(jnp.int32) if step0 == 'array' else inp["v"].astype(jnp.int32) if step0 == 'vector' else jnp.asarray(0 if step0 is None else step0)
    first = (params, opt_state, step)
    hist = []
    for k in range(n):
      up, opt_state = tx0.update(grads(inp, k), opt_state, params)
      params = optax.apply_updates(params, up)
      step = step + 1
      hist.append((params, opt_state, step))
      if rep_own == 'tx': break
    return first, hist, first
  for w in ("step plus one", "initial optimiser state", "updated parameters and optimiser state"): S.reach(w)
  if n > 1: S.reach("several steps")
  jx.agree(S, I, real, ref, "updated parameters and optimiser state", detail)

def h_apply(S, layouts=('two',)):
  nnx = S.nnx
  layout = S.choose(0, "layout", values=list(layouts))
  method = S.choose(0, "method", values=['call', 'other', 'kwargs'])
  order = S.choose(0, "states", values=['params,stats', 'stats,params', 'state,stats', 'params,state', 'node', 'whole', 'override', 'override name', 'state first', 'state between', 'two states'])
  detail = f"apply {order} {method} {layout}"
  I = jx.Inputs(S)
  for nm, sh in LAYOUTS[layout].items(): I.f32("p:" + nm, sh); I.f32("g0:" + nm, sh)
  I.f32("count"); I.f32("count2"); I.f32("x"); I.f32("k")
  def run(inp, via):
    (params, bs), md = build(nnx, layout, inp, inp["count"])
    (p2, bs2), _ = build(nnx, layout, {"p:" + nm: inp["g0:" + nm] for nm in LAYOUTS[layout]}, inp["count2"])
    tx = optax.sgd(0.5)
    ts = nnx.TrainState(md, params=params, tx=tx, stats=bs, boxed=nnx.Node(bs2), p2=p2, all=nnx.State.merge(params, bs))
    names = {'params,stats': ["params", "stats"], 'stats,params': ["stats", "params"], 'state,stats': [p2, "stats"], 'params,state': ["params", bs2], 'node': ["params", "boxed"], 'whole': ["all"],
             'state first': [p2, "all"], 'state between': ["all", p2, "params"], 'two states': [bs2, p2, "all", bs2],
             'override': ["all", p2], 'override name': ["all", "p2", bs2]}[order]
    val = dict(params=params, stats=bs, boxed=bs2, p2=p2, all=nnx.State({**dict(params), **dict(bs)}))
    if via: f = ts.apply(*names)
    x, k = inp["x"], inp["k"]
    if via:
      out, pure = f(x) if method == 'call' else f.other(x) if method == 'other' else f(x, k=k)
      return out, pure.get_state()
    flat = {}
    for q in names: flat.update(dict(val[q] if isinstance(q, str) else q))
    m = md.merge(nnx.State(flat))
    out = m(x) if method == 'call' else m.other(x) if method == 'other' else m(x, k=k)
    return out, m.partition()[0]
  jx.agree(S, I, lambda inp: run(inp, True), lambda inp: run(inp, False), "apply", detail)

def h_unknown(S):
  """a field the train state does not have cannot be passed when applying gradients"""
  nnx = S.nnx
  m = nnx.Dict(a=nnx.Param(jnp.ones(2)))
  params, md = m.partition()
  ex = S.choose(0, "extra", values=[None, 'x', 'aa'])
  kw = {ex: S.choose(0, "extra value", values=[None, 1, 'tag'])} if ex else {}
  ts = nnx.TrainState(md, params=params, tx=optax.sgd(0.5), **kw)
  if S.flip("round trip"): ts = jax.tree_util.tree_map(lambda x: x, ts)
  name = S.choose(0, "name", values=['x', 'aa', 'zz', '_x', 'apply_gradients', 'param', 'create'])
  S.assume(name != ex, "known")
  val = S.choose(0, "value", values=[None, 2, False, 'array'])
  kw2 = {name: jnp.ones(2) if val == 'array' else val}
  if ex and S.flip("with a known field"): kw2 = {ex: 5, **kw2} if S.flip("known first") else {**kw2, ex: 5}
  before = dict(vars(ts))
  try: ts.apply_gradients(params, **kw2); err = None
  except ValueError as e: err = e
  S.check(err is not None, "unknown fields are rejected", lambda: f"{sorted(kw2)} with {sorted(kw)}")
  S.check(set(vars(ts)) == set(before) and all(vars(ts)[k] is before[k] for k in before), "unknown fields are rejected", lambda: f"the train state changed: {sorted(kw2)}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn="h_step", **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=3))
  O = list(optimisers())
  j("optimisers", opts=O, layouts=['two'], nsteps=[1, 2])
  j("layouts", opts=['sgd', 'adam'], layouts=list(LAYOUTS), steps0=[None, 0, 3, 'array', 'vector'])
  j("extras", opts=['momentum'], layouts=['one'], nsteps=[1, 2], extras=[(e,) for e in EXTRAS])
  pairs = [(a, b) for a in EXTRAS[1:] for b in EXTRAS[1:]]
  j("extra pairs", opts=['sgd'], layouts=['one'], nsteps=[2] if T else [1], extras=pairs)
  j("extras many", opts=['sgd'], layouts=['one'], nsteps=[2], extras=[('state', 'static', 'node'), ('array', 'plain', 'param'), ('string', 'state', 'array'), ('static', 'plain', 'string')])
  j("apply", "h_apply", layouts=list(LAYOUTS) if T else ['two', 'shared'])
  if T:
    for o in O: j("deep " + o, opts=[o], layouts=list(LAYOUTS), nsteps=[3], steps0=[0, 'array'])
  j("unknown fields", "h_unknown")
  return J
