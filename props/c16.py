"""C16 nnx.grad"""
import functools
import jax, jax.numpy as jnp, numpy as np
from sx import jx, progs
from sx.progs import facts, build, inputs, run, choose_prog, at, canonical, SHAPES

BOUNDS = dict(
  quick="module graphs of 9 shapes (<= 4 modules; trees, sharing, cycles), every module with a Param, a BatchStat, a raw array, static values; losses = programs of <= 2 operations on any module through any alias path, then a polynomial in the accumulator and in nodes of the graph; wrt = variable types, union, everything, nothing, predicate on path or value, negation, tuples nested or ending with everything; stateful or not, with or without auxiliary output (dicts, tuples of any length, lists, arrays, None, states), 1-2 calls, inside nnx.jit, nested in another grad, integer variables with and without allow_int, reduce_axes under a mapped axis, gradient applied by update_state; all array values (vectors of 2, exact arithmetic)",
  thorough="programs of 3 operations on shared and cyclic graphs, every filter on every shape with two operations")
OUTSIDE = "holomorphic gradients of complex values (only that the option reaches jax.grad: real values are refused); deleting nodes or changing their type or metadata inside the function; non-smooth functions"
ASSUMPTIONS = ["floats are exact reals", "jax.grad of the function that rebuilds the module from the differentiated values is the reference derivative"]
WITNESSES = ["gradients equal the functional form", "gradient paths and containers", "auxiliary output", "state updates applied", "updates discarded", "identities and statics kept", "gradients can be applied", "not a module rejected", "inside jit", "nested", "integer variables", "reduced axes"]

FILTERS = ['default', 'Param', 'BatchStat', 'both', 'all', 'none', 'path', 'value', 'not Param', 'Node', 'Param or all', 'nested']
def wrt(nnx, f, shape):
  last = max(canonical(shape).values(), key=lambda p: (len(p), p))
  lastw = "/".join(last + ("w",))
  P, B = nnx.Param, nnx.BatchStat
  d = dict(Param=(P, lambda p, k: k == 'w'), BatchStat=(B, lambda p, k: k == 'c'), both=((P, B), lambda p, k: k in 'wc'), all=(..., lambda p, k: True),
    none=(None, lambda p, k: False), path=((lambda path, v: path == lastw), lambda p, k: p == lastw), value=((lambda path, v: isinstance(v, nnx.BatchStat) or path == 'r'), lambda p, k: k == 'c' or p == 'r'))
  d['default'] = d['Param']
  if hasattr(nnx, 'Not'): d['not Param'] = (nnx.Not(P), lambda p, k: k != 'w')
  d['Node'] = (nnx.Node, lambda p, k: k in 'wc')
  d['Param or all'] = ((P, ...), lambda p, k: True)
  d['nested'] = (((P,), (None, B)), lambda p, k: k in 'wc')
  return d.get(f)

NAMES = dict(w=('w', 'Param'), c=('c', 'BatchStat'), r=('r', None))
def selected(nnx, shape, f):
  """canonical path -> (module index, attr) of every selected node"""
  pred = wrt(nnx, f, shape)[1]
  can = canonical(shape)
  out = {}
  for i in range(SHAPES[shape][0]):
    for k in 'wcr':
      p = "/".join(can[i] + (k,))
      if pred(p, k): out[p] = (i, k)
  return out

def loss_of(nnx, m, acc, x, shape, aux):
  t = [at(m, p) for p in canonical(shape).values()]
  l = jnp.sum(acc * acc)
  for i, q in enumerate(t): l = l + jnp.sum(q.w * x) * q.c + jnp.sum(q.r * q.w)
  return l

def h_grad(S, shapes=('single',), nops=1, ops=tuple(progs.OPS), filters=('default',), modes=('plain',), alias=True, calls=1, auxs=(None, 'dict')):
  nnx = S.nnx
  shape = S.choose(0, "shape", values=list(shapes))
  flt = S.choose(0, "filter", values=[f for f in filters if wrt(nnx, f, shape) is not None])
  stateful = not S.flip("stateless")
  auxk = S.choose(0, "aux", values=list(auxs))
  aux = auxk is not None
  mode = S.choose(0, "mode", values=list(modes))
  prog = choose_prog(S, shape, nops, ops, alias=alias)
  I = inputs(S, shape); I.f32("y", (2,))
  sel = selected(nnx, shape, flt)
  detail = f"{shape} wrt {flt} {prog} stateful={stateful} aux={aux} {mode}"
  def f(m, x):
    acc = run(nnx, prog, m, x)
    l = loss_of(nnx, m, acc, x, shape, aux)
    if not aux: return l
    return l, dict(dict=lambda: {'acc': acc, 'w': m.w}, pair=lambda: (acc, m.w), single=lambda: (acc,), array=lambda: acc, none=lambda: None, list=lambda: [acc, (m.w, {})], empty=lambda: (), state=lambda: m.filter(nnx.Param))[auxk]()
  rec = {}
  def real(inp):
    ms = build(nnx, shape, inp); m = ms[0]
    before = list(facts(nnx, m)[2])
    kw = {} if flt == 'default' else dict(wrt=wrt(nnx, flt, shape)[0])
    if not stateful: kw['stateful'] = False
    if aux: kw['has_aux'] = True
    g = nnx.grad(f, **kw)
    f0, v0, o0 = facts(nnx, m)
    outs = []
    def once(x):
      if mode == 'jit':
        out = nnx.jit(lambda m, x: _plain(g(m, x)))(m, x)
        gr, au = out
        return gr, au
      out = g(m, x)
      gr, au = out if aux else (out, None)
      S.check(isinstance(gr, nnx.State), "gradient paths and containers", lambda: f"{type(gr)}")
      S.check(set(gr) == set(sel), "gradient paths and containers", lambda: f"{sorted(gr)} expected {sorted(sel)}; {detail}")
      for p, (i, k) in sel.items():
        v = gr[p]
        cls = dict(w=nnx.Param, c=nnx.BatchStat, r=None)[k]
        if cls is None: S.check(not isinstance(v, nnx.Node), "gradient paths and containers", lambda: f"{p} {type(v)}")
        else:
          S.check(type(v) is cls, "gradient paths and containers", lambda: f"{p} {type(v)}")
          S.check({q: z for q, z in vars(v).items() if q != 'value'} == {q: z for q, z in vars(vars(ms[i])[k]).items() if q != 'value'}, "gradient paths and containers", lambda: f"metadata of {p}")
      return {p: (v.value if isinstance(v, nnx.Node) else v) for p, v in gr.items()}, au
    def _plain(out):
      gr, au = out if aux else (out, None)
      return {p: (v.value if isinstance(v, nnx.Node) else v) for p, v in gr.items()}, au
    for c in range(calls):
      outs.append(once(inp["x"] if c == 0 else inp["y"]))
      if mode == 'apply' and stateful is False:
        out = g(m, inp["x"]); gr = out[0] if aux else out
        m.update_state(gr)
        for p, (i, k) in sel.items(): S.check(dict(w=nnx.Param, c=nnx.BatchStat).get(k, object) is object or type(vars(ms[i])[k]) is dict(w=nnx.Param, c=nnx.BatchStat)[k], "gradients can be applied")
    f1, v1, o1 = facts(nnx, m)
    if not stateful and mode != 'apply':
      S.check(f0 == f1 and all(a is b for a, b in zip(o0, o1)), "updates discarded", "structure changed")
      S.check(all(v1[k] is v0[k] for k in v0) or mode == 'jit', "updates discarded", "value changed")
    S.check(all(any(a is b for b in o1) for a in before), "identities and statics kept", "module objects replaced")
    rec['f'] = f1
    return outs, v1
  def ref(inp):
    cur = dict(inp)
    outs = []
    final = None
    ms = build(nnx, shape, inp); m = ms[0]
    for c in range(calls):
      x = inp["x"] if c == 0 else inp["y"]
      # values the nodes have now
      now = {p: getattr(ms[i], k) for p, (i, k) in sel.items()}
      def functional(d):
        ms2 = build(nnx, shape, inp)
        for c2 in range(c): run(nnx, prog, ms2[0], inp["x"]) if stateful else None
        for p, (i, k) in sel.items():
          vars(ms2[i])[k] = vars(ms2[i])[k].replace(value=d[p]) if isinstance(vars(ms2[i])[k], nnx.Node) else d[p]
        return f(ms2[0], x)
      gr = jax.grad(functional, has_aux=aux)(now)
      outs.append(gr if aux else (gr, None))
      if stateful:
        f(m, x)
      elif mode == 'apply':
        gg = gr[0] if aux else gr
        for p, (i, k) in sel.items(): setattr(ms[i], k, gg[p])
    f1, v1, _ = facts(nnx, m)
    if 'f' in rec:
      S.check(rec['f'] == f1, "identities and statics kept", lambda: f"{rec['f']} expected {f1}; {detail}")
    return outs, v1
  for lab in ("auxiliary output",) if aux else (): S.reach(lab)
  S.reach("state updates applied" if stateful else "updates discarded")
  if mode == 'jit': S.reach("inside jit")
  if mode == 'apply': S.reach("gradients can be applied")
  jx.agree(S, I, real, ref, "gradients equal the functional form", detail)

def h_nested(S):
  """grad of a function that itself uses nnx.grad / nnx.jit, jit of grad, wrong argument"""
  nnx = S.nnx
  shape = S.choose(0, "shape", values=['single', 'chain', 'cycle', 'shared'])
  how = S.choose(0, "how", values=['grad in grad', 'jit in grad', 'jax grad outside', 'args pytree', 'value and static'])
  op = S.choose(0, "op", values=['scale', 'add', 'new', 'noop'])
  I = inputs(S, shape)
  def f(m, x):
    acc = run(nnx, [(op, ())], m, x)
    return loss_of(nnx, m, acc, x, shape, False)
  def vals(st): return {p: (v.value if isinstance(v, nnx.Node) else v) for p, v in st.items()}
  def real(inp):
    m = build(nnx, shape, inp)[0]; x = inp["x"]
    if how == 'grad in grad':
      def outer(m, x):
        g = nnx.grad(f, stateful=False)(m, x)
        return sum(jnp.sum(v ** 2) for v in vals(g).values()) + jnp.sum(m.w)
      o = vals(nnx.grad(outer)(m, x))
    elif how == 'jit in grad': o = vals(nnx.grad(lambda m, x: nnx.jit(f)(m, x) * 2)(m, x))
    elif how == 'jax grad outside':
      def h(x):
        m2 = build(nnx, shape, inp)[0]
        g = nnx.grad(f)(m2, x)
        return sum(jnp.sum(v) for v in vals(g).values())
      o = jax.grad(h)(x)
    elif how == 'args pytree': o = vals(nnx.grad(lambda m, d, t: f(m, d['x']) * t[0])(m, {'x': x}, (jnp.sum(x), 3)))
    else: o = vals(nnx.grad(lambda m, x: f(m, x) * m.k)(m, x))
    return o, facts(nnx, m)[1]
  sel = selected(nnx, shape, 'Param')
  def ref(inp):
    x = inp["x"]
    def fun(d, x, g=f):
      ms = build(nnx, shape, inp)
      for p, (i, k) in sel.items(): vars(ms[i])[k] = vars(ms[i])[k].replace(value=d[p])
      return g(ms[0], x)
    now = {p: inp[f"{k}{i}"] for p, (i, k) in sel.items()}
    m = build(nnx, shape, inp)[0]
    if how == 'grad in grad':
      o = jax.grad(lambda d: sum(jnp.sum(v ** 2) for v in jax.grad(fun)(d, x).values()) + jnp.sum(d[min(sel, key=lambda p: sel[p])]))(now)
    elif how == 'jit in grad': o = jax.grad(lambda d: fun(d, x) * 2)(now); f(m, x)
    elif how == 'jax grad outside': o = jax.grad(lambda x: sum(jnp.sum(v) for v in jax.grad(fun)(now, x).values()))(x)
    elif how == 'args pytree': o = jax.grad(lambda d: fun(d, x) * jnp.sum(x))(now); f(m, x)
    else: o = jax.grad(lambda d: fun(d, x, lambda m, x: f(m, x) * m.k))(now); f(m, x)
    return o, facts(nnx, m)[1]
  S.reach("nested")
  for bad in (3, None, {}):
    try: nnx.grad(f)(bad, 1.0); ok = False
    except TypeError: ok = True
    S.check(ok, "not a module rejected")
  jx.agree(S, I, real, ref, "gradients equal the functional form", f"{how} {shape} {op}")

def h_options(S):
  """allow_int, holomorphic, reduce_axes"""
  nnx = S.nnx
  opt = S.choose(0, "option", values=['allow_int', 'no allow_int', 'holomorphic', 'reduce_axes', 'other axis'])
  stateful = S.flip("stateful")
  aux = S.flip("aux")
  wrtk = S.choose(0, "wrt", values=['default', 'all', 'Param'])
  I = jx.Inputs(S)
  I.f32("w", (2,)); I.f32("u", (2,)); I.f32("x", (2, 2) if 'ax' in opt else (2,)); I.int("n", (2,), lo=-3, hi=3)
  ints = 'int' in opt
  kw = dict(stateful=stateful, has_aux=aux)
  if wrtk != 'default': kw['wrt'] = ... if wrtk == 'all' else nnx.Param
  okw = {}
  if opt == 'allow_int': okw = dict(allow_int=True)
  if opt == 'holomorphic': okw = dict(holomorphic=True)
  if opt == 'reduce_axes': okw = dict(reduce_axes=('b',))
  if opt == 'other axis': okw = dict(reduce_axes=())
  def loss(m, x):
    l = jnp.sum(m.w * m.w * x) + jnp.sum(m.s.u * m.w)
    if ints: l = l + jnp.sum(m.n * m.w)
    m.s.u = m.s.u * 2 + x
    return (l, {'x': x + 1, 'l': l}) if aux else l
  def make(inp):
    m = nnx.Dict(w=nnx.Param(inp["w"]), s=nnx.Dict(u=nnx.BatchStat(inp["u"])))
    if ints: m.n = nnx.Param(inp["n"])
    return m
  names = ['w'] + (['n'] if ints else []) + (['s/u'] if wrtk == 'all' else [])
  def val(v): return v.value if isinstance(v, nnx.Node) else v
  def clean(p, v):
    if p == 'n':
      S.check(jnp.result_type(v) == jax.dtypes.float0, "integer variables", lambda: f"{v}"); S.reach("integer variables")
      return None
    return v
  def split(out): return out if aux else (out, None)
  def state(m): return {p: val(v) for p, v in m.get_state().items()}
  def one_real(inp, x):
    m = make(inp)
    gr, a = split(nnx.grad(loss, **kw, **okw)(m, x))
    S.check(set(gr) == set(names), "gradient paths and containers", lambda: f"{sorted(gr)}")
    S.check(all(type(vars(gr[p]).get('value', None)) is not type(None) and type(gr[p]) is (nnx.BatchStat if p == 's/u' else nnx.Param) for p in names), "gradient paths and containers")
    return {p: clean(p, val(v)) for p, v in gr.items()}, a, state(m)
  def one_ref(inp, x):
    d = {'w': inp["w"], **({'n': inp["n"]} if ints else {}), **({'s/u': inp["u"]} if wrtk == 'all' else {})}
    def fun(d):
      m = make({**inp, 'w': d['w'], 'n': d.get('n'), 'u': d.get('s/u', inp["u"])})
      return loss(m, x)
    gr, a = split(jax.grad(fun, has_aux=aux, **okw)(d))
    m = make(inp)
    if stateful: loss(m, x)
    return {p: clean(p, v) for p, v in gr.items()}, a, state(m)
  if opt in ('no allow_int', 'holomorphic'):
    inp = I.numbers()
    m = make(inp); before = state(m)
    try: nnx.grad(loss, **kw, **okw)(m, inp["x"]); ok = False
    except TypeError: ok = True
    S.check(ok, "integer variables" if ints else "gradient paths and containers", f"{opt}: not refused")
    after = state(m)
    S.check(set(after) == set(before) and all(after[p] is before[p] for p in before), "updates discarded", "after a refused gradient")
    return
  if 'ax' in opt:
    S.reach("reduced axes")
    real = lambda inp: jax.vmap(lambda x: one_real(inp, x), axis_name='b')(inp["x"])
    ref = lambda inp: jax.vmap(lambda x: one_ref(inp, x), axis_name='b')(inp["x"])
  else: real, ref = (lambda inp: one_real(inp, inp["x"])), (lambda inp: one_ref(inp, inp["x"]))
  jx.agree(S, I, real, ref, "gradients equal the functional form", f"{opt} {kw}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=4))
  core = ['scale', 'add', 'swap', 'new', 'upd', 'raw', 'sow', 'static2node']
  for s in SHAPES:
    j(f"filters {s}", "h_grad", shapes=[s], nops=1, ops=['scale', 'new', 'upd', 'raw'] if s not in ('single', 'chain') else core, filters=FILTERS, alias=s in ('shared', 'cycle'))
  for s in ['shared', 'cycle', 'ring', 'diamond', 'single']:
    j(f"all ops {s}", "h_grad", shapes=[s], nops=1, filters=['default'], modes=['plain', 'jit', 'apply'], alias=s != 'ring')
  for s in ['single', 'cycle']:
    j(f"two calls {s}", "h_grad", shapes=[s], nops=1, ops=[o for o in progs.OPS if o != 'new'], filters=['default'], modes=['plain', 'jit'], calls=2)
  j("two ops single", "h_grad", shapes=['single'], nops=2, filters=['default', 'BatchStat'])
  j("two ops shared", "h_grad", shapes=['shared'], nops=2, ops=['scale', 'swap', 'upd', 'new'], filters=['default'])
  j("nested", "h_nested")
  j("options", "h_options")
  for s in ['single', 'shared']:
    j(f"auxiliary outputs {s}", "h_grad", shapes=[s], nops=1, ops=['scale', 'new'], filters=['default', 'Param or all'], modes=['plain', 'jit'], alias=False, auxs=['pair', 'single', 'array', 'none', 'list', 'empty', 'state'])
  if T:
    for s in ['chain', 'selfref', 'pair', 'shared', 'cycle']:
      j(f"two ops {s}", "h_grad", shapes=[s], nops=2, ops=core, filters=['default', 'all'], alias=False)
    for s in ['shared', 'cycle']: j(f"three ops {s}", "h_grad", shapes=[s], nops=3, ops=['scale', 'swap', 'upd', 'new'], filters=['default'], alias=False)
  return J
