"""C15 nnx.jit is transparent"""
import functools
import jax, jax.numpy as jnp, numpy as np
from sx import jx, progs
from sx.progs import facts, build, inputs, run, choose_prog, at

BOUNDS = dict(
  quick="module graphs of 9 shapes (<= 4 modules; trees, sharing, cycles), every module with a Param, a BatchStat, a raw array, static values; functions = programs of <= 2 operations (out of 12: scale, accumulate, swap, create variable / raw node, update_state, static to node, use a clone, sow, read static) on any module through any alias path; 2-3 calls with the values, the structure, statics or the shape of the argument changed in between; all array values (vectors of 2, exact arithmetic); stateful or not; functions that raise after any operation; contexts with any keys; static arguments; lowering and compiling with the arguments of a call (programs of one operation, fixed array values)",
  thorough="programs of 3 operations on shared, cyclic and deep graphs; two jitted functions interleaved")
OUTSIDE = "static values that compare equal but are not the same kind (1, 1.0, True: one definition, like jax's static metadata); deleting nodes, changing their type or metadata, or turning nodes into statics inside the function; donated arguments; shardings; floating point rounding"
ASSUMPTIONS = ["floats are exact reals, random bits are uninterpreted functions of the key", "the jaxpr of the real code under jax.make_jaxpr is what it computes when called directly (sampled paths are also run directly)"]
WITNESSES = ["same output and state as the direct call", "identities and statics kept", "repeated calls", "stateless leaves the module alone", "raising leaves the module alone", "context passed", "static arguments", "not a module rejected", "nested jit", "lowering compiles the call"]

def result(S, nnx, m, before, lab):
  f, vals, order = facts(nnx, m)
  if before is not None:
    S.check(len(before) <= len(order) and all(a is b for a, b in zip(before, order)), lab, "module identities changed")
  return f, vals, order

def both(S, nnx, I, body, label, detail):
  """body(inp, jit) runs a history and returns (arrays, facts list); jit is nnx.jit or the identity"""
  rec = {}
  def real(inp):
    out, fs = body(inp, True); rec['r'] = fs; return out
  def ref(inp):
    out, fs = body(inp, False); rec['f'] = fs; return out
  def ref2(inp):
    o = ref(inp)
    if 'r' in rec:
      S.check(len(rec['r']) == len(rec['f']), "identities and statics kept")
      for a, b in zip(rec['r'], rec['f']): S.check(a == b, "identities and statics kept", lambda: f"{a} expected {b}; {detail}")
    return o
  jx.agree(S, I, real, ref2, label, detail)

def wrap(nnx, f, jit, **kw):
  if jit: return nnx.jit(f, **kw)
  return f

def h_prog(S, shapes=('single',), nops=2, ops=tuple(progs.OPS), calls=2, between=('same', 'value'), alias=True):
  nnx = S.nnx
  shape = S.choose(0, "shape", values=list(shapes))
  prog = choose_prog(S, shape, nops, ops, alias=alias)
  btw = S.choose(0, "between", values=list(between)) if calls > 1 else None
  I = inputs(S, shape)
  I.f32("y", (2,)); I.f32("big", (2, 2))
  def body(inp, jit):
    ms = build(nnx, shape, inp)
    m = ms[0]
    f = wrap(nnx, lambda m, x: run(nnx, prog, m, x), jit)
    before = list(facts(nnx, m)[2])
    if btw == 'hash': ms[-1].k = -1; m.k = -1
    outs, fs = [], []
    def look():
      fx, vals, order = facts(nnx, m)
      S.check(len(before) <= len(order) and all(any(a is b for b in order) for a in before), "identities and statics kept", "module objects replaced")
      fs.append(fx); outs.append(vals)
    outs.append(f(m, inp["x"])); look()
    for c in range(calls - 1):
      if btw == 'value': m.w = inp["y"]; ms[-1].c = ms[-1].c * 2
      elif btw == 'structure': ms[-1].extra = nnx.Param(inp["y"])
      elif btw == 'static': ms[-1].k = 7; m.k = 11
      elif btw == 'hash': ms[-1].k = -2; m.k = -2   # equal hashes
      elif btw == 'module': m.fresh = progs.classes(nnx)['M'](); m.fresh.w = nnx.Param(inp["y"])
      elif btw == 'rewire' and len(ms) > 1:
        nw = progs.classes(nnx)['N'](); vars_ = dict(w=nnx.Param(inp["y"], sharding=('d',)), c=nnx.BatchStat(inp["c0"]), r=inp["r0"], k=9, st=nnx.Static("s"))
        for k, v in vars_.items(): setattr(nw, k, v)
        for a, nme, b in progs.SHAPES[shape][1]:
          if a != 0 or b != 1: continue
          for a2, n2, b2 in progs.SHAPES[shape][1]:
            if a2 == 1: setattr(nw, n2, ms[b2])
          setattr(m, nme, nw); before[:] = [q for q in before if q is not ms[1]]; before.append(nw)
          break
      elif btw == 'other object':
        ms2 = build(nnx, shape, {**inp, "w0": inp["y"]})
        outs.append(f(ms2[0], inp["x"])); outs.append(facts(nnx, ms2[0])[1])
      if btw == 'argument': outs.append(f(m, inp["x"][:1]) if False else f(m, inp["big"][0] * 2))
      else: outs.append(f(m, inp["x"] if btw == 'same' else inp["y"]))
      look()
    # still usable
    m.w = m.w + 1
    return outs, fs
  S.reach("repeated calls"); S.reach("identities and statics kept")
  both(S, nnx, I, body, "same output and state as the direct call", f"{shape} {prog} {btw}")

def h_stateless(S, shapes=('single',), nops=1, ops=tuple(progs.OPS), mode='stateless'):
  nnx = S.nnx
  shape = S.choose(0, "shape", values=list(shapes))
  prog = choose_prog(S, shape, nops, ops)
  stateful = mode == 'raise' and S.flip("stateful")
  after = S.choose(nops + 1, "raise after") if mode == 'raise' else None
  I = inputs(S, shape)
  class Boom(Exception): pass
  lab = "stateless leaves the module alone" if mode == 'stateless' else "raising leaves the module alone"
  def untouched(m, before):
    f0, v0, o0 = before
    f1, v1, o1 = facts(nnx, m)
    S.check(f0 == f1 and len(o0) == len(o1) and all(a is b for a, b in zip(o0, o1)), lab, "structure changed")
    S.check(all(v1[k] is v0[k] for k in v0), lab, "value changed")
  def body(inp, jit):
    ms = build(nnx, shape, inp); m = ms[0]
    if mode == 'stateless':
      if jit:
        b = facts(nnx, m)
        o = nnx.jit(lambda m, x: run(nnx, prog, m, x), stateful=False)(m, inp["x"])
        untouched(m, b)
        m.w = m.w * 2
        o2 = nnx.jit(lambda m, x: run(nnx, prog, m, x), stateful=False)(m, inp["x"])
      else:
        o = run(nnx, prog, m, inp["x"])
        m = build(nnx, shape, inp)[0]
        m.w = m.w * 2
        o2 = run(nnx, prog, m, inp["x"])
      return [o, o2], []
    def f(m, x, bad):
      if bad:
        run(nnx, prog[:after], m, x)
        raise Boom()
      return run(nnx, prog, m, x)
    if jit:
      g = nnx.jit(f, static_argnums=2, **({} if stateful else dict(stateful=False)))
      b = facts(nnx, m)
      try: g(m, inp["x"], True); S.fail(lab, "no exception")
      except Boom: pass
      untouched(m, b)
      m.w = m.w * 1
      o = g(m, inp["x"], False)
    else: o = f(m, inp["x"], False)
    if jit and not stateful: return [o], []
    if not jit and not stateful: return [o], []
    return [o, facts(nnx, m)[1]], []
  S.reach(lab)
  both(S, nnx, I, body, lab, f"{shape} {prog}")

def h_args(S):
  """argument passing: positional, keyword, pytrees, static arguments, contexts"""
  nnx = S.nnx
  how = S.choose(0, "how", values=['positional', 'keyword', 'pytree', 'static name', 'static num', 'ctx', 'ctx flags', 'nested', 'two streams', 'decorator', 'partial decorator', 'method', 'outer stateless'])
  shape = S.choose(0, "shape", values=['single', 'cycle', 'shared'])
  op = S.choose(0, "op", values=['scale', 'add', 'new'])
  I = inputs(S, shape)
  I.key("key"); I.key("key2")
  def f(m, x, **kw):
    acc = run(nnx, [(op, ())], m, x)
    ctx = kw.get('ctx')
    if ctx is not None:
      k = ctx.make_rng('params')
      acc = acc + jax.random.uniform(k, (2,))
      m.w = m.w + jax.random.uniform(ctx.make_rng('params'), (2,))
      if how == 'two streams': acc = acc * jax.random.uniform(ctx.make_rng('dropout'), (2,))
      if ctx.get_flag('train'): acc = acc * 3
    return acc
  def body(inp, jit):
    ms = build(nnx, shape, inp); m = ms[0]; x = inp["x"]
    outs = []
    if how == 'positional': outs.append(wrap(nnx, f, jit)(m, x))
    elif how == 'keyword': outs.append(wrap(nnx, lambda m, *, x: f(m, x), jit)(m, x=x))
    elif how == 'pytree':
      g = wrap(nnx, lambda m, d, t: {'o': [f(m, d['a'] + t[1])], 'n': None}, jit)
      outs.append(g(m, {'a': x}, (1, x)))
    elif how == 'static name':
      g = wrap(nnx, lambda m, x, mode: f(m, x) * (2 if mode == 'two' else 3), jit, **(dict(static_argnames='mode') if jit else {}))
      outs += [g(m, x, mode='two'), g(m, x, mode='three')]
    elif how == 'static num':
      g = wrap(nnx, lambda m, x, mode: f(m, x) * (2 if mode == 'two' else 3), jit, **(dict(static_argnums=2) if jit else {}))
      outs += [g(m, x, 'two'), g(m, x, 'three')]
    elif how in ('ctx', 'two streams', 'ctx flags'):
      g = wrap(nnx, f, jit)
      rngs = dict(params=inp["key"], dropout=inp["key2"])
      for k in range(2):
        ctx = nnx.context(**rngs, flags=dict(train=True)) if how == 'ctx flags' else nnx.context(**rngs)
        if k: outs.append(jax.random.uniform(ctx.make_rng('params'), (2,)))
        outs.append(g(m, x, ctx=ctx if jit else ctx.partition().merge()))
        outs.append(jax.random.uniform(ctx.make_rng('dropout'), (2,)))
    elif how == 'nested':
      inner = wrap(nnx, lambda m, x: f(m, x) + 1, jit)
      outs.append(wrap(nnx, lambda m, x: inner(m, x) * m.w, jit)(m, x))
      if shape != 'single': outs.append(wrap(nnx, lambda m, x: inner(m.p, x) * m.w, jit)(m, x))
    elif how == 'decorator':
      if jit:
        @nnx.jit
        def g(m, x): return f(m, x)
      else: g = f
      outs += [g(m, x), g(m, x * 2)]
    elif how == 'partial decorator':
      if jit:
        @functools.partial(nnx.jit, stateful=True)
        def g(m, x): return f(m, x)
      else: g = f
      outs += [g(m, x)]
    elif how == 'method':
      M = type(m)
      g = wrap(nnx, lambda self, x: f(self, x), jit)
      outs += [g(m, x), g(ms[-1], x)]
    elif how == 'outer stateless':
      if jit:
        outs.append(nnx.jit(lambda m, x: (nnx.jit(f)(m, x), m.w), stateful=False)(m, x))
        m = build(nnx, shape, inp)[0]
      else:
        outs.append((f(m, x), m.w)); m = build(nnx, shape, inp)[0]
    fx, vals, _ = facts(nnx, m)
    return [outs, vals], [fx]
  S.reach("context passed"); S.reach("static arguments"); S.reach("nested jit")
  for bad in (3, None, {}, lambda: 0):
    try: nnx.jit(f)(bad, 1); ok = False
    except TypeError: ok = True
    S.check(ok, "not a module rejected")
  both(S, nnx, I, body, "same output and state as the direct call", f"{how} {shape} {op}")

def h_lower(S, shapes=('single', 'shared', 'cycle'), ops=tuple(progs.OPS)):
  """lowering with the arguments of a call: the compiled computation is that call's, and nothing happens yet"""
  nnx = S.nnx
  shape = S.choose(0, "shape", values=list(shapes))
  prog = choose_prog(S, shape, 1, ops, alias=False)
  stateful = S.flip("stateful"); ctx = S.flip("ctx"); form = S.choose(0, "form", values=['module', 'split'])
  I = inputs(S, shape); num = I.numbers(None, 0)
  traced = []
  def f(m, x, ctx=None):
    traced.append(1)
    o = run(nnx, prog, m, x)
    return o + (jax.random.uniform(ctx.make_rng('params'), (2,)) if ctx is not None else 0)
  kw = lambda: dict(ctx=nnx.context(params=jax.random.PRNGKey(1))) if ctx else {}
  m = build(nnx, shape, num)[0]
  b = facts(nnx, m)
  g = nnx.jit(f, **({} if stateful else dict(stateful=False)))
  low = g.lower(m if form == 'module' else m.partition(), num["x"], **kw())
  f1, v1, o1 = facts(nnx, m)
  lab = "lowering leaves the module alone"
  S.check(f1 == b[0] and all(p is q for p, q in zip(o1, b[2])) and all(v1[k] is b[1][k] for k in b[1]), lab)
  S.check(len(traced) == 1, "lowering compiles the call", lambda: f"traced {len(traced)} times")
  pkw = {k: c.partition() for k, c in kw().items()}
  out = low.compile()(m.partition(), num["x"], **pkw)
  f1, v1, o1 = facts(nnx, m)
  S.check(f1 == b[0] and all(v1[k] is b[1][k] for k in b[1]), lab)
  d = build(nnx, shape, num)[0]
  want = f(d, num["x"], **{k: c.merge() for k, c in pkw.items()}) if ctx else f(d, num["x"])
  if stateful:
    updates, out = out
    m.update_state(updates)
    f2, v2, _ = facts(nnx, m); f3, v3, _ = facts(nnx, d)
    S.check(f2 == f3, "lowering compiles the call", lambda: f"{f2} {f3}")
    jx.compare(S, v2, v3, "lowering compiles the call", f"{shape} {prog}")
  jx.compare(S, out, want, "lowering compiles the call", f"{shape} {prog}")

KINDS = {'numpy': lambda a: np.asarray([1.5, -2], np.float32), 'numpy int': lambda a: np.asarray([3, 4], np.int32), 'numpy 0d': lambda a: np.asarray(2.5, np.float32), 'numpy scalar': lambda a: np.float32(2.5), 'jax': lambda a: a, 'jax int': lambda a: jnp.asarray([3, 4]),
  'Param numpy': lambda a: ('Param', np.asarray([1.5, -2], np.float32)), 'Param number': lambda a: ('Param', 2.5), 'Param int': lambda a: ('Param', 3), 'Node numpy': lambda a: ('Node', np.asarray([1.5, -2], np.float32)),
  'Param tuple': lambda a: ('Param', (a, np.asarray(3))), 'Param dict': lambda a: ('BatchStat', {'k': a, 'j': [a]}), 'Param none': lambda a: ('Param', None)}
def h_kinds(S):
  """nodes of every kind of value, also those that a call turns into arrays"""
  nnx = S.nnx
  kd = S.choose(0, "kind", values=list(KINDS)); op = S.choose(0, "op", values=['keep', 'add', 'replace', 'number', 'other']); calls = S.choose(0, "calls", values=[1, 2, 3])
  stateful = S.choose(0, "stateful", values=[True, False])
  I = jx.Inputs(S); I.f32("x", (2,)); I.f32("a", (2,)); I.f32("w", (2,))
  tm = jax.tree_util.tree_map
  def f(m, x):
    out = tm(lambda v: v * 2 + jnp.sum(x), m.n)
    if op == 'add': m.n = tm(lambda v: v + jnp.sum(x), m.n)
    elif op == 'replace': m.n = x
    elif op == 'number': m.n = tm(lambda v: jnp.ones(2) * v, m.n)
    elif op == 'other': m.w = m.w * 2
    return out
  def body(inp, jit):
    m = progs.classes(nnx)['M'](); m.w = nnx.Param(inp["w"])
    v = KINDS[kd](inp["a"])
    m.n = getattr(nnx, v[0])(v[1]) if isinstance(v, tuple) else v
    g = nnx.jit(f, **({} if stateful else dict(stateful=False))) if jit else f
    outs = []
    for k in range(calls):
      if not stateful and not jit:
        c = m.clone(); outs.append(g(c, inp["x"]))
      else: outs.append(g(m, inp["x"]))
      role = type(vars(m)["n"]).__name__ if isinstance(v, tuple) else None
      S.check(not isinstance(v, tuple) or role == v[0], "identities and statics kept", lambda: f"{role} {kd}")
      outs.append((tm(lambda q: jnp.asarray(q, jnp.result_type(q)), m.n), m.w))
    return outs, [sorted(m.get_state())]
  both(S, nnx, I, body, "same output and state as the direct call", f"node {kd}, {op}, {calls} calls, stateful={stateful}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=5))
  big = ['shared', 'cycle', 'diamond', 'ring', 'sharedlate']
  for s in progs.SHAPES:
    j(f"one op {s}", "h_prog", shapes=[s], nops=1, between=['same', 'value', 'structure', 'static', 'module', 'rewire', 'other object', 'argument'])
  for s in ['single', 'chain', 'selfref']:
    j(f"two ops {s}", "h_prog", shapes=[s], nops=2, calls=1 if s != 'single' else 2, between=['same'])
  for s in ['shared', 'cycle']:
    j(f"two ops {s}", "h_prog", shapes=[s], nops=2, calls=1, ops=['scale', 'swap', 'new', 'upd', 'read'])
  j("stateless", "h_stateless", shapes=['chain', 'shared', 'cycle'], nops=1)
  j("raise", "h_stateless", shapes=['single', 'shared', 'cycle'], nops=1, mode='raise')
  j("kinds of values", "h_kinds")
  j("arguments", "h_args")
  j("lower", "h_lower", **({} if T else dict(ops=['scale', 'read', 'swap', 'new', 'static2node', 'sow'])))
  for s in ['single', 'shared']:
    j(f"equal hashes {s}", "h_prog", shapes=[s], nops=1, between=['hash'], ops=['k', 'static2node', 'scale'])
  if T:
    for s in big: j(f"two ops full {s}", "h_prog", shapes=[s], nops=2, between=['value'], alias=True)
    for s in ['shared', 'cycle']: j(f"three ops {s}", "h_prog", shapes=[s], nops=3, calls=1, ops=['scale', 'swap', 'new', 'upd', 'read'], alias=False)
    j("three calls", "h_prog", shapes=['shared', 'cycle'], nops=2, calls=3, between=['value', 'static'], ops=['scale', 'read', 'k', 'static2node', 'sow'])
    j("raise 2", "h_stateless", shapes=['shared', 'cycle'], nops=2, mode='raise', ops=['scale', 'new', 'upd', 'sow'])
  return J
