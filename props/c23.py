"""C23 BatchNorm and LayerNorm"""
import jax, jax.numpy as jnp, numpy as np
import z3
from fractions import Fraction
from sx import jx
from sx.graphs import less

BOUNDS = dict(
  quick="inputs of 1-3 dimensions of size 1-4 (2-4 elements per statistic), every feature axis, momentum 0, 1/4, 1/2, 3/4, 1, epsilon 1/4, with and without scale and bias, all 36 combinations of call argument, module setting and context flag, result dtypes, half precision inputs with every result of less than 32 bits rounded arbitrarily, 1-3 training and inference steps in a row, statistics combined over a vmapped axis of size 2, and over every way to form groups of 1, 2 or 4 members of an axis of size 4 (axis_index_groups; jax cannot map such a sum with vmap, so the rule for it is supplied by the check); LayerNorm with every set of reduction and feature axes; all array values in exact arithmetic",
  thorough="more shapes and axis sets, 8 elements per statistic")
OUTSIDE = "floating point rounding, except for the sign of the running variance, which is decided with every arithmetic result replaced by an unknown number of the right sign, statistics over a number of elements that is not a power of two, complex inputs"
ASSUMPTIONS = ["floats are exact reals", "sqrt and inverse are uninterpreted functions of normalised polynomials", "the variance is non-negative (checked by z3 as a separate query for every number of elements used)"]
WITNESSES = ["training output", "running statistics updated", "inference output", "running statistics unchanged", "mode from the first given source", "no mode rejected", "layer norm output", "result dtype", "steps in a row", "combined axis", "parameters", "running variance never negative", "computed in at least float32"]
DT = {None: None, 'float32': jnp.float32, 'float16': jnp.float16, 'bfloat16': jnp.bfloat16}

_proved = set()
def lemma(S, n):
  """mean of squares minus square of mean is non-negative for n reals"""
  if n in _proved or not S.symbolic: return
  _proved.add(n)
  # sum of squares identity, by z3: n * sum x_i^2 - (sum x_i)^2 = sum_{i<j} (x_i - x_j)^2 
  xs = [z3.Real(f"q{i}") for i in range(n)]
  lhs = n * z3.Sum([x * x for x in xs]) - z3.Sum(xs) * z3.Sum(xs)
  rhs = z3.Sum([(xs[i] - xs[j]) * (xs[i] - xs[j]) for i in range(n) for j in range(i + 1, n)] + [z3.RealVal(0)])
  s = z3.Solver(); s.add(z3.simplify(lhs - rhs, som=True) != 0)
  r = s.check(); S.eng.stats['queries'] += 1
  if r != z3.unsat: raise RuntimeError("variance lemma")

def nonneg(S, groups):
  """the variance polynomial of every group (z3: lemma) is >= 0"""
  def polys(terms):
    out = []
    for name, idxs in groups:
      for g in idxs:
        xs = [jx.z(terms[name][i]) for i in g]
        n = len(xs)
        lemma(S, n)
        k, s0 = z3.RatVal(1, n), z3.RealVal(0)
        out.append(k * z3.Sum([x * x for x in xs] + [s0]) - (k * z3.Sum(xs + [s0])) * (k * z3.Sum(xs + [s0])))
    return out
  return polys

def groups_of(shape, red):
  """index groups that share a statistic"""
  d = {}
  for ix in np.ndindex(*shape): d.setdefault(tuple(i for k, i in enumerate(ix) if k not in red), []).append(ix)
  return list(d.values())

def stats(x, red):
  """biased statistics by their definition, reduced axes kept with size 1"""
  n = 1
  for r in red: n *= x.shape[r]
  mean = jnp.sum(x, axis=red, keepdims=True) / n
  d = x - mean
  return mean, jnp.sum(d * d, axis=red, keepdims=True) / n

def norm(x, mean, var, eps, scale, bias): 
  y = (x - mean) / jnp.sqrt(var + eps)
  if scale is not None: y = y * scale
  return y + bias if bias is not None else y

def h_bn(S, shapes=((2, 2),), sources=((None, False, 'none'),), dtypes=(None,), momenta=(0.75,), steps=(1,), scales=((True, True),), axes=None, xdts=('float32',), vias=('call',), eps=0.25):
  nnx = S.nnx
  shape = tuple(S.choose(0, "shape", values=list(shapes)))
  axis = S.choose(0, "axis", values=list(axes) if axes else list(range(-len(shape), len(shape))))
  if not -len(shape) <= axis < len(shape): return
  f = axis % len(shape)
  red = tuple(i for i in range(len(shape)) if i != f)
  call, mod, flag = S.choose(0, "mode sources", values=[tuple(q) for q in sources])
  use_scale, use_bias = S.choose(0, "scale bias", values=[tuple(q) for q in scales])
  dt = S.choose(0, "dtype", values=list(dtypes)); xdt = S.choose(0, "input dtype", values=list(xdts)); mom = S.choose(0, "momentum", values=list(momenta)); nsteps = S.choose(0, "steps", values=list(steps))
  F = shape[f]
  via = S.choose(0, "called", values=list(vias))
  modes = []
  for k in range(nsteps):
    c = call if k == 0 else S.choose(0, f"mode{k}", values=[True, False])
    want = next((v for v in (c, mod, flag if flag not in ('none', 'no ctx') else None) if v is not None), None)
    modes.append((c, want))
  detail = f"BatchNorm {shape} axis {axis} momentum {mom} modes {modes} module={mod} flag={flag} scale={use_scale} bias={use_bias} dtype={dt} input {xdt} via {via}"
  kw = less(dict(axis=axis, momentum=mom, epsilon=eps, use_scale=use_scale, use_bias=use_bias), axis=-1, momentum=0.99, epsilon=1e-5, use_scale=True, use_bias=True)
  if mod is not None: kw['use_running_average'] = mod
  if dt: kw['dtype'] = DT[dt]
  m0 = nnx.BatchNorm(F, ctx=nnx.context(0), **kw)
  S.check(type(vars(m0)['mean']) is nnx.BatchStat and type(vars(m0)['var']) is nnx.BatchStat and type(vars(m0)['scale']) is nnx.Param and type(vars(m0)['bias']) is nnx.Param, "parameters", "types")
  S.check((m0.scale is None) == (not use_scale) and (m0.bias is None) == (not use_bias), "parameters", "scale or bias present")
  S.check(all(v.dtype == jnp.float32 for v in (m0.mean, m0.var, m0.scale, m0.bias) if v is not None), "parameters", "dtype")
  S.check(np.all(np.asarray(m0.mean) == 0) and np.all(np.asarray(m0.var) == 1) and m0.mean.shape == (F,) and m0.var.shape == (F,), "parameters", "initial statistics")
  if use_scale: S.check(m0.scale.shape == (F,) and np.all(np.asarray(m0.scale) == 1), "parameters", "scale")
  if use_bias: S.check(m0.bias.shape == (F,) and np.all(np.asarray(m0.bias) == 0), "parameters", "bias")
  st, md = m0.partition()
  I = jx.Inputs(S)
  for k in range(nsteps): I.f32(f"x{k}", shape, dtype=DT[xdt])
  for n in ('mean', 'var', 'scale', 'bias'): I.f32(n, (F,), **(dict(lo=0.0, hi=3.0) if n == 'var' else {}))
  def kwargs():
    d = {}
    if flag == 'no ctx': return d
    d['ctx'] = nnx.context(0) if flag == 'none' else nnx.context(0, flags=dict(use_running_average=flag))
    return d
  def one(root, inp, k):
    c = modes[k][0]
    m = root
    if via == 'init': m = root.init
    if via == 'nested init': parent = nnx.Module(); parent.bn = root; m = lambda *a, **kw: parent.init.bn(*a, **kw)
    if via == 'apply':
      def m(*a, **kw):
        o, new = root.apply(*a, **kw); root.update_state(new); return o
    if via == 'jit': m = lambda x, *a, **kw: nnx.jit(lambda r, x: r(x, *a, **kw))(root, x)
    return m(inp[f"x{k}"], **kwargs()) if c is None else m(inp[f"x{k}"], c, **kwargs()) if k % 2 == 0 else m(inp[f"x{k}"], use_running_average=c, **kwargs())
  def real(inp):
    m = md.merge(st)
    m.mean = inp["mean"]; m.var = inp["var"]
    if use_scale: m.scale = inp["scale"]
    if use_bias: m.bias = inp["bias"]
    outs = []
    for k in range(nsteps):
      if modes[k][1] is None:
        try: one(m, inp, k); ok = False
        except ValueError: ok = True
        S.check(ok, "no mode rejected", detail); continue
      outs.append(one(m, inp, k))
      if modes[k][1]: S.check(True, "running statistics unchanged")
    return outs, m.mean, m.var, m.scale, m.bias
  fs = [1] * len(shape); fs[f] = F
  out_dt = DT[dt]
  def ref(inp):
    mean, var = inp["mean"], inp["var"]
    outs = []
    for k in range(nsteps):
      if modes[k][1] is None: continue
      x = inp[f"x{k}"].astype(jnp.float32)
      if modes[k][1]: mu, v = mean.reshape(fs), var.reshape(fs)
      else:
        mu, v = stats(x, red)
        mean = mom * mean + (1 - mom) * mu.reshape((F,)); var = mom * var + (1 - mom) * v.reshape((F,))
      y = norm(x, mu, v, eps, inp["scale"].reshape(fs) if use_scale else None, inp["bias"].reshape(fs) if use_bias else None)
      outs.append(y.astype(out_dt) if out_dt else y if use_scale or use_bias else y.astype(DT[xdt]))
    return outs, mean, var, inp["scale"] if use_scale else None, inp["bias"] if use_bias else None
  lab = "mode from the first given source" if len(sources) > 4 else "training output" if not modes[0][1] else "inference output"
  for c, w in modes:
    if w is None: continue
    S.reach("inference output" if w else "training output"); S.reach("running statistics unchanged" if w else "running statistics updated")
  S.reach("result dtype"); S.reach("steps in a row") if nsteps > 1 else None
  gs = groups_of(shape, red)
  jx.agree(S, I, real, ref, lab, detail, nonneg=nonneg(S, [(f"x{k}", gs) for k in range(nsteps)]))

def h_sign(S, shapes=((2, 1), (4, 2), (2, 2, 2)), momenta=(0.0, 0.5, 0.99)):
  """the running variance stays non-negative, whatever the roundings of the statistics"""
  nnx = S.nnx
  shape = tuple(S.choose(0, "shape", values=list(shapes))); mom = S.choose(0, "momentum", values=list(momenta)); steps = S.choose(0, "steps", values=[1, 2])
  F = shape[-1]
  st, md = nnx.BatchNorm(F, ctx=nnx.context(0), momentum=mom, use_running_average=False).partition()
  I = jx.Inputs(S); I.f32("x", shape); I.f32("mean", (F,)); I.f32("var", (F,), lo=0.0, hi=3.0)
  def f(inp):
    m = md.merge(st); m.mean = inp["mean"]; m.var = inp["var"]
    for _ in range(steps): m(inp["x"])
    return m
  def cands():
    rs = np.random.RandomState(0)
    for k in range(60):
      base = [100.1, 1000.3, 3.3, 7777.7, 0.7, 12345.678][k % 6]
      yield dict(x=(base * (1 + rs.rand(*shape) * [0, 1e-7, 1e-6, 1e-5][k // 6 % 4])).astype(np.float32).tolist(), var=[0.0] * F)
  jx.never_negative(S, I, f, lambda m: m.var, "running variance never negative", f"BatchNorm {shape} momentum {mom} steps {steps}", cands())

def h_wide(S):
  """half precision inputs: the statistics and what is computed from them is computed in at least float32"""
  nnx = S.nnx
  layer = S.choose(0, "layer", values=['BatchNorm', 'LayerNorm']); xdt = S.choose(0, "input dtype", values=['float16', 'bfloat16']); dt = S.choose(0, "dtype", values=[None, 'float32'])
  shape = S.choose(0, "shape", values=[(2, 1), (4, 2), (2, 2, 2)])
  F = shape[-1]
  kw = dict(dtype=DT[dt]) if dt else {}
  m0 = nnx.BatchNorm(F, ctx=nnx.context(0), momentum=0.5, epsilon=0.25, use_running_average=False, **kw) if layer == 'BatchNorm' else nnx.LayerNorm(F, epsilon=0.25, ctx=nnx.context(0), **kw)
  st, md = m0.partition()
  I = jx.Inputs(S); I.f32("x", shape, dtype=DT[xdt]); I.f32("mean", (F,)); I.f32("var", (F,), lo=0.0, hi=3.0); I.f32("scale", (F,)); I.f32("bias", (F,))
  red = tuple(range(len(shape) - 1)) if layer == 'BatchNorm' else (len(shape) - 1,)
  def real(inp):
    m = md.merge(st); m.scale = inp["scale"]; m.bias = inp["bias"]
    if layer == 'BatchNorm': m.mean = inp["mean"]; m.var = inp["var"]
    y = m(inp["x"])
    return (y, m.mean, m.var) if layer == 'BatchNorm' else y
  def ref(inp):
    x = inp["x"].astype(jnp.float32)
    mu, v = stats(x, red)
    y = norm(x, mu, v, 0.25, inp["scale"], inp["bias"])
    return (y, 0.5 * inp["mean"] + 0.5 * mu.reshape((F,)), 0.5 * inp["var"] + 0.5 * v.reshape((F,))) if layer == 'BatchNorm' else y
  def cands():
    for base, d in ((0, 1.0), (1, 0.37), (20, 3.3), (100, 0.5), (300, 7.0)):
      yield dict(x=(base + d * np.sin(1.7 * np.arange(np.prod(shape)) ** 2 + 1).reshape(shape)).astype(DT[xdt]).astype(np.float32).tolist())
  gs = groups_of(shape, red)
  jx.agree_wide(S, I, real, ref, "computed in at least float32", f"{layer} {shape} input {xdt} dtype {dt}", cands(), nonneg=nonneg(S, [("x", gs)]))

def h_axis_name(S):
  """statistics are combined over a mapped axis"""
  nnx = S.nnx
  train = S.flip("train"); layer = S.choose(0, "layer", values=['BatchNorm', 'LayerNorm'])
  I = jx.Inputs(S)
  I.f32("x", (2, 2, 2)); I.f32("mean", (2,)); I.f32("var", (2,), lo=0.0); I.f32("scale", (2,))
  c = nnx.context(0)
  m0 = nnx.BatchNorm(2, axis_name='dev', momentum=0.5, epsilon=0.25, use_running_average=not train, ctx=c) if layer == 'BatchNorm' else nnx.LayerNorm(2, axis_name='dev', epsilon=0.25, ctx=c)
  st, md = m0.partition()
  def real(inp):
    def f(x):
      m = md.merge(st)
      if layer == 'BatchNorm': m.mean = inp["mean"]; m.var = inp["var"]
      m.scale = inp["scale"]
      y = m(x)
      return (y, m.mean, m.var) if layer == 'BatchNorm' else y
    return jax.vmap(f, axis_name='dev')(inp["x"])
  def ref(inp):
    x = inp["x"]
    if layer == 'LayerNorm':
      mu = jnp.sum(x, axis=(0, 2), keepdims=True) / 4; v = jnp.sum((x - mu) ** 2, axis=(0, 2), keepdims=True) / 4
      return norm(x, mu, v, 0.25, inp["scale"], None)
    if not train: mu, v, mean, var = inp["mean"], inp["var"], inp["mean"], inp["var"]
    else:
      mu, v = stats(x, (0, 1))
      mu, v = mu.reshape((2,)), v.reshape((2,))
      mean, var = 0.5 * inp["mean"] + 0.5 * mu, 0.5 * inp["var"] + 0.5 * v
    return norm(x, mu, v, 0.25, inp["scale"], None), jnp.stack([mean, mean]), jnp.stack([var, var])
  S.reach("combined axis")
  red = (0, 1) if layer == 'BatchNorm' else (0, 2)
  jx.agree(S, I, real, ref, "combined axis", f"{layer} train={train}", nonneg=nonneg(S, [("x", groups_of((2, 2, 2), red))]))

def grouped_sums():
  """vmap of a sum over groups of the members of an axis, which jax leaves out: every member gets the sum over its group"""
  from jax._src.interpreters import batching
  from jax._src.lax import parallel
  orig = batching.axis_primitive_batchers[parallel.psum_p]
  def rule(axis_size, frame_name, main_type, vals_in, dims_in, axes, axis_index_groups):
    if axis_index_groups is None: return orig(axis_size, frame_name, main_type, vals_in, dims_in, axes=axes, axis_index_groups=None)
    grp = {i: g for g in axis_index_groups for i in g}
    outs = []
    for v, d in zip(vals_in, dims_in):
      v = jnp.broadcast_to(v, (axis_size,) + v.shape) if d is batching.not_mapped else jnp.moveaxis(v, d, 0)
      outs.append(jnp.stack([sum(v[j] for j in grp[i]) for i in range(axis_size)]))
    return outs, [0] * len(outs)
  batching.axis_primitive_batchers[parallel.psum_p] = rule
  def undo(): batching.axis_primitive_batchers[parallel.psum_p] = orig
  return undo

def h_axis_groups(S):
  """statistics are combined within each group of members of a mapped axis"""
  nnx = S.nnx
  train = S.flip("train"); layer = S.choose(0, "layer", values=['BatchNorm', 'LayerNorm'])
  groups = S.choose(0, "groups", values=[[[0, 1], [2, 3]], [[0, 2], [1, 3]], [[3, 0], [2, 1]], [[0], [1], [2], [3]], [[0, 1, 2, 3]]])
  I = jx.Inputs(S)
  I.f32("x", (4, 1, 2)); I.f32("mean", (2,)); I.f32("var", (2,), lo=0.0); I.f32("scale", (2,))
  c = nnx.context(0)
  kw = dict(axis_name='dev', axis_index_groups=groups, epsilon=0.25, ctx=c)
  m0 = nnx.BatchNorm(2, momentum=0.5, use_running_average=not train, **kw) if layer == 'BatchNorm' else nnx.LayerNorm(2, **kw)
  st, md = m0.partition()
  red = (0, 1) if layer == 'BatchNorm' else (0, 2)
  def real(inp):
    def f(x):
      m = md.merge(st)
      if layer == 'BatchNorm': m.mean = inp["mean"]; m.var = inp["var"]
      m.scale = inp["scale"]
      y = m(x)
      return (y, m.mean, m.var) if layer == 'BatchNorm' else y
    undo = grouped_sums()
    try: return jax.vmap(f, axis_name='dev')(inp["x"])
    finally: undo()
  def ref(inp):
    x = inp["x"]
    out = [None] * 4
    for g in groups:
      part = jnp.stack([x[i] for i in g])
      if layer == 'LayerNorm':
        n = 2 * len(g)
        mu = jnp.sum(part, axis=red, keepdims=True) / n; v = jnp.sum((part - mu) ** 2, axis=red, keepdims=True) / n
        y = norm(part, mu, v, 0.25, inp["scale"], None)
        for k, i in enumerate(g): out[i] = (y[k],)
        continue
      mean, var = inp["mean"], inp["var"]
      mu, v = mean, var
      if train:
        mu, v = stats(part, red)
        mu, v = mu.reshape((2,)), v.reshape((2,))
        mean, var = 0.5 * mean + 0.5 * mu, 0.5 * var + 0.5 * v
      y = norm(part, mu, v, 0.25, inp["scale"], None)
      for k, i in enumerate(g): out[i] = (y[k], mean, var)
    r = tuple(jnp.stack(z) for z in zip(*out))
    return r if layer == 'BatchNorm' else r[0]
  S.reach("combined axis")
  gs = [[(i, 0, f) for i in g] for g in groups for f in range(2)] if layer == 'BatchNorm' else [[(i, 0, f) for i in g for f in range(2)] for g in groups]
  jx.agree(S, I, real, ref, "combined axis", f"{layer} train={train} groups {groups}", nonneg=nonneg(S, [("x", gs)]))

def h_ln(S, shapes=((2, 2),), reds=(-1,), feats=(-1,), scales=((True, True),), dtypes=(None,), xdts=('float32',), eps=0.25):
  nnx = S.nnx
  shape = tuple(S.choose(0, "shape", values=list(shapes)))
  n = len(shape)
  ok = lambda a: all(-n <= q < n for q in ((a,) if isinstance(a, int) else a))
  tup = lambda a: a if isinstance(a, int) else tuple(a)
  ra = tup(S.choose(0, "reduction axes", values=[a for a in reds if ok(a)])); fa = tup(S.choose(0, "feature axes", values=[a for a in feats if ok(a)]))
  red = tuple(sorted({q % n for q in ((ra,) if isinstance(ra, int) else ra)})); feat = tuple(sorted({q % n for q in ((fa,) if isinstance(fa, int) else fa)}))
  if len(red) != len((ra,) if isinstance(ra, int) else ra): return
  us, ub = S.choose(0, "scale bias", values=[tuple(q) for q in scales]); dt = S.choose(0, "dtype", values=list(dtypes)); xdt = S.choose(0, "input dtype", values=list(xdts))
  F = int(np.prod([shape[q] for q in feat]))
  detail = f"LayerNorm {shape} reduce {ra} features {fa} scale={us} bias={ub} dtype={dt} input {xdt}"
  kw = less(dict(epsilon=eps, use_scale=us, use_bias=ub, reduction_axes=ra, feature_axes=fa), epsilon=1e-6, use_scale=True, use_bias=True, reduction_axes=-1, feature_axes=-1)
  if dt: kw['dtype'] = DT[dt]
  m0 = nnx.LayerNorm(F, ctx=nnx.context(0), **kw)
  S.check((m0.scale is None) == (not us) and (m0.bias is None) == (not ub) and all(v.shape == (F,) for v in (m0.scale, m0.bias) if v is not None), "parameters", detail)
  S.check(all(v.dtype == jnp.float32 for v in (m0.scale, m0.bias) if v is not None), "parameters", "dtype")
  if us: S.check(np.all(np.asarray(m0.scale) == 1), "parameters", "scale")
  if ub: S.check(np.all(np.asarray(m0.bias) == 0), "parameters", "bias")
  st, md = m0.partition()
  I = jx.Inputs(S); I.f32("x", shape, dtype=DT[xdt]); I.f32("scale", (F,)); I.f32("bias", (F,))
  fs = [shape[q] if q in feat else 1 for q in range(n)]
  def real(inp):
    m = md.merge(st)
    if us: m.scale = inp["scale"]
    if ub: m.bias = inp["bias"]
    return m(inp["x"]), m(inp["x"])
  def ref(inp):
    x = inp["x"].astype(jnp.float32)
    mu, v = stats(x, red)
    y = norm(x, mu, v, eps, inp["scale"].reshape(fs) if us else None, inp["bias"].reshape(fs) if ub else None)
    y = y.astype(DT[dt]) if dt else y if us or ub else y.astype(DT[xdt])
    return y, y
  S.reach("result dtype")
  jx.agree(S, I, real, ref, "layer norm output", detail, nonneg=nonneg(S, [("x", groups_of(shape, red))]))

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=3))
  every = [(c, m, f) for c in (None, True, False) for m in (None, True, False) for f in ('no ctx', 'none', True, False)]
  SB = [(True, True), (True, False), (False, True), (False, False)]
  T2 = (False, None, 'none'); E2 = (True, None, 'none')
  j("modes", "h_bn", sources=every, axes=[-1])
  j("shapes", "h_bn", shapes=[(2,), (4, 2), (2, 4), (2, 2, 2), (2, 1, 3), (1, 2, 2), (4, 1)], sources=[T2, E2])
  j("scale and bias", "h_bn", shapes=[(2, 2), (2, 2, 2)], sources=[T2, E2], scales=SB, momenta=[0.0, 0.25, 0.5, 1.0])
  j("dtypes", "h_bn", sources=[T2, E2], dtypes=list(DT), xdts=['float32', 'float16'], scales=SB, axes=[-1])
  j("steps", "h_bn", sources=[T2, E2], steps=[2, 3], momenta=[0.5], axes=[-1])
  j("defaults", "h_bn", sources=[T2, E2], momenta=[0.99], eps=1e-5, axes=[-1], scales=SB)
  j("layer norm defaults", "h_ln", shapes=[(2, 2), (2, 2, 2)], eps=1e-6, scales=SB)
  j("axis name", "h_axis_name"); j("axis groups", "h_axis_groups")
  j("ways to call", "h_bn", sources=every if T else [T2, E2], vias=['init', 'nested init', 'apply', 'jit'], steps=[1, 2], axes=[-1], momenta=[0.5])
  j("sign", "h_sign")
  reds = [-1, 0, 1, [-1], [0, 1], [-2, -1], [1, 0], [0, 2], [0, 1, 2]]
  feats = [-1, 0, [-1], [-2, -1], [-1, -2], [0, 2], [0, 1, 2]]
  j("layer norm 2", "h_ln", shapes=[(2, 2), (4, 2), (2, 1)], reds=reds, feats=feats)
  j("layer norm 3", "h_ln", shapes=[(2, 2, 2), (2, 4, 1)], reds=reds, feats=feats)
  j("layer norm 1", "h_ln", shapes=[(2,), (4,)], reds=[-1, 0, [0]], feats=[-1, 0], scales=SB)
  j("layer norm options", "h_ln", shapes=[(2, 2)], scales=SB, dtypes=list(DT), xdts=['float32', 'float16'])
  if T:
    j("shapes big", "h_bn", shapes=[(8, 2), (4, 3), (2, 2, 3), (2, 2, 2, 2), (2, 4, 2)], sources=[T2, E2], scales=SB)
    j("steps big", "h_bn", shapes=[(4, 2), (2, 2, 2)], sources=[T2, E2], steps=[3, 4], momenta=[0.25, 0.75])
    j("modes 3", "h_bn", shapes=[(2, 2, 2)], sources=every, scales=SB)
    j("layer norm 4", "h_ln", shapes=[(2, 2, 2, 2), (8, 2)], reds=reds + [[1, 3], [0, 3]], feats=feats + [[1, 3], [3, 0]], scales=SB)
  j("half precision inputs", "h_wide")
  return J
