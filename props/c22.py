"""C22 Linear, Conv, Embed"""
import itertools
import jax, jax.numpy as jnp, numpy as np
from sx import jx
from sx.graphs import less

BOUNDS = dict(
  quick="Linear: 0-3 batch dimensions (size 2, some empty), 1-3 inputs and outputs; Conv: 1-3 spatial dimensions of size 2-5, kernels 1-3, strides 1-2, input and kernel dilation 1-2, groups 1-2, SAME, VALID, CIRCULAR, CAUSAL, integer, sequence and pair padding, masks, 0-2 batch dimensions; Embed: 2-3 rows and 200-300 rows of one feature, any indices in range of 0-2 dimensional inputs (symbolic indices), attend; with and without bias, result dtypes float32, float16, bfloat16; all array values in exact arithmetic",
  thorough="all combinations of kernel 1-3, strides 1-3, dilation 1-3, padding and batch rank for one spatial dimension; more shapes in two and three dimensions")
OUTSIDE = "floating point rounding (the dtype of the result is checked, values in exact arithmetic), complex numbers, out-of-range embedding indices, input dilation with named padding, precision and sharding options"
ASSUMPTIONS = ["floats are exact reals", "lax.conv_general_dilated and dot_general compute their definitions (the check evaluates their parameters)"]
WITNESSES = ["linear formula", "convolution formula", "embedding rows", "attend formula", "result dtype", "parameters from their own keys", "omitted bias", "wrong arguments rejected"]

DT = {None: None, 'float32': jnp.float32, 'float16': jnp.float16, 'bfloat16': jnp.bfloat16, 'int32': jnp.int32, 'int16': jnp.int16, 'int8': jnp.int8}

def ctx_of(nnx): return nnx.context(0)

def h_linear(S, ranks=(0, 1, 2, 3)):
  nnx = S.nnx
  rank = S.choose(0, "batch rank", values=list(ranks) + ['0', '20', '02']); din, dout = S.choose(0, "sizes", values=[(1, 1), (2, 3), (3, 2), (2, 2)])
  bias = S.flip("bias"); dt = S.choose(0, "dtype", values=[None, 'float16', 'bfloat16', 'float32']); xd = S.choose(0, "input dtype", values=['float32', 'float16', 'int32'])
  I = jx.Inputs(S)
  sh = (2,) * rank if isinstance(rank, int) else tuple(int(c) for c in rank)
  if xd == 'int32': I.int("x", sh + (din,), lo=-3, hi=3)
  else: I.f32("x", sh + (din,), dtype=DT[xd])
  I.f32("k", (din, dout)); I.f32("b", (dout,))
  detail = f"Linear rank {rank} {din}x{dout} bias={bias} dtype={dt} input {xd}"
  kw = {} if dt is None else dict(dtype=DT[dt])
  m = nnx.Linear(din, dout, ctx=ctx_of(nnx), **less(dict(kw, use_bias=bias), use_bias=True))
  S.check(m.kernel.shape == (din, dout) and (m.bias.shape == (dout,) if bias else m.bias is None) and all(v.dtype == jnp.float32 for v in (m.kernel, m.bias) if v is not None), "omitted bias" if not bias else "parameters from their own keys", detail)
  (st, md) = m.partition()
  def real(inp):
    m = md.merge(st)
    m.kernel = inp["k"]
    if bias: m.bias = inp["b"]
    return m(inp["x"])
  want = DT[dt] or jnp.float32
  def ref(inp):
    x, k, b = [inp[n].astype(want) for n in "xkb"]
    rows = []
    x2 = x.reshape((int(np.prod(sh)), din))
    cols = []
    for o in range(dout):
      y = sum(x2[:, i] * k[i, o] for i in range(din))
      if bias: y = y + b[o]
      cols.append(y)
    return jnp.stack(cols, -1).reshape(sh + (dout,))
  if not bias: S.reach("omitted bias")
  S.reach("result dtype")
  jx.agree(S, I, real, ref, "linear formula", detail)

def h_init(S):
  nnx = S.nnx
  layer = S.choose(0, "layer", values=['Linear', 'Conv', 'Conv group', 'Embed']); default = S.flip("default init"); bias = S.flip("bias")
  pd = S.choose(0, "param dtype", values=['float32', 'float16'])
  I = jx.Inputs(S); I.key("key"); I.key("key2")
  P = DT[pd]
  kshape = {'Linear': (3, 2), 'Conv': (2, 3, 2), 'Conv group': (2, 2, 4), 'Embed': (3, 2)}[layer]
  bshape = {'Linear': (2,), 'Conv': (2,), 'Conv group': (4,), 'Embed': None}[layer]
  if pd == 'float16' and default: return
  seen = []
  def kinit(key, shape, dtype): seen.append((tuple(shape), dtype)); return jax.random.uniform(key, shape).astype(dtype)
  def binit(key, shape, dtype): seen.append((tuple(shape), dtype)); return (2 + jax.random.uniform(key, shape)).astype(dtype)
  def real(inp):
    seen.clear()
    ctx = nnx.context(params=inp["key"], other=inp["key2"])
    kw = dict(param_dtype=P, ctx=ctx)
    if layer == 'Embed':
      if not default: kw['embedding_init'] = kinit
      m = nnx.Embed(3, 2, **kw); out = [m.embedding]
    else:
      if not default: kw.update(kernel_init=kinit, bias_init=binit)
      if not bias: kw['use_bias'] = bias
      m = nnx.Linear(3, 2, **kw) if layer == 'Linear' else nnx.Conv(3, 2, (2,), **kw) if layer == 'Conv' else nnx.Conv(4, 4, [2], feature_group_count=2, **kw)
      out = [m.kernel] + ([m.bias] if bias else [])
      if not bias: S.check(m.bias is None, "omitted bias", layer)
    if not default: S.check(all(d == P for _, d in seen) and [s for s, _ in seen] == [kshape] + ([bshape] if bias and bshape else []), "parameters from their own keys", lambda: f"{seen}")
    types = {n: type(v).__name__ for n, v in vars(m).items() if isinstance(v, nnx.Node)}
    S.check(set(types.values()) == {'Param'} and set(types) == ({'embedding'} if layer == 'Embed' else {'kernel', 'bias'}), "parameters from their own keys", lambda: str(types))
    return out, ctx.make_rng('params'), ctx.make_rng('other')
  def ref(inp):
    ctx = nnx.context(params=inp["key"], other=inp["key2"])
    if default:
      ki = jax.nn.initializers.variance_scaling(1.0, "fan_in", "normal", out_axis=0) if layer == 'Embed' else jax.nn.initializers.lecun_normal()
      bi = lambda key, shape, dtype: jnp.zeros(shape, dtype)
    else: ki, bi = kinit, binit
    out = [ki(ctx.make_rng('params'), kshape, P)]
    if bshape and bias: out.append(bi(ctx.make_rng('params'), bshape, P))
    return out, ctx.make_rng('params'), ctx.make_rng('other')
  jx.agree(S, I, real, ref, "parameters from their own keys", f"{layer} default={default} bias={bias} {pd}")

def pads_of(padding, rank, n, eff, strides):
  """explicit (low, high) pairs"""
  if padding == 'VALID': return [(0, 0)] * rank
  if padding == 'SAME':
    out = []
    for d in range(rank):
      o = -(-n[d] // strides[d])
      tot = max((o - 1) * strides[d] + eff[d] - n[d], 0)
      out.append((tot // 2, tot - tot // 2))
    return out
  if isinstance(padding, int): return [(padding, padding)] * rank
  return [(p, p) if isinstance(p, int) else tuple(p) for p in padding]

def conv_ref(x, k, b, n, ks, strides, padding, idil, kdil, groups):
  """x: (N, spatial..., Cin); the definition, output position by output position"""
  rank = len(ks)
  eff = [(q - 1) * d + 1 for q, d in zip(ks, kdil)]
  wrap = padding == 'CIRCULAR'
  if wrap: pads = [((e - 1) // 2, e - 1 - (e - 1) // 2) for e in eff]
  elif padding == 'CAUSAL': pads = [(eff[0] - 1, 0)]
  else: pads = pads_of(padding, rank, n, eff, strides)
  size = [(n[d] - 1) * idil[d] + 1 for d in range(rank)]
  outn = [(size[d] + sum(pads[d]) - eff[d]) // strides[d] + 1 for d in range(rank)]
  cin, cout = x.shape[-1], k.shape[-1]
  ci, co = cin // groups, cout // groups
  if 0 in outn: return jnp.zeros((x.shape[0],) + tuple(outn) + (cout,), x.dtype)
  rows = {}
  for pos in itertools.product(*[range(o) for o in outn]):
    cols = [jnp.zeros(x.shape[:1], x.dtype)] * cout
    for kk in itertools.product(*[range(q) for q in ks]):
      src, ok = [], True
      for d in range(rank):
        q = pos[d] * strides[d] + kk[d] * kdil[d] - pads[d][0]
        if wrap: q = q % n[d]
        elif q < 0 or q >= size[d] or q % idil[d]: ok = False; break
        src.append(q if wrap else q // idil[d])
      if not ok: continue
      xv = x[(slice(None),) + tuple(src)]
      for o in range(cout):
        g = o // co
        for i in range(ci): cols[o] = cols[o] + xv[:, g * ci + i] * k[kk + (i, o)]
    y = jnp.stack(cols, -1)
    rows[pos] = y + b if b is not None else y
  out = jnp.stack([rows[p] for p in itertools.product(*[range(o) for o in outn])], 1)
  return out.reshape((x.shape[0],) + tuple(outn) + (cout,))

def h_conv(S, sizes=((4,),), kernels=((2,),), strides=(1,), paddings=('SAME',), idils=(1,), kdils=(1,), groups=((1, 1, 1),), batches=((2,),), biases=(True,), masks=(False,), dtypes=(None,)):
  nnx = S.nnx
  n = S.choose(0, "size", values=list(sizes)); ks = S.choose(0, "kernel", values=[k for k in kernels if len(k) == len(n)])
  rank = len(n)
  def per(v): return tuple(v) if isinstance(v, (tuple, list)) else (1 if v is None else v,) * rank
  st = S.choose(0, "strides", values=list(strides)); pad = S.choose(0, "padding", values=list(paddings))
  kd = S.choose(0, "kernel dilation", values=list(kdils)); idl = S.choose(0, "input dilation", values=list(idils))
  g, cin, cout = S.choose(0, "groups", values=list(groups)); bt = S.choose(0, "batch", values=list(batches))
  bias = S.choose(0, "bias", values=list(biases)); mask = S.choose(0, "mask", values=list(masks)); dt = S.choose(0, "dtype", values=list(dtypes))
  if isinstance(pad, list): pad = [tuple(p) if isinstance(p, list) else p for p in pad]
  if not isinstance(st, (int, type(None))) and len(st) != rank: return
  if isinstance(pad, (list, tuple)) and len(pad) != rank: return
  s_, kd_, id_ = per(st), per(kd), per(idl)
  if any(q != 1 for q in id_) and isinstance(pad, str): return
  eff = [(q - 1) * d + 1 for q, d in zip(ks, kd_)]
  if pad not in ('CIRCULAR', 'CAUSAL', 'SAME') and any((m - 1) * i + 1 + sum(p) < e for e, m, i, p in zip(eff, n, id_, pads_of(pad, rank, n, eff, s_))): return   # empty result
  detail = f"Conv size {n} kernel {ks} strides {st} padding {pad} input dilation {idl} kernel dilation {kd} groups {g} channels {cin}->{cout} batch {bt} bias={bias} mask={mask} dtype={dt}"
  I = jx.Inputs(S)
  I.f32("x", tuple(bt) + tuple(n) + (cin,)); I.f32("k", tuple(ks) + (cin // g, cout)); I.f32("b", (cout,))
  if mask: I.f32("mask", tuple(ks) + (cin // g, cout))
  kw = {} if dt is None else dict(dtype=DT[dt])
  holder = {}
  if mask: kw['mask_fn'] = lambda k: k * holder['m']
  kw = less(dict(kw, strides=st, padding=pad, input_dilation=idl, kernel_dilation=kd, feature_group_count=g, use_bias=bias), strides=1, padding='SAME', input_dilation=1, kernel_dilation=1, feature_group_count=1, use_bias=True)
  m0 = nnx.Conv(cin, cout, ks, *[kw.pop('strides')] if 'strides' in kw else [], ctx=ctx_of(nnx), **kw)
  state, md = m0.partition()
  S.check(m0.kernel.shape == tuple(ks) + (cin // g, cout) and all(v.dtype == jnp.float32 for v in (m0.kernel, m0.bias) if v is not None), "parameters from their own keys", detail)
  want = DT[dt] or jnp.float32
  def real(inp):
    m = md.merge(state)
    m.kernel = inp["k"]
    if bias: m.bias = inp["b"]
    if mask: holder['m'] = inp["mask"]
    return m(inp["x"])
  def ref(inp):
    k = inp["k"] * inp["mask"] if mask else inp["k"]
    x, k, b = inp["x"].astype(want), k.astype(want), inp["b"].astype(want)
    y = conv_ref(x.reshape((int(np.prod(bt)),) + tuple(n) + (cin,)), k, b if bias else None, n, ks, s_, pad, id_, kd_, g)
    return y.reshape(tuple(bt) + y.shape[1:])
  if not bias: S.reach("omitted bias")
  jx.agree(S, I, real, ref, "convolution formula", detail)

def h_embed(S, hows=('call', 'attend'), tables=((2, 2), (3, 2), (3, 1)), dts=(None, 'float16', 'bfloat16'), shapes=((), (2,), (2, 1), (1, 2, 2), (0,), (2, 0)), idts=('int32', 'uint8', 'int8'), tdts=(None,)):
  nnx = S.nnx
  how = S.choose(0, "how", values=list(hows)); rows, feat = S.choose(0, "table", values=[tuple(t) for t in tables])
  dt = S.choose(0, "dtype", values=list(dts))
  sh = S.choose(0, "shape", values=[tuple(x) for x in shapes] if how == 'call' else [(), (2,), (2, 2), (0,), (2, 0)])
  idt = S.choose(0, "index dtype", values=list(idts)) if how == 'call' else None
  td, how_td = S.choose(0, "table dtype", values=[tuple(q) if q else (None, None) for q in tdts])
  I = jx.Inputs(S)
  if td and td.startswith('int'): I.int("t", (rows, feat), lo=-3, hi=3, dtype=getattr(np, td))
  else: I.f32("t", (rows, feat), **(dict(dtype=DT[td]) if td else {}))
  if how == 'call': I.int("i", sh, lo=0, hi=rows - 1, dtype=getattr(np, idt))
  else: I.f32("q", sh + (feat,))
  kw = {} if dt is None else dict(dtype=DT[dt])
  if how_td == 'param': kw['param_dtype'] = DT[td]
  if how_td == 'init': kw['embedding_init'] = lambda key, shape, dtype: jnp.ones(shape, DT[td])
  m0 = nnx.Embed(rows, feat, ctx=ctx_of(nnx), **kw)
  state, md = m0.partition()
  want = DT[dt] or DT[td] or jnp.float32
  def real(inp):
    m = md.merge(state); m.embedding = inp["t"]
    return m(inp["i"]) if how == 'call' else m.attend(inp["q"])
  def ref(inp):
    t = inp["t"].astype(want)
    if how == 'call':
      i = inp["i"].astype(jnp.int32)
      y = jnp.broadcast_to(t[0], i.shape + (feat,))
      for r in range(1, rows): y = jnp.where((i == r)[..., None], t[r], y)
      return y
    q = inp["q"].astype(want)
    return jnp.stack([sum(q[..., f] * t[r, f] for f in range(feat)) for r in range(rows)], -1)
  jx.agree(S, I, real, ref, "embedding rows" if how == 'call' else "attend formula", f"Embed {how} {rows}x{feat} {sh} dtype={dt} {idt} table {td} from {how_td}")

def h_reject(S):
  nnx = S.nnx
  how = S.choose(0, "how", values=['float index', 'bool index', 'int kernel', 'causal 2d', 'padding length', 'padding text', 'padding pair', 'pad triple'])
  c = ctx_of(nnx)
  x1, x2 = jnp.ones((1, 4, 1)), jnp.ones((1, 4, 4, 1))
  f = {'float index': (ValueError, lambda: nnx.Embed(3, 2, ctx=c)(jnp.ones((2,)))), 'bool index': (ValueError, lambda: nnx.Embed(3, 2, ctx=c)(jnp.ones((2,), bool))),
    'int kernel': (TypeError, lambda: nnx.Conv(1, 1, 3, ctx=c)), 'causal 2d': (ValueError, lambda: nnx.Conv(1, 1, (2, 2), padding='CAUSAL', ctx=c)(x2)),
    'padding length': (ValueError, lambda: nnx.Conv(1, 1, (2, 2), padding=[1], ctx=c)(x2)), 'padding text': (ValueError, lambda: nnx.Conv(1, 1, (2,), padding=['a'], ctx=c)(x1)),
    'padding pair': (ValueError, lambda: nnx.Conv(1, 1, (2,), padding=[(1, 2), (0, 1)], ctx=c)(x1)), 'pad triple': (ValueError, lambda: nnx.Conv(1, 1, (2,), padding=[(1, 2, 3)], ctx=c)(x1))}[how]
  try: f[1](); err = None
  except Exception as e: err = e
  S.check(isinstance(err, f[0]), "wrong arguments rejected", lambda: f"{how}: {type(err)} {err}")

NAMED = ['SAME', 'VALID', 'CIRCULAR', 'CAUSAL']
def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=3))
  j("linear", "h_linear")
  j("init", "h_init")
  j("embed", "h_embed")
  # indices that need every bit of their type
  j("embed many rows", "h_embed", hows=['call'], tables=[[200, 1], [300, 1]] if not T else [[1, 1], [200, 2], [300, 1], [700, 1]], dts=[None], shapes=[[], [1]], idts=['int32', 'int16'])
  j("embed table types", "h_embed", tables=[[3, 2]], shapes=[[2]], idts=['int32'], dts=[None, 'float16', 'float32'], tdts=[['float16', 'param'], ['float16', 'init'], ['bfloat16', 'init'], ['bfloat16', 'param']])
  j("reject", "h_reject")
  ex = [0, 1, 2, [1], [[1, 2]], [[0, 1]], [[2, 0]]]
  j("conv1 named", "h_conv", sizes=[[4], [5]], kernels=[[1], [2], [3]], strides=[1, 2], paddings=NAMED, kdils=[1, 2])
  j("conv1 explicit", "h_conv", sizes=[[4]], kernels=[[2], [3]], strides=[1, 2], paddings=ex, kdils=[1, 2], idils=[1, 2])
  j("conv1 groups", "h_conv", sizes=[[3]], kernels=[[2]], strides=[1, None, [2]], paddings=['SAME', 'VALID', [[1, 0]]], groups=[[1, 2, 2], [2, 2, 2], [2, 4, 2], [2, 2, 4]], biases=[True, False], masks=[False, True])
  j("conv1 batch", "h_conv", sizes=[[3]], kernels=[[2]], paddings=NAMED, batches=[[], [1], [2], [2, 2], [1, 2, 1], [0], [2, 0], [0, 2]], biases=[True, False], groups=[[1, 1, 2]])
  j("conv empty", "h_conv", sizes=[[0], [0, 2], [2, 0]], kernels=[[2], [2, 2]], paddings=['SAME'], strides=[1, 2], batches=[[], [1], [2], [2, 2], [0], [1, 0]], biases=[True, False])
  j("embed integers", "h_embed", tables=[[3, 2]], hows=['call'], shapes=[[], [2]], idts=['int32'], dts=[None, 'int32', 'float32'], tdts=[['int32', 'init'], ['int16', 'init']])
  j("conv1 dtype", "h_conv", sizes=[[3]], kernels=[[2]], paddings=['SAME', 'CIRCULAR'], dtypes=[None, 'float16', 'bfloat16', 'float32'], biases=[True, False], masks=[False, True])
  j("conv2", "h_conv", sizes=[[3, 4]], kernels=[[2, 3], [3, 1]], strides=[1, [1, 2], [2, 1]], paddings=['SAME', 'VALID', 'CIRCULAR', 1, [0, [1, 0]], [[1, 0], [0, 2]]], batches=[[1]])
  j("conv2 dilated", "h_conv", sizes=[[3, 4]], kernels=[[2, 2]], paddings=['SAME', 'VALID', 'CIRCULAR', [[1, 0], [0, 2]]], kdils=[1, [1, 2], [2, 1]], idils=[1, [2, 1], [1, 2]], batches=[[1]])
  j("conv2 batch", "h_conv", sizes=[[2, 3]], kernels=[[2, 2]], paddings=['SAME', 'CIRCULAR'], batches=[[], [2], [2, 1], [1, 0]], groups=[[1, 2, 1], [2, 2, 2]], biases=[True, False])
  j("conv3", "h_conv", sizes=[[2, 3, 2]], kernels=[[2, 2, 1]], strides=[1, [1, 2, 1]], paddings=['SAME', 'VALID', 'CIRCULAR'], batches=[[1]])
  j("conv3 dilated", "h_conv", sizes=[[2, 2, 3]], kernels=[[1, 1, 2], [2, 1, 2]], strides=[1, [1, 1, 2]], paddings=['SAME', 'CIRCULAR', [[1, 0], 0, [0, 1]]], kdils=[1, [1, 1, 2], [2, 1, 1]], idils=[1, [1, 1, 2]], batches=[[1], []])
  if T:
    j("conv1 all", "h_conv", sizes=[[3], [4], [5], [6]], kernels=[[1], [2], [3]], strides=[1, 2, 3], paddings=NAMED + ex, kdils=[1, 2, 3], idils=[1, 2], batches=[[], [2]])
    j("conv2 all", "h_conv", sizes=[[3, 4], [4, 4]], kernels=[[2, 2], [2, 3], [1, 3]], strides=[1, [1, 2], 2], paddings=['SAME', 'VALID', 'CIRCULAR', 1, [[1, 0], [0, 2]]], kdils=[1, [1, 2], 2], idils=[1, [2, 1]], groups=[[1, 1, 2], [2, 2, 2]], batches=[[1]])
    j("conv3 all", "h_conv", sizes=[[2, 3, 2], [3, 2, 2]], kernels=[[2, 2, 1], [1, 2, 2], [2, 1, 2]], strides=[1, [1, 2, 1], [2, 1, 1]], paddings=['SAME', 'VALID', 'CIRCULAR', 1], kdils=[1, [1, 1, 2], [2, 1, 1]], groups=[[1, 1, 1], [2, 2, 2]], batches=[[1]])
  return J
