"""C24 Dropout"""
import jax, jax.numpy as jnp, numpy as np
from sx import jx

BOUNDS = dict(
  quick="inputs of 0-3 dimensions of size 1-2, float32 and float16, rates 0, 1/4, 1/2, 3/4, 1, broadcast dimensions (none, first, last by negative index, several), all 36 combinations of call argument, module setting and context flag, two stream names, 1-3 calls in a row, any input values, keys and masks",
  thorough="all combinations of shape, rate, broadcast dimensions and mode source; sizes up to 3; sequences of up to 4 calls with changing modes")
OUTSIDE = "the quality of jax.random.bernoulli itself, floating point rounding of the division, integer inputs, rates outside [0, 1]"
ASSUMPTIONS = ["floats are exact reals", "random bits are arbitrary functions of the key and of the requested shape"]
WITNESSES = ["masked output", "unchanged output", "zeros at rate 1", "no key drawn", "one key drawn per mask", "missing context rejected", "unknown stream rejected", "no mode rejected", "calls in a row"]
DT = {'float32': jnp.float32, 'float16': jnp.float16}

def h_drop(S, shapes=((2, 2),), rates=(0.5,), dims=((),), sources=((False, None, 'none'),), streams=('dropout',), dts=('float32',), calls=(1,)):
  nnx = S.nnx
  shape = tuple(S.choose(0, "shape", values=list(shapes)))
  bd = tuple(S.choose(0, "broadcast dims", values=list(dims)))
  if not all(-len(shape) <= d < len(shape) for d in bd): return
  rate = S.choose(0, "rate", values=list(rates)); col = S.choose(0, "stream", values=list(streams)); dt = S.choose(0, "dtype", values=list(dts))
  call, mod, flag = S.choose(0, "mode sources", values=[tuple(q) for q in sources]); n = S.choose(0, "calls", values=list(calls))
  modes = []
  for k in range(n):
    c = call if k == 0 else S.choose(0, f"mode{k}", values=[True, False])
    modes.append((c, next((v for v in (c, mod, flag if flag not in ('none', 'no ctx') else None) if v is not None), None)))
  detail = f"Dropout {shape} {dt} rate {rate} broadcast {bd} stream {col} modes {modes} module={mod} flag={flag}"
  missing = rate not in (0.0, 1.0)
  if any(w is None for _, w in modes) and not missing: return
  kw = {}
  if bd: kw['broadcast_dims'] = bd
  if mod is not None: kw['deterministic'] = mod
  if col != 'dropout': kw['rng_collection'] = 'noise' if col == 'unknown' else col
  name = kw.get('rng_collection', 'dropout')
  streams = [s for s in ('dropout', 'noise', 'params') if not (col == 'unknown' and s == 'noise')]
  I = jx.Inputs(S)
  for k in range(n): I.f32(f"x{k}", shape, dtype=DT[dt])
  for s in ('dropout', 'noise', 'params'): I.key(s)
  def ctx_of(inp): return None if flag == 'no ctx' else nnx.context(**{s: inp[s] for s in streams}, flags=None if flag == 'none' else dict(deterministic=flag))
  def real(inp):
    ctx = ctx_of(inp); m = nnx.Dropout(rate, **kw)
    outs = []
    for k, (c, want) in enumerate(modes):
      a = {} if c is None else dict(deterministic=c)
      if flag != 'no ctx': a['ctx'] = ctx
      def expect_error(label):
        try: m(inp[f"x{k}"], **a); ok = False
        except ValueError: ok = True
        S.check(ok, label, detail)
      if want is None: expect_error("no mode rejected")
      elif not want and missing and flag == 'no ctx': expect_error("missing context rejected")
      elif not want and missing and col == 'unknown': expect_error("unknown stream rejected")
      else: outs.append(m(inp[f"x{k}"], **a))
    return outs, [] if ctx is None else [ctx.make_rng(s) for s in streams]
  def ref(inp):
    ctx = ctx_of(inp)
    outs = []
    for k, (c, want) in enumerate(modes):
      x = inp[f"x{k}"]
      if want is None: continue
      if want or rate == 0.0: outs.append(x); continue
      if rate == 1.0: outs.append(jnp.zeros_like(x)); continue
      if ctx is None or col == 'unknown': continue
      ms = [1 if d in [q % len(shape) for q in bd] else s for d, s in enumerate(shape)]
      mask = jax.random.bernoulli(ctx.make_rng(name), 1 - rate, tuple(ms))
      outs.append(jnp.where(jnp.broadcast_to(mask, shape), x / (1 - rate), 0).astype(x.dtype))
    return outs, [] if ctx is None else [ctx.make_rng(s) for s in streams]
  draws = 0
  for c, w in modes:
    if w is None: continue
    if w or rate == 0.0: S.reach("unchanged output")
    elif rate == 1.0: S.reach("zeros at rate 1")
    elif flag != 'no ctx' and col != 'unknown': S.reach("masked output"); draws += 1
  if draws and flag != 'no ctx': S.reach("one key drawn per mask")
  if not draws and flag != 'no ctx': S.reach("no key drawn")
  if n > 1: S.reach("calls in a row")
  jx.agree(S, I, real, ref, "masked output" if draws else "unchanged output" if rate != 1.0 else "zeros at rate 1", detail)

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, **cfg): J.append(dict(name=name, fn="h_drop", cfg=cfg, world='plain', nsample=3))
  every = [(c, m, f) for c in (None, True, False) for m in (None, True, False) for f in ('no ctx', 'none', True, False)]
  R = [0.0, 0.25, 0.5, 0.75, 1.0]
  SH = [(0,), (2, 0), (), (2,), (2, 2), (1, 2), (2, 1, 2)]
  D = [(), (0,), (-1,), (0, 1), (1, 0), (-1, 0), (1,), (0, 2), (-2,), (0, 1, 2)]
  j("modes", sources=every, rates=R if T else [0.0, 0.5, 1.0])
  j("shapes", shapes=SH, dims=D, rates=[0.25, 0.5])
  j("rates", rates=R, shapes=[(2,), (2, 2)], dims=[(), (-1,)], streams=['dropout', 'noise', 'unknown'], dts=['float32', 'float16'], sources=[(False, None, 'none'), (True, None, 'none'), (None, None, False), (None, True, False)])
  j("sequences", calls=[2, 3], rates=[0.5, 1.0], dims=[(), (0,)], streams=['dropout', 'noise'])
  if T:
    j("all", shapes=SH + [(3,), (3, 2), (2, 3, 2)], dims=D, rates=R, sources=[(False, None, 'none'), (None, False, True), (None, None, False), (True, False, False)], streams=['dropout', 'noise'])
    j("sequences 4", calls=[4], rates=R, dims=[(), (0,)], streams=['dropout', 'noise'], sources=[(False, None, 'none'), (True, None, 'none'), (None, None, False)])
  return J
