"""C09 contexts: split / merge, flags, stream filters"""
import jax
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal
from sx import graphs as g
from props.c08 import derivations, key_eq, base_key, stream, Key, program, play

BOUNDS = dict(
  quick="contexts of 12 streams and flags; contexts of <= 3 streams in any order at arbitrary (symbolic) counters, <= 3 flags with arbitrary values true / false / None, <= 2 nested splits; filters: name, sequence (tuple, list, empty), mapping with symbolic include bits, arbitrary predicate, `...`, None and one nesting, over 4 names",
  thorough="<= 3 nested splits, nesting 2")
OUTSIDE = "flag values other than bools and None"
ASSUMPTIONS = ["hashlib digests and jax.random.fold_in are injective in their inputs (uninterpreted) in the symbolic part"]
WITNESSES = ["same stream names", "same flags", "same seed keys", "merging twice yields the same keys", "unknown stream is an error", "unset flag is None", "pytree round trip", "through jit", "filter selects"]
NAMES = ['params', 'dropout', 'noise']
FLAGS = ['deterministic', 'use_running_average', 'train']

def build(S, nnx, nstreams=3, nflags=3, sym=True):
  perm = S.choose(0, "order", values=[[0, 1, 2], [2, 0, 1], [1, 2, 0]])
  names = [NAMES[i] for i in perm if i < nstreams and S.flip(f"has {NAMES[i]}")]
  kw = {}
  for n in names:
    k = base_key(NAMES.index(n))
    st = stream(S, nnx, k, S.int(f"c_{n}", 0, 10 ** 6), [S.int(f"p_{n}", 0, 10 ** 6)] if S.flip(f"deep {n}") else []) if sym else None
    kw[n] = st if st is not None else k
  flags = {}
  for f in FLAGS[:nflags]:
    if S.flip(f"flag {f}"): flags[f] = S.leaf(f"value {f}", ['true', 'false', 'none'])
  form = 'dict'
  ctx = nnx.context(flags=flags, **kw) if flags or S.flip("empty flags dict") else nnx.context(**kw)
  return ctx, names, flags

def check_ctx(S, nnx, c, names, flags, txt=""):
  S.check(isinstance(c, nnx.Context), "kind of result")
  for n in NAMES + ['other', '']:
    S.check(c.has_rng(n) == (n in names), "same stream names", lambda: f"{n} {txt}")
  for f in FLAGS + ['other']:
    S.check(c.has_flag(f) == (f in flags), "same flags", lambda: f"has_flag {f} {txt}")
    v = c.get_flag(f)
    if f in flags: S.check(same(v, flags[f]), "same flags", lambda: f"{f}: {v!r} for {flags[f]!r} {txt}")
    else: S.check(same(v, None), "unset flag is None", lambda: f"{f}: {v!r} {txt}")
  for n in ('other', ''):
    try: c.make_rng(n); S.fail("unknown stream is an error", txt)
    except ValueError: S.reach("unknown stream is an error")

def h_split(S, depth=1, nstreams=3, nflags=3):
  nnx = S.nnx
  with derivations(not S.symbolic):
    ctx, names, flags = build(S, nnx, nstreams, nflags)
    check_ctx(S, nnx, ctx, names, flags, "original")
    cur = ctx
    for d in range(depth):
      p = cur.partition()
      keys, cd = p
      S.check(set(keys) == set(names), "same stream names", lambda: f"{list(keys)} vs {names}")
      for n in names: S.check(key_eq(S, keys[n], base_key(NAMES.index(n))), "same seed keys", lambda: f"{n}: {keys[n]}")
      a = S.choose(0, f"via{d}", values=['pure', 'def', 'pytree', 'copy'])
      if a == 'pure': x, y = p.merge(), p.merge()
      elif a == 'def': x, y = cd.merge(keys), p.merge()
      elif a == 'copy': x, y = p.merge().copy(), p.merge()
      else:
        leaves, td = jax.tree_util.tree_flatten(p)
        S.check(len(leaves) == len(names), "pytree round trip", lambda: f"{leaves}")
        q = jax.tree_util.tree_unflatten(td, leaves)
        q2 = jax.tree_map(lambda z: z, (keys, cd))
        x, y = q.merge(), q2[1].merge(q2[0])
      check_ctx(S, nnx, x, names, flags, f"after split {d} via {a}")
      check_ctx(S, nnx, y, names, flags, f"after split {d}")
      for n in names:
        k1, k2 = [x.make_rng(n), x.make_rng(n)], [y.make_rng(n), y.make_rng(n)]
        S.check(AND(*[key_eq(S, i, j) for i, j in zip(k1, k2)]), "merging twice yields the same keys", lambda: f"{n}: {k1} vs {k2}")
      cur = y
    check_ctx(S, nnx, ctx, names, flags, "original after the split")

def h_jit(S):
  """the parts go through real transforms"""
  nnx = S.nnx
  import numpy as np
  ctx, names, flags = build(S, nnx, 2, 2, sym=False)
  p = ctx.partition()
  t = S.choose(0, "t", values=['jit', 'jit parts', 'jit return', 'checkpoint', 'vmap', 'eval_shape', 'tree_map'])
  box = {}
  def draw(pc):
    c = pc.merge()
    box['flags'] = {f: (c.has_flag(f), c.get_flag(f)) for f in FLAGS}
    box['names'] = [n for n in NAMES if c.has_rng(n)]
    return {n: c.make_rng(n) for n in names}
  want = {n: p.merge().make_rng(n) for n in names}
  got = None
  if t == 'jit': got = jax.jit(draw)(p)
  elif t == 'jit parts': got = jax.jit(lambda k, d: draw(type(p)((k, d))))(p.keys, p.contextdef)
  elif t == 'jit return':
    q = jax.jit(lambda z: z)(p)
    got = draw(q)
  elif t == 'checkpoint': got = jax.checkpoint(lambda k: draw(type(p)((k, p.contextdef))))(p.keys)
  elif t == 'vmap':
    if not names: return
    got = jax.tree_map(lambda z: z[0], jax.vmap(draw)(jax.tree_map(lambda z: z[None], p)))
  elif t == 'eval_shape': jax.eval_shape(draw, p)
  else: got = draw(jax.tree_map(lambda z: z + 0, p))
  if got is not None:
    S.check(set(got) == set(want) and all(np.array_equal(got[n], want[n]) for n in want), "through jit", lambda: f"{t}: {got} vs {want}")
  S.check(box['names'] == [n for n in NAMES if n in names], "same stream names", t)
  for f in FLAGS:
    S.check(AND(box['flags'][f][0] == (f in flags), same(box['flags'][f][1], flags.get(f))), "same flags", lambda: f"{t}: {f}: {box['flags'][f]}")
  # structure: equal for equal definitions, different when a flag or a stream differs
  td = lambda c: jax.tree_util.tree_structure(c.partition())
  mk = lambda fl, nm: nnx.context(flags=fl, **{n: base_key(NAMES.index(n)) for n in nm})

def truth(v):
  """include bits count by truth value"""
  return bool(v)

FIL = ['str', 'tuple', 'list', 'empty', 'dict', 'dict pred', 'pred', '...', 'none', 'nested', 'dict ...', 'dict none', 'empty dict']
def h_filter(S, kinds=tuple(FIL)):
  nnx = S.nnx
  import importlib
  to = importlib.import_module(nnx.__name__ + ".contextlib").to_rng_predicate
  U = ['params', 'dropout', 'noise', 'par']
  P, Q = S.pred("P"), S.pred("Q")
  k = S.choose(0, "filter", values=list(kinds))
  a, b = S.choose(0, "a", values=U), S.choose(0, "b", values=U)
  inc = lambda i: S.leaf(f"include{i}", ['true', 'false', 'int0', 'int'])
  if k == 'str': f, ref = a, lambda n: n == a
  elif k == 'tuple': f, ref = (a, b), lambda n: n in (a, b)
  elif k == 'list': f, ref = [a, P], lambda n: OR(n == a, P.value(n))
  elif k == 'empty': f, ref = (), lambda n: False
  elif k == 'dict':
    if a == b: return
    i0, i1 = inc(0), inc(1)
    f, ref = {a: i0, b: i1}, lambda n: OR(AND(n == a, truth(i0)), AND(n == b, truth(i1)))
  elif k == 'dict pred':
    i0, i1 = inc(0), inc(1)
    f, ref = {P: i0, a: i1}, lambda n: OR(AND(P.value(n), truth(i0)), AND(n == a, truth(i1)))
  elif k == 'dict ...':
    i0, i1 = inc(0), inc(1)
    f, ref = {...: i0, a: i1}, lambda n: OR(truth(i0), AND(n == a, truth(i1)))
  elif k == 'dict none':
    i0, i1 = inc(0), inc(1)
    f, ref = {None: i0, a: i1}, lambda n: AND(n == a, truth(i1))
  elif k == 'empty dict': f, ref = {}, lambda n: False
  elif k == 'pred': f, ref = P, lambda n: P.value(n)
  elif k == '...': f, ref = ..., lambda n: True
  elif k == 'none': f, ref = None, lambda n: False
  elif k == 'nested':
    i0 = inc(0)
    f, ref = [(a, Q), {b: i0}, None], lambda n: OR(n == a, Q.value(n), AND(n == b, truth(i0)))
  pr = to(f)
  for n in U:
    got = pr(n)
    S.check(IFF(got, ref(n)), "filter selects", lambda: f"{k} ({a}, {b}) on {n}: {got}")

def h_badfilter(S):
  nnx = S.nnx
  import importlib
  to = importlib.import_module(nnx.__name__ + ".contextlib").to_rng_predicate
  bad = S.choose(0, "bad", values=[3, 2.5, object()])
  try: to(bad); S.fail("invalid filter rejected", lambda: f"{bad!r}")
  except TypeError: S.reach("invalid filter rejected")

def h_many(S, n=12):
  """many streams and flags"""
  nnx = S.nnx
  with derivations(not S.symbolic):
    at = S.choose(n, "at")
    names = [f"s{i}" for i in range(n)]
    if S.flip("backwards"): names = names[::-1]
    flags = {f"flag{i}": [True, False, None][i % 3] for i in range(n)}
    flags[f"flag{at}"] = S.leaf("flag", ['true', 'false', 'none'])
    counts = {x: S.int(f"c_{x}", 0, 10 ** 6) if i == at else i for i, x in enumerate(names)}
    ctx = nnx.context(flags=flags, **{x: stream(S, nnx, base_key(i), counts[x], []) for i, x in enumerate(names)})
    def ok(c, txt):
      S.check(all(c.has_rng(x) for x in names) and not c.has_rng(f"s{n}"), "same stream names", txt)
      S.check(AND(*[AND(c.has_flag(f), same(c.get_flag(f), v)) for f, v in flags.items()], not c.has_flag(f"flag{n}")), "same flags", txt)
    ok(ctx, "original")
    p = ctx.partition()
    S.check(list(p.keys) == list(names) or set(p.keys) == set(names), "same stream names", lambda: f"{list(p.keys)}")
    for i, x in enumerate(names): S.check(key_eq(S, p.keys[x], base_key(i)), "same seed keys", lambda: f"{x}: {p.keys[x]}")
    via = S.choose(0, "via", values=['pure', 'pytree', 'split again'])
    a, b = p.merge(), p.merge()
    if via == 'pytree':
      l, td = jax.tree_util.tree_flatten(p)
      b = jax.tree_util.tree_unflatten(td, l).merge()
    if via == 'split again':
      a, b = p.merge().partition().merge(), p.merge().partition().merge()
    ok(a, via); ok(b, via)
    ks = []
    for x in [names[at]] + names:
      k1, k2 = a.make_rng(x), b.make_rng(x)
      S.check(key_eq(S, k1, k2), "merging twice yields the same keys", lambda: f"{x}: {k1} vs {k2}")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("split and merge", "h_split", depth=1, nflags=3, nstreams=2)
  j("split and merge streams", "h_split", depth=1, nflags=1, nstreams=3)
  j("nested splits", "h_split", depth=2, nflags=1, nstreams=2)
  if T: j("nested splits 3", "h_split", depth=3, nflags=1, nstreams=2)
  j("many streams", "h_many")
  j("transforms", "h_jit")
  for k in FIL: j(f"filter {k}", "h_filter", kinds=[k])
  j("bad filter", "h_badfilter")
  return J
