"""C08 random keys"""
import contextlib as _ctl, hashlib, sys
import z3
from sx.engine import AND, OR, NOT, IFF, SymBool, IMPLIES
from sx.proxies import same, SymVal, SymInt, TOKENS
from sx import graphs as g

BOUNDS = dict(
  quick="any two streams with split paths of length <= 3 and counters in [0, 10^6] (all symbolic integers); histories of <= 4 draws / splits / copies over <= 4 contexts of 2-3 streams with arbitrary (symbolic) counter offsets; seeds symbolic in [0, 2^31)",
  thorough="paths of length <= 4, histories of <= 5 steps")
OUTSIDE = "collisions of the 32-bit truncation of blake2s; merging the same split twice (C09)"
ASSUMPTIONS = ["hashlib digests and jax.random.fold_in / PRNGKey are injective in their inputs (uninterpreted)",
               "when a piece of a hash input is not delimited, its ambiguity is searched with counters below 100"]
WITNESSES = ["draws never share a derivation", "hash inputs are unambiguous", "keys depend on own history only", "seed keys differ", "32 bits used", "counter steps"]

# ------------------------------------------------------------- uninterpreted derivations

class Key:
  """a key derived by fold_in, as a term"""
  def __init__(self, base, data): self.base, self.data = base, data
  def __repr__(self): return f"fold_in({self.base!r}, {self.data!r})"
  shape, dtype, ndim, size = (2,), 'uint32', 1, 2
  @property
  def __class__(self):
    import jax
    return jax.Array

class HashIn:
  """result of hashing a text (pieces: literals and symbolic integers)"""
  def __init__(self, pieces): self.pieces = pieces
  def __repr__(self): return "hash(" + "".join(p if isinstance(p, str) else f"<{p.e}>" for p in self.pieces) + ")"

class Rec:
  def __init__(self): self.hashes, self.folds = [], []

class FakeHash:
  def __init__(self, rec, data=b""): self.rec, self.buf = rec, data
  def update(self, d): self.buf += d
  def digest(self, *a):
    i = len(self.rec.hashes)
    self.rec.hashes.append(HashIn(TOKENS.parse(self.buf.decode())))
    assert i < 127
    return bytes([128 + i]) * 32
  def hexdigest(self, *a): return self.digest().hex()
  def copy(self): return FakeHash(self.rec, self.buf)

@_ctl.contextmanager
def derivations(real=False):
  """hashes and fold_in become terms"""
  import jax
  rec = Rec()
  if real:
    yield rec; return
  names = [n for n in ("blake2s", "blake2b", "sha1", "sha224", "sha256", "sha384", "sha512", "md5", "sha3_256", "sha3_512") if hasattr(hashlib, n)]
  def fold(key, data):
    if rec.hashes and not isinstance(data, (SymInt, HashIn)) and hasattr(data, "__index__"): data = data.__index__()
    if type(data) is int and rec.hashes:
      b = data & 0xff
      if data and data == int.from_bytes(bytes([b]) * ((data.bit_length() + 7) // 8), "big") and 0 <= b - 128 < len(rec.hashes):
        rec.folds.append(data)
        data = rec.hashes[b - 128]
    return Key(key, data)
  fakes = {n: (lambda d=b"", **k: FakeHash(rec, d)) for n in names}
  def new(name, data=b"", **k):
    return FakeHash(rec, data) if name in names else onew(name, data, **k)
  onew = hashlib.new
  with replaced([(hashlib, n, fakes[n]) for n in names] + [(hashlib, "new", new), (jax.random, "fold_in", fold)]):
    yield rec

@_ctl.contextmanager
def replaced(subs):
  """replace library functions, also where nnx has imported them by name"""
  undo = []
  mods = [m for k, m in list(sys.modules.items()) if k == "nnx" or k.startswith("nnx.")]
  try:
    for lib, name, new in subs:
      old = getattr(lib, name)
      for m in [lib] + mods:
        for k, v in list(vars(m).items()):
          if v is old:
            undo.append((m, k, v)); setattr(m, k, new)
    yield
  finally:
    for m, k, v in reversed(undo): setattr(m, k, v)

def pieces_eq(S, p, q):
  """equality of two texts made of literals and decimal integers (non-forking)"""
  def norm(ps):
    out = []
    for x in ps:
      if isinstance(x, SymInt):
        s = z3.simplify(x.e) if not isinstance(x.e, int) else x.e
        if isinstance(s, int) or z3.is_int_value(s): x = str(s if isinstance(s, int) else s.as_long())
        else: out.append(x); continue
      if out and isinstance(out[-1], str): out[-1] += x
      else: out.append(x)
    return out
  p, q = norm(p), norm(q)
  def delimited(ps):
    for i, x in enumerate(ps):
      if isinstance(x, str): continue
      for y, k in ((ps[i-1] if i else None, -1), (ps[i+1] if i + 1 < len(ps) else None, 0)):
        if y is None: continue
        if not isinstance(y, str) or (y[k:] if k else y[:1])[:1].isdigit(): return False
    return True
  if delimited(p) and delimited(q):
    # the maximal digit runs of a delimited text are exactly its integers and literal numbers
    import re
    def toks(ps):
      out = []
      for x in ps:
        if isinstance(x, str): out += [int(t) if t.isdigit() and (t == "0" or t[0] != "0") else t for t in re.findall(r"\d+|\D+", x)]
        else: out.append(x)
      return out
    a, b = toks(p), toks(q)
    if len(a) != len(b): return False
    conds = []
    for x, y in zip(a, b):
      if isinstance(x, str) or isinstance(y, str):
        if x != y or type(x) is not type(y): return False
      else: conds.append((x.e if isinstance(x, SymInt) else x) == (y.e if isinstance(y, SymInt) else y))
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds): return False
    return SymBool(S, z3.And(conds)) if conds else True
  # ambiguous text: every split into numbers of one or two digits
  import itertools
  def forms(ps):
    ints = [x for x in ps if not isinstance(x, str)]
    for lens in itertools.product((1, 2), repeat=len(ints)):
      cond, chars, it = [], [], iter(lens)
      for x in ps:
        if isinstance(x, str): chars += list(x); continue
        n = next(it)
        cond.append(z3.And(x.e >= (0 if n == 1 else 10), x.e <= (9 if n == 1 else 99)))
        chars += [x.e / 10, x.e % 10] if n == 2 else [x.e]
      yield cond, chars
  alts = []
  fq = list(forms(q))
  for c1, a in forms(p):
    for c2, b in fq:
      if len(a) != len(b): continue
      conds, ok = c1 + c2, True
      for x, y in zip(a, b):
        if isinstance(x, str) and isinstance(y, str):
          if x != y: ok = False; break
          continue
        if isinstance(x, str) or isinstance(y, str):
          l, e = (x, y) if isinstance(x, str) else (y, x)
          if not l.isdigit(): ok = False; break
          conds = conds + [e == int(l)]
        else: conds = conds + [x == y]
      if ok: alts.append(z3.And(conds))
  return SymBool(S, z3.Or(alts)) if alts else False

def key_eq(S, a, b):
  """do two keys have the same derivation"""
  if a is b: return True
  if isinstance(a, Key) != isinstance(b, Key): return False
  if not isinstance(a, Key): return same(a, b)
  return AND(key_eq(S, a.base, b.base), data_eq(S, a.data, b.data))

def data_eq(S, a, b):
  if isinstance(a, HashIn) and isinstance(b, HashIn): return pieces_eq(S, a.pieces, b.pieces)
  if isinstance(a, HashIn) or isinstance(b, HashIn): return False
  return same(a, b)

def real(S): return not S.symbolic

_keys = {}
def base_key(i):
  import jax
  if i not in _keys: _keys[i] = jax.random.PRNGKey(1000 + i)
  return _keys[i]

def stream(S, nnx, key, count, path):
  """a stream in an arbitrary position, or None if streams cannot be built like this"""
  import importlib
  R = importlib.import_module(nnx.__name__ + ".contextlib").RngStream
  try: return R(key, count=count, count_path=tuple(path))
  except TypeError: return None

HI = 10 ** 6

def h_inputs(S, la=1, lb=1):
  """two draws at arbitrary positions: equal derivations only for equal positions"""
  nnx = S.nnx
  pa = [S.int(f"a{i}", 0, HI) for i in range(la)]; ca = S.int("ca", 0, HI)
  pb = [S.int(f"b{i}", 0, HI) for i in range(lb)]; cb = S.int("cb", 0, HI)
  with derivations(real(S)) as rec:
    sa, sb = stream(S, nnx, base_key(0), ca, pa), stream(S, nnx, base_key(0), cb, pb)
    if sa is None: return
    A, B = nnx.context(params=sa), nnx.context(params=sb)
    ka, kb = A.make_rng("params"), B.make_rng("params")
    pos = AND(la == lb, same(ca, cb), *[same(x, y) for x, y in zip(pa, pb)])
    S.check(IMPLIES(key_eq(S, ka, kb), pos), "hash inputs are unambiguous", lambda: f"positions {pa},{ca} and {pb},{cb} give {ka!r} = {kb!r}")
    S.check(IMPLIES(pos, key_eq(S, ka, kb)), "same position gives the same key", lambda: f"{ka!r} vs {kb!r}")
    for d in rec.folds: S.check(d.bit_length() == 32, "32 bits used", lambda: f"{d}")
    # the counter steps: next draws and children take the following positions
    ka2 = A.make_rng("params")
    keys, cd = A.partition()
    C = cd.merge(keys)
    kc, ka3 = C.make_rng("params"), A.make_rng("params")
    kc2 = C.make_rng("params")
    for n, (x, want) in enumerate(((ka2, pa + [ca + 1]), (kc, pa + [ca + 2, 0]), (ka3, pa + [ca + 3]), (kc2, pa + [ca + 2, 1]))):
      ref = stream(S, nnx, base_key(0), want[-1], want[:-1])
      S.check(key_eq(S, x, nnx.context(params=ref).make_rng("params")), "counter steps", lambda: f"{n}: {x!r} is not at {want}")

class Ctx:
  def __init__(self, ctx, pos): self.ctx, self.pos = ctx, pos

def program(S, n, streams, maxctx=4, offset=True, lab="", copies=True, ops=None):
  """choose a history: list of (op, context index, stream)"""
  prog, nctx = [], 1
  for i in range(n):
    opts = [('draw', c, s) for c in range(nctx) for s in streams]
    if nctx < maxctx: opts += [('split', c, None) for c in range(nctx)] + ([('copy', c, None) for c in range(nctx)] if copies else [])
    o = S.choose(0, f"{lab}op{i}", values=opts)
    if o[0] != 'draw': nctx += 1
    prog.append(o)
  return prog

def play(prog, ctx, drop=()):
  """run a history; the keys drawn, by stream"""
  cs, out = [ctx], []
  for op, c, s in prog:
    if op == 'draw':
      if s not in drop: out.append((s, c, cs[c].make_rng(s)))
    elif op == 'copy': cs.append(cs[c].copy())
    else:
      p = cs[c].partition()
      cs.append(p.merge())
  return out

def mkctx(S, nnx, names, offs, flags=None):
  kw = {}
  for i, n in names:
    k = base_key(i)
    if offs and n in offs:
      st = stream(S, nnx, k, offs[n][0], offs[n][1])
      kw[n] = st if st is not None else k
    else: kw[n] = k
  return nnx.context(flags=flags, **kw)

def h_history(S, n=3, names=('params', 'dropout'), offset=True, maxctx=4, tail=True):
  """pairwise distinct derivations along a history from an arbitrary state"""
  nnx = S.nnx
  with derivations(real(S)) as rec:
    # both streams share one seed key in the hardest case only if they are the same stream
    offs = {s: (S.int(f"c_{s}", 0, HI), [S.int(f"p_{s}", 0, HI)] if S.flip(f"deep_{s}") else []) for s in names} if offset else {}
    ctx = mkctx(S, nnx, list(enumerate(names)), offs)
    prog = program(S, n, names, maxctx)
    if tail:   # everything alive draws once more at the end
      nc = 1 + sum(o[0] != 'draw' for o in prog)
      prog += [('draw', c, s) for c in range(nc) for s in names]
    out = play(prog, ctx)
    for i in range(len(out)):
      for j in range(i):
        S.check(NOT(key_eq(S, out[i][2], out[j][2])), "draws never share a derivation",
                lambda: f"draws {j} and {i} of {prog}: {out[j]} and {out[i]}")

def h_function(S, n=3, names=('params', 'dropout', 'noise')):
  """other streams, flags and declaration order do not matter"""
  nnx = S.nnx
  with derivations(real(S)) as rec:
    prog = program(S, n, names, 3, copies=False) + [('draw', 0, names[0])]
    nc = 1 + sum(o[0] == 'split' for o in prog)
    prog += [('draw', nc - 1, names[0])]
    idx = list(enumerate(names))
    ref = play(prog, mkctx(S, nnx, idx, None))
    var = S.choose(0, "variant", values=['order', 'flags', 'alone', 'less draws', 'again'])
    if var == 'order': other = play(prog, mkctx(S, nnx, [idx[k] for k in S.choose(0, "perm", values=[(1, 0, 2), (2, 1, 0), (1, 2, 0)])], None))
    elif var == 'flags': other = play(prog, mkctx(S, nnx, idx, None, flags={'deterministic': S.flip("flag"), 'train': False}))
    elif var == 'alone': other = play(prog, mkctx(S, nnx, idx[:1], None), drop=names[1:])
    elif var == 'less draws': other = play(prog, mkctx(S, nnx, idx, None), drop=names[1:])
    else: other = play(prog, mkctx(S, nnx, idx, None))
    only = var in ('alone', 'less draws')
    a = [k for s, _, k in ref if not only or s == names[0]]
    b = [k for s, _, k in other if not only or s == names[0]]
    S.check(len(a) == len(b), "same number of draws")
    for i, (x, y) in enumerate(zip(a, b)):
      S.check(key_eq(S, x, y), "keys depend on own history only", lambda: f"{var}: draw {i} of {prog}: {x!r} vs {y!r}")

def h_seeds(S):
  """seed keys: PRNGKey of exactly the given seed, under the given name; key arrays as they are"""
  nnx = S.nnx
  import jax
  seeds = [S.int(f"s{i}", 0, 2 ** 31 - 1) for i in range(3)]
  S.assume(AND(*[NOT(same(seeds[i], seeds[j])) for i in range(3) for j in range(i)]))
  arr = base_key(7)
  with replaced([(jax.random, "PRNGKey", lambda s, **k: Key('seed', s))] if S.symbolic else []):
    form = S.choose(0, "form", values=['positional', 'keywords', 'mixed'])
    if form == 'positional': c = nnx.context(seeds[0], dropout=seeds[1], noise=seeds[2]); want = dict(params=seeds[0], dropout=seeds[1], noise=seeds[2])
    elif form == 'keywords': c = nnx.context(noise=seeds[2], params=seeds[0], dropout=seeds[1]); want = dict(params=seeds[0], dropout=seeds[1], noise=seeds[2])
    else: c = nnx.context(arr, dropout=seeds[1]); want = dict(dropout=seeds[1])
    keys = c.partition().keys
    for n, s in want.items():
      S.check(key_eq(S, keys[n], jax.random.PRNGKey(s)), "seed keys are PRNGKey(seed)", lambda: f"{n}: {keys[n]!r} for {s!r}")
    if form == 'mixed': S.check(same(keys['params'], arr), "key arrays are used as they are")
    ks = list(keys)
    for i in range(len(ks)):
      for j in range(i):
        S.check(NOT(key_eq(S, keys[ks[i]], keys[ks[j]])), "seed keys differ", lambda: f"{ks[i]} and {ks[j]}")

def h_real(S, n=3):
  """the same with the real keys: distinct bits along every history"""
  nnx = S.nnx
  prog = program(S, n, ('params', 'dropout'), 3)
  prog += [('draw', c, 'params') for c in range(1 + sum(o[0] != 'draw' for o in prog))]
  out = play(prog, nnx.context(0, dropout=1))
  import numpy as np
  bits = [tuple(np.asarray(k).tolist()) for _, _, k in out]
  S.check(len(set(bits)) == len(bits), "real keys are distinct", lambda: f"{prog}: {bits}")
  again = play(prog, nnx.context(0, dropout=1))
  S.check(all(np.array_equal(a[2], b[2]) for a, b in zip(out, again)), "real keys are reproducible", lambda: f"{prog}")

def h_long(S, n=700):
  """a long concrete run from one seed: no two keys alike"""
  nnx = S.nnx
  import numpy as np
  c = nnx.context(S.choose(0, "seed", values=[0, 1]))
  ks = [c.make_rng("params")]
  kids = []
  for i in range(n):
    if i % 5 == 4:
      kid = c.partition().merge(); kids.append(kid)
      ks += [kid.make_rng("params") for _ in range(3)]
    else: ks.append(c.make_rng("params"))
  bits = {tuple(np.asarray(k).tolist()) for k in ks}
  S.check(len(bits) == len(ks), "real keys are distinct", lambda: f"{len(ks) - len(bits)} repeated among {len(ks)}")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  L = 5 if T else 4
  for a in range(L):
    for b in range(a + 1): j(f"two draws, path lengths {a},{b}", "h_inputs", la=a, lb=b)
  j("history 3", "h_history", n=3)
  j("history from the start", "h_history", n=3 if not T else 4, names=['params', 'dropout', 'noise'], offset=False)
  j("history 4 one stream", "h_history", n=4, names=['params'], maxctx=4)
  j("function of history", "h_function", n=2 if not T else 3)
  j("seeds", "h_seeds")
  j("real keys", "h_real", n=2 if not T else 4)
  j("real keys long", "h_long")
  if T:
    j("history 4", "h_history", n=4)
    j("history 5 one stream", "h_history", n=5, names=['params'], maxctx=4)
  return J
