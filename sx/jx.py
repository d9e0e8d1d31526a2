"""Symbolic execution of jaxprs.

The real nnx code is run under jax.make_jaxpr with abstract inputs, which yields the exact
program it performs on its array inputs; that program (every primitive, scans unrolled,
inner calls inlined) is evaluated elementwise on z3 terms, and z3 is asked whether the
result can differ from the reference for any value of the inputs.

floats are exact reals, integers are unbounded, random bits are uninterpreted functions of
the key, transcendental functions are uninterpreted functions (of normalised arguments)."""
import itertools, math, time
from fractions import Fraction
import numpy as np
import z3
import jax, jax.numpy as jnp
from jax import core as jcore
from sx.engine import Unsupported, ViolationFound, Inconclusive

KeySort = z3.DeclareSort("Key")
_ufs = {}
def uf(name, *sorts):
  f = _ufs.get((name, sorts))
  if f is None: f = _ufs[(name, sorts)] = z3.Function(name, *sorts)
  return f

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
INF, NINF = float('inf'), float('-inf')

def issym(x): return isinstance(x, z3.ExprRef)
def isinf(x): return isinstance(x, float)      # only inf / nan are kept as python floats

def kind(dtype):
  if jax.dtypes.issubdtype(dtype, jax.dtypes.extended) if hasattr(jax.dtypes, 'extended') else False: return 'k'
  try: d = np.dtype(dtype)
  except TypeError: return 'k'
  if d == jax.dtypes.float0: return '0'
  if d == np.bool_: return 'b'
  if np.issubdtype(d, np.integer): return 'i'
  if jnp.issubdtype(d, jnp.floating): return 'f'
  raise Unsupported(f"dtype {dtype}")

def conc(x, kd):
  """numpy scalar -> element"""
  if kd == 'b': return bool(x)
  if kd == 'i': return int(x)
  if kd == 'f':
    f = float(x)
    if math.isinf(f) or math.isnan(f): return f
    return Fraction(f)
  if kd == '0': return 0
  raise Unsupported("key constant")

def z(x, kd=None):
  if issym(x): return x
  if isinstance(x, bool): return z3.BoolVal(x)
  if isinstance(x, Fraction) or kd == 'f':
    if isinf(x): raise Unsupported("infinite constant in arithmetic")
    x = Fraction(x)
    return z3.RatVal(x.numerator, x.denominator)
  if isinstance(x, int): return z3.IntVal(x)
  raise Unsupported(f"constant {x!r}")

class TooBig(Exception): pass
_polys = {}
def poly(t):
  """{monomial: coefficient} of a real term; a monomial is a sorted tuple of atom ids (with repetition)"""
  i = t.get_id()
  r = _polys.get(i)
  if r is not None: return r[1]
  k = t.decl().kind() if z3.is_app(t) else None
  if k == z3.Z3_OP_ANUM and z3.is_rational_value(t):
    c = Fraction(t.numerator_as_long(), t.denominator_as_long()); p = {(): c} if c else {}
  elif k == z3.Z3_OP_ADD:
    p = {}
    for c in t.children(): _padd(p, poly(c), 1)
  elif k == z3.Z3_OP_SUB:
    cs = t.children(); p = dict(poly(cs[0]))
    for c in cs[1:]: _padd(p, poly(c), -1)
  elif k == z3.Z3_OP_UMINUS: p = {m: -c for m, c in poly(t.arg(0)).items()}
  elif k == z3.Z3_OP_MUL:
    p = {(): Fraction(1)}
    for c in t.children(): p = _pmul(p, poly(c))
  elif k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)) and t.arg(1).numerator_as_long():
    d = Fraction(t.arg(1).denominator_as_long(), t.arg(1).numerator_as_long())
    p = {m: c * d for m, c in poly(t.arg(0)).items()}
  else: p = {(i,): Fraction(1)}; _atoms[i] = t
  _polys[i] = (t, p)      # keeps the term alive, so that its id stays its own
  return p
_atoms = {}
def _padd(p, q, s):
  for m, c in q.items():
    v = p.get(m, 0) + s * c
    if v: p[m] = v
    else: p.pop(m, None)
def _pmul(p, q):
  if len(p) * len(q) > 20000: raise TooBig()
  r = {}
  for m, c in p.items():
    for n, d in q.items():
      k = tuple(sorted(m + n))
      v = r.get(k, 0) + c * d
      if v: r[k] = v
      else: r.pop(k, None)
  return r
def _norm(x):
  """canonical form: equal polynomials become the same term"""
  if not issym(x): return x
  if x.sort() != R: return z3.simplify(x, som=True, hoist_mul=False)
  try: p = poly(x)
  except TooBig: return z3.simplify(x, som=True, hoist_mul=False)
  ts = []
  for m in sorted(p, key=lambda m: (len(m), m)):
    c = p[m]
    fs = [_atoms[a] for a in m]
    if c != 1 or not fs: fs = [z3.RatVal(c.numerator, c.denominator)] + fs
    ts.append(fs[0] if len(fs) == 1 else z3.Product(fs))
  return z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts)

# ---------------------------------------------------------------- scalar operations
ROUND = []       # when set: [facts]; arithmetic results are unknown numbers, of which only the facts that
                 # hold under any rounding (signs, monotonicity at zero) are known
_rc = itertools.count()
def rounded(op, a, b):
  r = z3.Real(f"rounded{next(_rc)}")
  same = issym(a) and issym(b) and a.eq(b)
  a, b = z(a), z(b)
  if op == 'add': up, down = z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)
  elif op == 'sub': up, down = a >= b, a <= b
  else: up, down = z3.Or(z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)), z3.Or(z3.And(a >= 0, b <= 0), z3.And(a <= 0, b >= 0))
  ROUND[0] += [r >= 0] if op == 'mul' and same else [z3.Implies(up, r >= 0), z3.Implies(down, r <= 0)]
  return r
def add(a, b):
  if not issym(a) and not issym(b): return a + b
  if isinf(a) or isinf(b): raise Unsupported("inf")
  if not issym(a) and a == 0: return b
  if not issym(b) and b == 0: return a
  if ROUND: return rounded('add', a, b)
  return z(a) + z(b)
def sub(a, b):
  if not issym(a) and not issym(b): return a - b
  if not issym(b) and b == 0: return a
  if issym(a) and issym(b) and a.eq(b): return Fraction(0) if a.sort() == R else 0
  if ROUND: return rounded('sub', a, b)
  return z(a) - z(b)
def neg(a): return -a
def mul(a, b):
  if not issym(a) and not issym(b): return a * b
  if not issym(a): a, b = b, a
  if not issym(b):
    if isinf(b): raise Unsupported("inf")
    if b == 0: return b
    if b == 1: return a
  if ROUND: return rounded('mul', a, b)
  return z(a) * z(b)
def div(a, b):
  if not issym(b):
    if isinf(b): raise Unsupported("inf")
    if b == 0:
      raise Unsupported("division by zero")
    return mul(a, 1 / Fraction(b))
  if not issym(a) and a == 0: return a
  if ROUND: return rounded('div', a, b)
  return mul(a, uf("inv", R, R)(_norm(b)))
def total(xs):
  xs = list(xs)
  if ROUND and xs:
    r = xs[0]
    for x in xs[1:]: r = add(r, x)
    return r
  c = [x for x in xs if not issym(x)]
  s = [x for x in xs if issym(x)]
  k = sum(c[1:], c[0]) if c else None
  if not s: return k if c else Fraction(0)
  if k is not None and k != 0: s.append(z(k))
  return s[0] if len(s) == 1 else z3.Sum(s)
def lt(a, b):
  if not issym(a) and not issym(b): return bool(a < b)
  if isinf(a) or isinf(b):
    if isinf(a): return a == NINF
    return b == INF
  return z(a) < z(b)
def le(a, b):
  if not issym(a) and not issym(b): return bool(a <= b)
  if isinf(a) or isinf(b):
    if isinf(a): return a == NINF
    return b == INF
  return z(a) <= z(b)
def eq(a, b):
  if not issym(a) and not issym(b): return bool(a == b)
  if isinf(a) or isinf(b): return False
  if issym(a) and issym(b) and a.eq(b): return True
  return z(a) == z(b)
def lnot(a): return (not a) if not issym(a) else z3.Not(a)
def land(a, b):
  if not issym(a): return b if a else False
  if not issym(b): return a if b else False
  return z3.And(a, b)
def lor(a, b):
  if not issym(a): return True if a else b
  if not issym(b): return True if b else a
  return z3.Or(a, b)
def not_finite(v):
  """a NaN that is only selected under a symbolic condition: some value, the same wherever it appears"""
  if v == v: raise Unsupported("inf in select")
  return z3.Real("!nan")
def ite(c, a, b):
  if not issym(c): return a if c else b
  if not issym(a) and not issym(b) and type(a) == type(b) and a == b: return a
  if issym(a) and issym(b) and a.eq(b): return a
  if isinf(a): a = not_finite(a)
  if isinf(b): b = not_finite(b)
  if NONNEG and clipped(c, a, b) is not None: return clipped(c, a, b)
  return z3.If(c, z(a), z(b))
def clipped(c, a, b):
  """p when "a if c else b" is max(p, 0) for a p known to be non-negative"""
  if issym(a) and not issym(b) and not isinstance(b, bool) and b == 0: p, sign = a, 1
  elif issym(b) and not issym(a) and not isinstance(a, bool) and a == 0: p, sign = b, -1
  else: return None
  if p.sort() != R or not known_nonneg(_norm(p)): return None
  if z3.is_not(c): c, sign = c.arg(0), -sign
  if z3.is_gt(c) or z3.is_ge(c): x, y = c.arg(0), c.arg(1)
  elif z3.is_lt(c) or z3.is_le(c): y, x = c.arg(0), c.arg(1)
  else: return None
  try: same = not poly(sign * (x - y) - p)
  except TooBig: return None
  return p if same else None
NONNEG = []      # normalised polynomials known (proved) to be non-negative, set by agree
def known_nonneg(t): return any(t.eq(q) for q in NONNEG)
def maximum(a, b):
  if a is b: return a
  if NONNEG:
    for x, y in ((a, b), (b, a)):
      if not issym(x) and not isinf(x) and x == 0 and issym(y) and known_nonneg(_norm(y)): return y
  if isinstance(a, bool) or (issym(a) and a.sort() == B): return lor(a, b)
  return ite(le(b, a), a, b)
def minimum(a, b):
  if isinstance(a, bool) or (issym(a) and a.sort() == B): return land(a, b)
  return ite(le(a, b), a, b)
def ipow(a, n):
  if not issym(a): return Fraction(a) ** n if n < 0 else a ** n
  if n < 0: return div(Fraction(1), ipow(a, -n))
  r = Fraction(1) if a.sort() == R else 1
  for _ in range(n): r = mul(r, a)
  return r
def fun1(name):
  def f(a):
    if isinf(a): raise Unsupported("inf in " + name)
    if not issym(a):
      if name in ('exp', 'cos', 'cosh') and a == 0: return Fraction(1)
      if name in ('sin', 'tanh', 'log1p', 'expm1', 'sqrt', 'erf', 'erf_inv', 'sinh') and a == 0: return Fraction(0)
      if name in ('log',) and a == 1: return Fraction(0)
      if name in ('sqrt', 'rsqrt') :
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if a > 0 and n * n == a.numerator and d * d == a.denominator: return Fraction(n, d) if name == 'sqrt' else Fraction(d, n)
    if ROUND:
      r = z3.Real(f"rounded{next(_rc)}")
      if name in ('sqrt', 'exp', 'rsqrt', 'cosh'): ROUND[0].append(r >= 0)
      return r
    return uf(name, R, R)(_norm(z(a, 'f')))
  return f
def absolute(a):
  if not issym(a): return abs(a)
  return z3.If(a >= 0, a, -a)
def sign(a):
  if not issym(a): return type(a)((a > 0) - (a < 0))
  r = a.sort() == R
  one, zero = (z3.RealVal(1), z3.RealVal(0)) if r else (z3.IntVal(1), z3.IntVal(0))
  return z3.If(a > 0, one, z3.If(a < 0, -one, zero))
def convert(a, src, dst):
  if src == dst: return a
  if src == 'b':
    if dst == 'i': return ite(a, 1, 0)
    if dst == 'f': return ite(a, Fraction(1), Fraction(0))
  if src == 'i':
    if dst == 'f': return z3.ToReal(a) if issym(a) else Fraction(a)
    if dst == 'b': return lnot(eq(a, 0))
  if src == 'f':
    if dst == 'b': return lnot(eq(a, 0))
    if dst == 'i':
      if not issym(a): return math.trunc(a)
      return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
  raise Unsupported(f"convert {src} {dst}")

# ---------------------------------------------------------------- arrays
class Arr:
  __slots__ = ("a", "dtype")
  def __init__(self, a, dtype): self.a, self.dtype = a, dtype
  @property
  def shape(self): return self.a.shape
  @property
  def kd(self): return kind(self.dtype)
  def concrete(self): return not any(issym(x) for x in self.a.flat)
  def numpy(self):
    d = np.dtype(self.dtype)
    out = np.empty(self.a.shape, d)
    for ix, x in np.ndenumerate(self.a): out[ix] = float(x) if isinstance(x, Fraction) else x
    return out

def obj(shape): return np.empty(shape, dtype=object)
def fill(shape, f):
  a = obj(shape)
  for ix in np.ndindex(*shape): a[ix] = f(ix)
  return a
def from_np(x, dtype=None):
  x = np.asarray(x)
  dtype = dtype or x.dtype
  kd = kind(dtype)
  if kd == '0': return Arr(fill(x.shape, lambda ix: 0), dtype)
  return Arr(fill(x.shape, lambda ix: conc(x[ix], kd)), dtype)

def map1(f, x, dtype=None):
  return Arr(fill(x.shape, lambda ix: f(x.a[ix])), dtype or x.dtype)
def mapn(f, xs, dtype):
  sh = np.broadcast_shapes(*[x.shape for x in xs])
  al = [np.broadcast_to(x.a, sh) for x in xs]
  return Arr(fill(sh, lambda ix: f(*[a[ix] for a in al])), dtype)

def struct(eqn, ins, which):
  """data movement: run the primitive on element numbers"""
  offs, ids, pool = 1, [], [None]
  for k, x in enumerate(ins):
    if k in which:
      n = int(np.prod(x.shape))
      ids.append(jnp.asarray(np.arange(offs, offs + n, dtype=np.int32).reshape(x.shape)))
      pool += list(x.a.reshape(-1)); offs += n
    else:
      ids.append(jnp.asarray(x.numpy()))
  return ids, pool

def _params_str(p, drop=()):
  return repr(sorted((k, str(v)) for k, v in p.items() if k not in drop))

BIN = dict(add=add, add_any=add, sub=sub, mul=mul, max=maximum, min=minimum)
CMP = dict(lt=lt, le=le, gt=lambda a, b: lt(b, a), ge=lambda a, b: le(b, a), eq=eq, ne=lambda a, b: lnot(eq(a, b)))
UN = {n: fun1(n) for n in ('exp', 'log', 'log1p', 'expm1', 'tanh', 'sqrt', 'rsqrt', 'sin', 'cos', 'erf', 'erf_inv', 'cbrt', 'sinh', 'cosh', 'tan', 'asin', 'acos', 'atan', 'erfc', 'lgamma', 'digamma')}

def rsqrt(a):
  if not issym(a) or ROUND: return UN0_rsqrt(a)
  return uf("inv", R, R)(_norm(UN['sqrt'](a)))
UN0_rsqrt = UN['rsqrt']
UN['rsqrt'] = rsqrt

def logistic(a):
  return fun1('logistic')(a)

def zero(kd): return {'f': Fraction(0), 'i': 0, 'b': False}[kd]

NARROW = []      # when set: a result in a type of less than 32 bits is an unknown function of the exact result
EXACT = {'neg', 'abs', 'sign', 'max', 'min', 'select_n', 'clamp', 'copy', 'stop_gradient', 'broadcast_in_dim', 'reshape', 'squeeze', 'expand_dims', 'transpose', 'rev', 'concatenate', 'slice', 'gather',
         'dynamic_slice', 'dynamic_update_slice', 'scatter', 'pad', 'reduce_max', 'reduce_min', 'sort', 'optimization_barrier', 'pjit', 'closed_call', 'core_call', 'scan', 'cond', 'while', 'custom_jvp_call', 'custom_vjp_call', 'remat', 'checkpoint', 'sharding_constraint'}
def narrowed(eqn, o):
  if kind(o.dtype) != 'f' or np.dtype(o.dtype).itemsize >= 4 or eqn.primitive.name in EXACT: return o
  if eqn.primitive.name == 'convert_element_type' and eqn.invars[0].aval.dtype == o.dtype: return o
  f = uf(f"rounded_to_{np.dtype(o.dtype)}", R, R)
  return map1(lambda a: f(_norm(a)) if issym(a) else a, o)

def eval_jaxpr(jaxpr, consts, args, E):
  env = {}
  def read(v):
    if isinstance(v, jcore.Literal): return from_np(np.asarray(v.val), v.aval.dtype)
    return env[v]
  for v, c in zip(jaxpr.constvars, consts): env[v] = c
  for v, x in zip(jaxpr.invars, args): env[v] = x
  for eqn in jaxpr.eqns:
    ins = [read(v) for v in eqn.invars]
    try: outs = run_eqn(eqn, ins, E)
    except (KeyError, IndexError, AttributeError, TypeError) as ex:
      raise Unsupported(f"evaluating {eqn.primitive}: {ex!r}")
    if not isinstance(outs, (list, tuple)): outs = [outs]
    if NARROW: outs = [narrowed(eqn, o) for o in outs]
    for v, o in zip(eqn.outvars, outs):
      if tuple(o.shape) != tuple(v.aval.shape): raise Unsupported(f"evaluator shape error in {eqn.primitive}: {o.shape} {v.aval.shape}")
      env[v] = o
  return [read(v) for v in jaxpr.outvars]

def const_arr(c):
  if isinstance(c, Arr): return c
  if jnp.issubdtype(getattr(c, 'dtype', np.float32), jax.dtypes.prng_key) if hasattr(jax.dtypes, 'prng_key') else False:
    raise Unsupported("key constant")
  return from_np(np.asarray(c))

def closed(cj, args, E):
  return eval_jaxpr(cj.jaxpr, [const_arr(c) for c in cj.consts], args, E)

def run_eqn(eqn, ins, E):
  p, pr = eqn.primitive.name, eqn.params
  E.prims[p] = E.prims.get(p, 0) + 1
  oav = eqn.outvars[0].aval if eqn.outvars else None
  if p in BIN: return mapn(BIN[p], ins, oav.dtype)
  if p == 'div':
    if ins[0].kd == 'f': return mapn(div, ins, oav.dtype)
    if all(x.concrete() for x in ins): return mapn(lambda a, b: int(math.trunc(Fraction(a, b))), ins, oav.dtype)
    return mapn(lambda a, b: uf("idiv", I, I, I)(z(a), z(b)), ins, oav.dtype)
  if p == 'rem':
    if all(x.concrete() for x in ins): return mapn(lambda a, b: math.fmod(a, b) if isinstance(a, Fraction) else int(math.fmod(a, b)), ins, oav.dtype)
    s = R if ins[0].kd == 'f' else I
    return mapn(lambda a, b: uf("rem", s, s, s)(z(a), z(b)), ins, oav.dtype)
  if p in CMP: return mapn(CMP[p], ins, oav.dtype)
  if p in UN: return map1(UN[p], ins[0])
  if p == 'logistic': return map1(logistic, ins[0])
  if p == 'neg': return map1(neg, ins[0])
  if p == 'abs': return map1(absolute, ins[0])
  if p == 'sign': return map1(sign, ins[0])
  if p == 'square': return map1(lambda a: mul(a, a), ins[0])
  if p == 'integer_pow': return map1(lambda a: ipow(a, pr['y']), ins[0])
  if p == 'pow':
    def pw(a, b):
      if not issym(b) and Fraction(b).denominator == 1 and abs(b) <= 8: return ipow(a, int(b))
      if not issym(b) and abs(Fraction(b)) == Fraction(1, 2): return UN['sqrt' if b > 0 else 'rsqrt'](a)
      return uf("pow", R, R, R)(_norm(z(a, 'f')), _norm(z(b, 'f')))
    return mapn(pw, ins, oav.dtype)
  if p in ('floor', 'ceil', 'round'):
    def fl(a):
      if not issym(a): return Fraction({'floor': math.floor, 'ceil': math.ceil, 'round': round}[p](a))
      if p == 'floor': return z3.ToReal(z3.ToInt(a))
      if p == 'ceil': return -z3.ToReal(z3.ToInt(-a))
      return uf('round', R, R)(_norm(a))
    return map1(fl, ins[0])
  if p == 'is_finite': return map1(lambda a: not isinf(a), ins[0], oav.dtype)
  if p == 'not':
    if ins[0].kd == 'b': return map1(lnot, ins[0])
    return map1(lambda a: ~a if not issym(a) else uf("not", I, I)(a), ins[0])
  if p in ('and', 'or', 'xor'):
    if ins[0].kd == 'b':
      return mapn({'and': land, 'or': lor, 'xor': lambda a, b: (a != b) if not issym(a) and not issym(b) else z3.Xor(z(a), z(b))}[p], ins, oav.dtype)
    f = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}[p]
    return mapn(lambda a, b: f(a, b) if not issym(a) and not issym(b) else uf(p, I, I, I)(z(a), z(b)), ins, oav.dtype)
  if p.startswith('shift_'):
    return mapn(lambda a, b: ((a << b) & 0xffffffff if 'left' in p else a >> b) if not issym(a) and not issym(b) else uf(p, I, I, I)(z(a), z(b)), ins, oav.dtype)
  if p == 'nextafter': return mapn(lambda a, b: uf('nextafter', R, R, R)(z(a, 'f'), z(b, 'f')) if issym(a) or issym(b) else Fraction(float(np.nextafter(np.float32(a), np.float32(b)))), ins, oav.dtype)
  if p == 'bitcast_convert_type':
    so = {'f': R, 'i': I, 'b': B}
    if ins[0].concrete():
      return from_np(np.asarray(eqn.primitive.bind(jnp.asarray(ins[0].numpy()), **pr)), oav.dtype)
    return map1(lambda a: uf(f"bitcast_{ins[0].dtype}_{oav.dtype}", so[ins[0].kd], so[kind(oav.dtype)])(z(a, ins[0].kd)), ins[0], oav.dtype)
  if p == 'convert_element_type':
    s, d = ins[0].kd, kind(oav.dtype)
    return map1(lambda a: convert(a, s, d), ins[0], oav.dtype)
  if p == 'reduce_precision': return ins[0]
  if p == 'select_n':
    c, *cs = ins
    ca = np.broadcast_to(c.a, cs[0].shape) if c.a.shape == () else c.a
    def sel(ix):
      v = ca[ix]
      if c.kd == 'b': return ite(v, cs[1].a[ix], cs[0].a[ix]) if len(cs) == 2 else cs[0].a[ix]
      r = cs[-1].a[ix]
      for k in range(len(cs) - 2, -1, -1): r = ite(eq(v, k), cs[k].a[ix], r)
      return r
    return Arr(fill(cs[0].shape, sel), oav.dtype)
  if p == 'clamp':
    lo, x, hi = ins
    g = lambda q, ix: q.a[ix] if q.shape == x.shape else q.a[()]
    return Arr(fill(x.shape, lambda ix: minimum(maximum(x.a[ix], g(lo, ix)), g(hi, ix))), oav.dtype)
  if p in ('copy', 'copy_p', 'stop_gradient', 'optimization_barrier', 'name', 'sharding_constraint', 'device_put', 'pvary'):
    return ins if p == 'optimization_barrier' else ins[0]
  # -- data movement --
  if p == 'broadcast_in_dim':
    x = ins[0]
    sh, bd = pr['shape'], pr['broadcast_dimensions']
    tmp = [1] * len(sh)
    for d, b in enumerate(bd): tmp[b] = x.shape[d]
    return Arr(np.broadcast_to(x.a.reshape(tmp), sh).copy(), oav.dtype)
  if p in ('reshape', 'squeeze', 'expand_dims'): return Arr(ins[0].a.reshape(oav.shape), oav.dtype)
  if p == 'transpose': return Arr(ins[0].a.transpose(pr['permutation']), oav.dtype)
  if p == 'rev': return Arr(np.flip(ins[0].a, pr['dimensions']), oav.dtype)
  if p == 'concatenate': return Arr(np.concatenate([x.a for x in ins], axis=pr['dimension']), oav.dtype)
  if p == 'slice':
    st = pr['strides'] or (1,) * len(pr['start_indices'])
    return Arr(ins[0].a[tuple(slice(a, b, c) for a, b, c in zip(pr['start_indices'], pr['limit_indices'], st))], oav.dtype)
  if p == 'iota':
    return from_np(np.asarray(eqn.primitive.bind(**pr)), oav.dtype)
  if p == 'pad':
    ids, pool = struct(eqn, ins, (0, 1))
    o = np.asarray(eqn.primitive.bind(*ids, **pr))
    return Arr(fill(o.shape, lambda ix: pool[int(o[ix])]), oav.dtype)
  if p in ('gather', 'dynamic_slice', 'dynamic_update_slice', 'scatter'):
    idx = dict(gather=[1], dynamic_slice=range(1, len(ins)), dynamic_update_slice=range(2, len(ins)), scatter=[1])[p]
    if not all(ins[k].concrete() for k in idx):
      if p == 'dynamic_slice': return dyn_slice(ins, pr, oav)
      if p == 'gather' and ins[1].shape[-1:] == (1,): return sym_gather(eqn, ins, pr, oav, E)
      raise Unsupported(f"symbolic index in {p}")
    data = [k for k in range(len(ins)) if k not in list(idx)]
    ids, pool = struct(eqn, ins, data)
    prm = dict(pr)
    if p == 'gather': prm['fill_value'] = 0
    o = np.asarray(eqn.primitive.bind(*ids, **prm))
    def pick(ix):
      if int(o[ix]) == 0:
        if p == 'gather':
          fv = pr.get('fill_value')
          return float('nan') if fv is None and kind(oav.dtype) == 'f' else conc(fv or 0, kind(oav.dtype))
        raise Unsupported("fill")
      return pool[int(o[ix])]
    return Arr(fill(o.shape, pick), oav.dtype)
  if p in ('scatter-add', 'scatter_add', 'scatter_mul'):
    if not ins[1].concrete(): raise Unsupported("symbolic scatter index")
    # contribution of every update element separately
    out = ins[0].a.copy()
    from jax import lax
    idx = jnp.asarray(ins[1].numpy())
    n = int(np.prod(ins[2].shape))
    flat = ins[2].a.reshape(-1)
    for k in range(n):
      u = np.zeros(n, np.float32); u[k] = 1
      prm = {kk: v for kk, v in pr.items()}
      w = np.asarray(lax.scatter_add(jnp.zeros(ins[0].shape, jnp.float32), idx, jnp.asarray(u.reshape(ins[2].shape)), pr['dimension_numbers'], indices_are_sorted=pr['indices_are_sorted'], unique_indices=pr['unique_indices'], mode=pr['mode']))
      for ix in zip(*np.nonzero(w)): out[ix] = (add if 'add' in p else mul)(out[ix], flat[k])
    return Arr(out, oav.dtype)
  if p == 'psum' and all(isinstance(a, int) for a in pr['axes']) and pr.get('axis_index_groups') is None:
    def ps(x):
      keep = [d for d in range(len(x.shape)) if d not in pr['axes']]
      t = x.a.transpose(keep + list(pr['axes'])).reshape([x.shape[d] for d in keep] + [int(np.prod([x.shape[d] for d in pr['axes']]))])
      return Arr(fill(tuple(x.shape[d] for d in keep), lambda ix: total(list(t[ix]))), x.dtype)
    return [ps(x) for x in ins]
  if p in ('reduce_sum', 'reduce_max', 'reduce_min', 'reduce_prod', 'reduce_and', 'reduce_or'):
    x, axes = ins[0], pr['axes']
    keep = [d for d in range(len(x.shape)) if d not in axes]
    t = x.a.transpose(keep + list(axes)).reshape([x.shape[d] for d in keep] + [int(np.prod([x.shape[d] for d in axes]))])
    def red(ix):
      xs = list(t[ix])
      if p == 'reduce_sum': return total(xs) if xs else zero(x.kd)
      f = dict(reduce_max=maximum, reduce_min=minimum, reduce_prod=mul, reduce_and=land, reduce_or=lor)[p]
      r = xs[0]
      for y in xs[1:]: r = f(r, y)
      return r
    return Arr(fill(tuple(x.shape[d] for d in keep), red), oav.dtype)
  if p in ('cumsum', 'cumprod', 'cummax'):
    x = ins[0]; ax = pr['axis']; out = x.a.copy()
    f = dict(cumsum=add, cumprod=mul, cummax=maximum)[p]
    m = np.moveaxis(out, ax, 0)
    rng = range(1, m.shape[0]) if not pr.get('reverse') else range(m.shape[0] - 2, -1, -1)
    d = -1 if not pr.get('reverse') else 1
    for i in rng:
      for ix in np.ndindex(*m.shape[1:]): m[(i,) + ix] = f(m[(i + d,) + ix], m[(i,) + ix])
    return Arr(out, oav.dtype)
  if p in ('argmax', 'argmin'):
    x = ins[0]; ax = pr['axes'][0]
    m = np.moveaxis(x.a, ax, -1)
    def am(ix):
      row = m[ix]; best, bi = row[0], 0
      for i in range(1, len(row)):
        c = lt(best, row[i]) if p == 'argmax' else lt(row[i], best)
        best, bi = ite(c, row[i], best), ite(c, i, bi)
      return bi
    return Arr(fill(m.shape[:-1], am), oav.dtype)
  if p == 'dot_general':
    (lc, rc), (lb, rb) = pr['dimension_numbers']
    a, b = ins
    lo = [d for d in range(a.a.ndim) if d not in lc and d not in lb]
    ro = [d for d in range(b.a.ndim) if d not in rc and d not in rb]
    A = a.a.transpose(list(lb) + lo + list(lc)); Bm = b.a.transpose(list(rb) + ro + list(rc))
    nb = len(lb)
    bs, ls, cs = A.shape[:nb], A.shape[nb:nb + len(lo)], A.shape[nb + len(lo):]
    rs = Bm.shape[nb:nb + len(ro)]
    nc = int(np.prod(cs)); A = A.reshape(bs + ls + (nc,)); Bm = Bm.reshape(bs + rs + (nc,))
    def el(ix):
      bi, li, ri = ix[:nb], ix[nb:nb + len(ls)], ix[nb + len(ls):]
      ks = range(A.shape[-1])
      return total([mul(A[bi + li + (k,)], Bm[bi + ri + (k,)]) for k in ks]) if A.shape[-1] else zero(kind(oav.dtype))
    return Arr(fill(bs + ls + rs, el), oav.dtype)
  if p == 'conv_general_dilated': return conv(ins, pr, oav)
  # -- control --
  if p == 'pjit': return closed(pr['jaxpr'], ins, E)
  if p in ('closed_call', 'core_call', 'core_closed_call', 'custom_jvp_call', 'custom_vjp_call', 'xla_call', 'remat_call'):
    j = pr.get('call_jaxpr') or pr.get('fun_jaxpr')
    return closed(j, ins, E) if hasattr(j, 'consts') else eval_jaxpr(j, [], ins, E)
  if p == 'custom_vjp_call_jaxpr': return closed(pr['fun_jaxpr'], ins, E)
  if p in ('checkpoint', 'remat', 'remat2'):
    j = pr['jaxpr']
    return closed(j, ins, E) if hasattr(j, 'consts') else eval_jaxpr(j, [], ins, E)
  if p == 'scan': return scan(pr, ins, eqn, E)
  if p == 'cond':
    i, rest = ins[0].a[()], ins[1:]
    brs = pr['branches']
    if not issym(i): return closed(brs[min(max(int(i), 0), len(brs) - 1)], rest, E)
    outs = [closed(b, rest, E) for b in brs]
    res = outs[-1]
    for k in range(len(brs) - 2, -1, -1):
      c = eq(i, k) if issym(i) and i.sort() == I else lnot(i)
      res = [Arr(fill(x.shape, lambda ix: ite(c, x.a[ix], y.a[ix])), x.dtype) for x, y in zip(outs[k], res)]
    return res
  if p == 'while':
    cn, bn = pr['cond_nconsts'], pr['body_nconsts']
    cc, bc, st = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
    for _ in range(200):
      c = closed(pr['cond_jaxpr'], cc + st, E)[0].a[()]
      if issym(c): raise Unsupported("while loop with symbolic condition")
      if not c: return st
      st = closed(pr['body_jaxpr'], bc + st, E)
    raise Unsupported("while loop too long")
  # -- random --
  if p == 'random_wrap':
    a = ins[0].a
    return Arr(fill(a.shape[:-1], lambda ix: wrap(a[ix + (0,)], a[ix + (1,)])), oav.dtype)
  if p == 'random_unwrap':
    a = ins[0].a
    return Arr(fill(a.shape + (2,), lambda ix: unwrap(a[ix[:-1]], ix[-1])), oav.dtype)
  if p == 'random_seed':
    return map1(lambda s: uf("seed", I, KeySort)(z(s)), ins[0], oav.dtype)
  if p == 'random_split':
    sh = tuple(pr['shape']) if 'shape' in pr else (pr['count'],)
    a = ins[0].a
    return Arr(fill(a.shape + sh, lambda ix: uf(f"split{sh}", KeySort, I, KeySort)(a[ix[:a.ndim]], z3.IntVal(int(np.ravel_multi_index(ix[a.ndim:], sh))))), oav.dtype)
  if p == 'random_fold_in':
    k, d = ins
    sh = np.broadcast_shapes(k.shape, d.shape)
    ka, da = np.broadcast_to(k.a, sh), np.broadcast_to(d.a, sh)
    return Arr(fill(sh, lambda ix: uf("fold_in", KeySort, I, KeySort)(ka[ix], z(da[ix]))), oav.dtype)
  if p == 'random_bits':
    a = ins[0].a; sh = tuple(pr['shape'])
    return Arr(fill(a.shape + sh, lambda ix: uf(f"bits{pr['bit_width']}_{sh}", KeySort, I, I)(a[ix[:a.ndim]], z3.IntVal(int(np.ravel_multi_index(ix[a.ndim:], sh)) if sh else 0))), oav.dtype)
  if p == 'random_gamma' : raise Unsupported(p)
  raise Unsupported(f"primitive {p}")

_wrapped = {}
def wrap(a, b):
  if issym(a) and a.decl().name() == 'unwrap0' and issym(b) and b.decl().name() == 'unwrap1' and a.arg(0).eq(b.arg(0)): return a.arg(0)
  return uf("wrap", I, I, KeySort)(z(a), z(b))
def unwrap(k, i):
  if k.decl().name() == 'wrap': return k.arg(i)
  return uf(f"unwrap{i}", KeySort, I)(k)

def dyn_slice(ins, pr, oav):
  """one symbolic start index: case split over its (clamped) values"""
  x, starts = ins[0], [s.a[()] for s in ins[1:]]
  sizes = pr['slice_sizes']
  def rec(d, fixed):
    if d == len(starts): return x.a[tuple(slice(s, s + n) for s, n in zip(fixed, sizes))]
    hi = x.shape[d] - sizes[d]
    s = starts[d]
    if not issym(s): return rec(d + 1, fixed + [min(max(s, 0), hi)])
    r = rec(d + 1, fixed + [hi])
    for v in range(hi - 1, -1, -1):
      q = rec(d + 1, fixed + [v])
      c = z(s) <= v
      r = fill(q.shape, lambda ix: ite(c, q[ix], r[ix]))
    return r
  return Arr(rec(0, []), oav.dtype)

def sym_gather(eqn, ins, pr, oav, E):
  """gather along one axis with symbolic indices: case split over the index values in range"""
  x, idx = ins
  dn = pr['dimension_numbers']
  n = x.shape[dn.start_index_map[0]]
  cases = []
  for v in range(n):
    c = Arr(fill(idx.shape, lambda ix: v), idx.dtype)
    cases.append(run_eqn(eqn, [x, c], E))
  cases = [c[0].a if isinstance(c, (list, tuple)) else c.a for c in cases]
  batch = [d for d in range(len(oav.shape)) if d not in dn.offset_dims]
  oob = z3.Real("out_of_bounds") if kind(oav.dtype) == 'f' else None
  def el(ix):
    i = idx.a[tuple(ix[d] for d in batch) + (0,)]
    if not issym(i):
      if not 0 <= i < n: raise Unsupported("index out of range")
      return cases[i][ix]
    r = oob if oob is not None else cases[n - 1][ix]
    for v in range(n - 1, -1, -1): r = ite(eq(i, v), cases[v][ix], r)
    return r
  return Arr(fill(oav.shape, el), oav.dtype)

def scan(pr, ins, eqn, E):
  nc, ncar, L = pr['num_consts'], pr['num_carry'], pr['length']
  consts, carry, xs = ins[:nc], ins[nc:nc + ncar], ins[nc + ncar:]
  ys = [[None] * L for _ in range(len(eqn.outvars) - ncar)]
  for t in (range(L - 1, -1, -1) if pr['reverse'] else range(L)):
    out = closed(pr['jaxpr'], list(consts) + list(carry) + [Arr(x.a[t] if isinstance(x.a[t], np.ndarray) else _sc(x.a[t]), x.dtype) for x in xs], E)
    carry = out[:ncar]
    for k, y in enumerate(out[ncar:]): ys[k][t] = y.a
  res = []
  for k, v in enumerate(eqn.outvars[ncar:]):
    a = obj(v.aval.shape)
    for t in range(L): a[t] = ys[k][t] if ys[k][t].shape else ys[k][t][()]
    res.append(Arr(a, v.aval.dtype))
  return list(carry) + res

def _sc(x):
  a = obj(()); a[()] = x
  return a

def conv(ins, pr, oav):
  lhs, rhs = ins
  dn = pr['dimension_numbers']
  ls, rs, os_ = dn.lhs_spec, dn.rhs_spec, dn.out_spec
  A = lhs.a.transpose(ls)          # N C spatial
  K = rhs.a.transpose(rs)          # O I spatial
  n, c = A.shape[:2]; sp = A.shape[2:]
  o, i = K.shape[:2]; ks = K.shape[2:]
  st, pad, ld, rd = pr['window_strides'], pr['padding'], pr['lhs_dilation'], pr['rhs_dilation']
  ld = ld or (1,) * len(sp); rd = rd or (1,) * len(sp)
  fg, bg = pr['feature_group_count'], pr['batch_group_count']
  outsp = []
  for d in range(len(sp)):
    dil = (sp[d] - 1) * ld[d] + 1 if sp[d] else 0
    win = (ks[d] - 1) * rd[d] + 1
    outsp.append(max(0, (dil + pad[d][0] + pad[d][1] - win) // st[d] + 1))
  on = n // bg
  def el(ix):
    b, f, pos = ix[0], ix[1], ix[2:]
    terms = []
    if fg > 1: g0 = (f // (o // fg)) * i; b0 = b
    elif bg > 1: g0 = 0; b0 = (f // (o // bg)) * on + b
    else: g0 = 0; b0 = b
    for kk in np.ndindex(*ks):
      src, ok = [], True
      for d in range(len(sp)):
        q = pos[d] * st[d] + kk[d] * rd[d] - pad[d][0]
        if q < 0 or q % ld[d] or q // ld[d] >= sp[d]: ok = False; break
        src.append(q // ld[d])
      if not ok: continue
      for ci in range(i): terms.append(mul(A[(b0, g0 + ci) + tuple(src)], K[(f, ci) + kk]))
    return total(terms) if terms else Fraction(0)
  out = fill((on, o) + tuple(outsp), el)
  inv = [0] * out.ndim
  for k, d in enumerate(os_): inv[d] = k
  return Arr(out.transpose(inv), oav.dtype)

# ---------------------------------------------------------------- inputs
class Inputs:
  """named array inputs of a check: symbolic terms, or numbers when replaying"""
  def __init__(self, S):
    self.S, self.spec, self.terms, self.order = S, {}, {}, []
  def _add(self, name, shape, dtype, kd, lo=None, hi=None):
    assert name not in self.spec
    self.spec[name] = (tuple(shape), np.dtype(dtype), kd, lo, hi)
    self.order.append(name)
    return name
  def f32(self, name, shape=(), dtype=np.float32, lo=-2.0, hi=2.0): return self._add(name, shape, dtype, 'f', lo, hi)
  def int(self, name, shape=(), lo=0, hi=5, dtype=np.int32): return self._add(name, shape, dtype, 'i', lo, hi)
  def bool(self, name, shape=()): return self._add(name, shape, np.bool_, 'b')
  def key(self, name): return self._add(name, (2,), np.uint32, 'i', 0, 2**31)
  def make_terms(self):
    out, side = {}, []
    for n in self.order:
      sh, dt, kd, lo, hi = self.spec[n]
      mk = {'f': z3.Real, 'i': z3.Int, 'b': z3.Bool}[kd]
      a = fill(sh, lambda ix: mk(f"{n}{list(ix)}"))
      out[n] = Arr(a, dt)
      if kd == 'i':
        for x in a.flat: side += [x >= lo, x <= hi]
    self.terms = out
    return out, side
  def avals(self): return {n: jax.ShapeDtypeStruct(self.spec[n][0], self.spec[n][1]) for n in self.order}
  def numbers(self, values=None, salt=0):
    """concrete arrays: from a model, else pseudo random"""
    out = {}
    for n in self.order:
      sh, dt, kd, lo, hi = self.spec[n]
      v = (values or {}).get(n)
      rs = np.random.RandomState((hash_str(n) + 7919 * salt) % (2**31))
      if v is not None: a = np.asarray(v, dtype=np.float64 if kd == 'f' else object).reshape(sh).astype(dt)
      elif kd == 'f': a = (rs.randint(-8, 9, size=sh) / 4.0).astype(dt)
      elif kd == 'i': a = rs.randint(lo, min(hi, 2**31 - 2) + 1, size=sh).astype(dt)
      else: a = rs.rand(*sh) < 0.5
      out[n] = jnp.asarray(np.asarray(a, dtype=dt))
    return out

def hash_str(s):
  h = 0
  for c in s: h = (h * 131 + ord(c)) % 1000003
  return h

class Ev:
  def __init__(self): self.prims = {}

def symbolic(f, inputs):
  """terms of the outputs of f"""
  av = inputs.avals()
  cj, shape = jax.make_jaxpr(f, return_shape=True)(av)
  leaves, tree = jax.tree_util.tree_flatten(shape)
  flat_in = [inputs.terms[n] for n in sorted(inputs.order)]
  E = Ev()
  outs = closed(cj, flat_in, E)
  return outs, tree, E, cj

def spec_of(f, inputs):
  s = jax.eval_shape(f, inputs.avals())
  return jax.tree_util.tree_flatten(s)

def _num_differs(a, b, rtol, atol):
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape: return True
  if a.dtype.kind in 'biu': return not np.array_equal(a, b)
  return not np.allclose(np.asarray(a, np.float64), np.asarray(b, np.float64), rtol=rtol, atol=atol, equal_nan=True)

def compare(S, real_out, ref_out, label, detail, rtol=2e-3, atol=1e-3):
  l1, t1 = jax.tree_util.tree_flatten(real_out)
  l2, t2 = jax.tree_util.tree_flatten(ref_out)
  S.check(t1 == t2, label, lambda: f"different structure of the results: {t1} vs {t2}; {detail}")
  for k, (x, y) in enumerate(zip(l1, l2)):
    if _num_differs(x, y, rtol, atol):
      S.check(False, label, f"result {k}: {np.asarray(x).tolist()!s:.300} expected {np.asarray(y).tolist()!s:.300}; {detail}")
    S.check(np.asarray(x).dtype == np.asarray(y).dtype, label, lambda: f"dtype of result {k}: {np.asarray(x).dtype} expected {np.asarray(y).dtype}; {detail}")

def agree(S, inputs, real, ref, label, detail="", dtype=True, timeout_ms=60000, assume=None, nonneg=None):
  """real(inputs dict) and ref(inputs dict) give the same pytree of arrays for every value"""
  d = detail() if callable(detail) else detail
  if not S.symbolic:
    vals = {n[4:]: v for n, v in S.values.items() if n.startswith("arr:")}
    for salt in range(3 if not vals else 4):
      num = inputs.numbers(vals if vals and salt == 0 else None, salt)
      if assume is not None and salt and not assume_num(assume, num): continue
      compare(S, real(num), ref(num), label, d)
    return
  st = S.eng.stats
  if not S.eng.fresh_region(): 
    return
  inputs.make_terms()
  _, side = inputs.make_terms()
  if assume is not None: side = side + [z(c) for c in assume({n: a.a for n, a in inputs.terms.items()}, True)]
  NONNEG[:] = [_norm(q) for q in nonneg({n: a.a for n, a in inputs.terms.items()})] if nonneg is not None else []
  try:
    o1, t1, E1, _ = symbolic(real, inputs)
    o2, t2, E2, _ = symbolic(ref, inputs)
  finally: NONNEG.clear()
  S.check(t1 == t2, label, lambda: f"different structure of the results: {t1} vs {t2}; {d}")
  st['eqns'] = st.get('eqns', 0) + sum(E1.prims.values())
  diffs = []
  for k, (x, y) in enumerate(zip(o1, o2)):
    S.check(x.shape == y.shape, label, lambda: f"shape of result {k}: {x.shape} expected {y.shape}; {d}")
    if dtype: S.check(x.dtype == y.dtype, label, lambda: f"dtype of result {k}: {x.dtype} expected {y.dtype}; {d}")
    for ix in np.ndindex(*x.shape):
      a, b = x.a[ix], y.a[ix]
      if not issym(a) and not issym(b):
        if isinf(a) or isinf(b):
          same = isinf(a) and isinf(b) and (a == b or (a != a and b != b))
        else: same = a == b
        diffs.append(z3.BoolVal(not same))
      elif isinf(a) or isinf(b): diffs.append(z3.BoolVal(True))
      else:
        a, b = z(a), z(b)
        if a.eq(b): continue
        if a.sort() == R and same_poly(a, b): continue
        diffs.append(a != b)
  st['checks'] += 1
  st['checks_solver'] += 1
  S.eng.witness[label] = S.eng.witness.get(label, 0) + 1
  st['elements'] = st.get('elements', 0) + sum(int(np.prod(x.shape)) for x in o1)
  r, m = decide(S, diffs, side, timeout_ms)
  if r == z3.unsat: return
  if r == z3.unknown:
    # does it differ on numbers? then it is a violation, else no verdict
    for salt in range(4):
      num = inputs.numbers(None, salt)
      try: compare(NumS(), real(num), ref(num), label, d)
      except ViolationFound:
        for n in inputs.order: S.vars.append(("arr:" + n, 'const', np.asarray(num[n]).tolist()))
        raise
    raise Inconclusive(f"solver answered unknown on array equality: {d}: {str(diffs[0]) if diffs else ''!s:.600}")
  model = {n: fill(inputs.terms[n].a.shape, lambda ix: val(m, inputs.terms[n].a[ix])).tolist() for n in inputs.order}
  # the model may differ by less than rounding does: then inputs that show the difference on numbers
  values = model
  def shows(v):
    num = inputs.numbers(v)
    if v is not model and assume is not None and not assume_num(assume, num): return False
    try: compare(NumS(), real(num), ref(num), label, d)
    except ViolationFound: return True
    except Exception: return v is model
    return False
  if not shows(model):
    for salt in range(2):
      base = {n: np.asarray(v).tolist() for n, v in inputs.numbers(None, salt).items()}
      for n in [None] + [n for n in inputs.order if inputs.spec[n][2] == 'f']:
        c = base if n is None else dict(base, **{n: (np.asarray(base[n], dtype=np.float64) / 512).tolist()})
        if values is model and shows(c): values = c
  for n in inputs.order: S.vars.append(("arr:" + n, 'const', values[n]))
  raise ViolationFound(label, d)

def never_negative(S, inputs, f, pick, label, detail, candidates):
  """pick(f(inputs)) is >= 0 whatever the roundings; candidates: inputs to demonstrate a failure with"""
  if not S.symbolic:
    vals = {n[4:]: v for n, v in S.values.items() if n.startswith("arr:")}
    if vals:
      out = np.asarray(pick(f(inputs.numbers(vals))))
      S.check(bool(np.all(out >= 0)), label, lambda: f"{out.tolist()} for {vals!s:.400}; {detail}")
    return
  if not S.eng.fresh_region(): return
  _, side = inputs.make_terms()
  for n in inputs.order:
    lo = inputs.spec[n][3]
    if inputs.spec[n][2] == 'f' and lo == 0: side = side + [x >= 0 for x in inputs.terms[n].a.flat]
  ROUND[:] = [[]]
  try:
    outs, tree, E, _ = symbolic(lambda i: pick(f(i)), inputs)
    facts = ROUND[0]
  finally: ROUND.clear()
  st = S.eng.stats
  st['checks'] += 1; st['checks_solver'] += 1
  S.eng.witness[label] = S.eng.witness.get(label, 0) + 1
  s = z3.Solver(); s.set('timeout', 60000)
  s.add(*side, *facts, z3.Or([z3.BoolVal(False)] + [z(x) < 0 for o in outs for x in o.a.flat]))
  t = time.perf_counter(); r = s.check()
  st['queries'] += 1; st['solver_s'] += time.perf_counter() - t
  if r == z3.unsat: return
  if r == z3.unknown: raise Inconclusive(f"sign query: {detail}")
  # the abstract roundings allow it: does it happen with those of the machine
  for c in candidates:
    num = inputs.numbers(c)
    if np.any(np.asarray(pick(f(num))) < 0):
      for n in inputs.order: S.vars.append(("arr:" + n, 'const', np.asarray(num[n]).tolist()))
      raise ViolationFound(label, detail)
  S.eng.witness[label + " (undecided: rounding abstraction too coarse)"] = 1

def agree_wide(S, inputs, real, ref, label, detail, candidates, nonneg=None):
  """real and ref agree when results of less than 32 bits are rounded arbitrarily: no such result is used that
  ref does not use; candidates: inputs to demonstrate a failure with"""
  # what the cancellation in a variance by mean of squares loses in 32 bits is no difference
  def rt(num): return dict(rtol=1e-4 + 2e-6 * max([1.0] + [float(np.max(np.square(np.asarray(a, dtype=np.float64)))) for a in num.values() if np.asarray(a).dtype.itemsize < 4 and np.asarray(a).size]), atol=1e-5)
  if not S.symbolic:
    vals = {n[4:]: v for n, v in S.values.items() if n.startswith("arr:")}
    if vals: compare(S, real(inputs.numbers(vals)), ref(inputs.numbers(vals)), label, detail, **rt(inputs.numbers(vals)))
    return
  if not S.eng.fresh_region(): return
  _, side = inputs.make_terms()
  NARROW[:] = [1]
  NONNEG[:] = [_norm(q) for q in nonneg({n: a.a for n, a in inputs.terms.items()})] if nonneg is not None else []
  try:
    o1, t1, E1, _ = symbolic(real, inputs)
    o2, t2, E2, _ = symbolic(ref, inputs)
  finally: NARROW.clear(); NONNEG.clear()
  S.check(t1 == t2, label, lambda: f"different structure of the results: {t1} vs {t2}; {detail}")
  diffs = []
  for x, y in zip(o1, o2):
    S.check(x.shape == y.shape and x.dtype == y.dtype, label, lambda: f"{x.shape} {x.dtype} expected {y.shape} {y.dtype}; {detail}")
    for ix in np.ndindex(*x.shape):
      a, b = z(x.a[ix]), z(y.a[ix])
      if not a.eq(b) and not same_poly(a, b): diffs.append(a != b)
  st = S.eng.stats
  st['checks'] += 1; st['checks_solver'] += 1
  S.eng.witness[label] = S.eng.witness.get(label, 0) + 1
  r, m = decide(S, diffs, side, 20000)
  if r == z3.unsat: return
  for c in candidates:
    num = inputs.numbers(c)
    try: compare(NumS(), real(num), ref(num), label, detail, **rt(num))
    except ViolationFound:
      for n in inputs.order: S.vars.append(("arr:" + n, 'const', np.asarray(num[n]).tolist()))
      raise
  if r == z3.unknown: raise Inconclusive(f"narrow query: {detail}")
  S.eng.witness[label + " (undecided: rounding abstraction too coarse)"] = 1

def same_poly(a, b):
  """the same polynomial, but for coefficients that differ by what rounding a constant to 32 bits explains"""
  try:
    d = poly(a - b)
    if not d: return True
    top = max((abs(c) for c in poly(b).values()), default=0)
    return all(abs(c) * 1000000 <= top for c in d.values())
  except TooBig: return False

class NumS:
  def check(self, c, label, detail=""):
    if not c: raise ViolationFound(label, detail() if callable(detail) else detail)

def assume_num(assume, num):
  r = assume({n: np.asarray(a) for n, a in num.items()}, False)
  return all(bool(x) for x in r)

def val(m, t):
  v = m.eval(t, model_completion=True)
  if z3.is_bool(v): return z3.is_true(v)
  if z3.is_int_value(v): return v.as_long()
  if z3.is_rational_value(v): return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
  if z3.is_algebraic_value(v): return float(v.approx(10).as_fraction())
  return 0.0

def decide(S, diffs, side, timeout_ms):
  st = S.eng.stats
  t = time.perf_counter()
  try:
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    for c in side: s.add(z3.simplify(c, som=True, hoist_mul=False))
    q = z3.Or(*diffs) if diffs else z3.BoolVal(False)
    q = z3.simplify(q, som=True, hoist_mul=False)
    s.add(q)
    r = s.check()
    st['queries'] += 1
    if r == z3.sat:
      # is the counterexample an artefact of functions left uninterpreted?
      ax = axioms(q)
      if ax:
        s.add(*ax)
        r = s.check(); st['queries'] += 1
    return r, (s.model() if r == z3.sat else None)
  finally:
    st['solver_s'] += time.perf_counter() - t

def axioms(q):
  """facts about the uninterpreted functions for the arguments that occur"""
  seen, todo, ax = set(), [q], []
  apps = {}
  while todo:
    e = todo.pop()
    if e.get_id() in seen: continue
    seen.add(e.get_id())
    if z3.is_app(e):
      if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1: apps.setdefault(e.decl().name(), []).append(e)
      todo.extend(e.children())
  for e in apps.get('inv', []): ax.append(z3.Implies(e.arg(0) != 0, e * e.arg(0) == 1))
  for e in apps.get('rsqrt', []): ax.append(z3.Implies(e.arg(0) > 0, z3.And(e > 0, e * e * e.arg(0) == 1)))
  for e in apps.get('sqrt', []): ax.append(z3.Implies(e.arg(0) >= 0, z3.And(e >= 0, e * e == e.arg(0))))
  for e in apps.get('exp', []): ax.append(e > 0)
  for e in apps.get('logistic', []): ax.append(z3.And(e > 0, e < 1))
  for e in apps.get('tanh', []): ax.append(z3.And(e > -1, e < 1))
  return ax
