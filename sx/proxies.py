"""Symbolic stand-ins for python values that flow through the real nnx code.

SymVal is an opaque attribute/leaf value: its kind (None, bool, int, str, tuple, list,
dict, numpy / jax array, function, class, arbitrary object, ...) is a z3 integer and
its identity/contents a second z3 integer.  Any operation whose outcome depends on the
kind forks the path on exactly the distinction the code makes (isinstance -> set of
kinds, truthiness, hashability, `is None`, ...), so one path covers all kinds the code
treats alike.
"""
import sys
import z3
import numpy as np
from sx import engine
from sx.engine import SymBool, Unsupported, AND, OR, NOT

# name: (truthiness, hashable, singleton)
KINDTAB = {
  'none':  (False, True, True),
  'true':  (True, True, True),
  'false': (False, True, True),
  'int0':  (False, True, True),
  'int':   (True, True, False),
  'float': (True, True, False),
  'str0':  (False, True, True),
  'str':   (True, True, False),
  'tup0':  (False, True, True),
  'tup':   (True, True, False),
  'list0': (False, False, True),
  'list':  (True, False, False),
  'dict0': (False, False, True),
  'dict':  (True, False, False),
  'obj':   (True, True, False),
  'func':  (True, True, False),
  'cls':   (True, True, False),
  'nparr': (None, False, False),
  'nparr0d': (True, False, False),
  'nparr0z': (False, False, True),
  'jarr':  (None, False, False),
  'jarr0d': (True, False, False),
  'jarr0z': (False, False, True),
  'state': (True, False, False),
}
KINDS = list(KINDTAB)
KIDX = {k: i for i, k in enumerate(KINDS)}
ARRAYS = ['nparr', 'nparr0d', 'nparr0z', 'jarr', 'jarr0d', 'jarr0z']
STATICS = ['none', 'true', 'false', 'int0', 'int', 'float', 'str0', 'str', 'tup0', 'tup', 'list0',
           'list', 'dict0', 'dict', 'obj', 'func', 'cls']
HASHABLE = [k for k in STATICS if KINDTAB[k][1]]
ALLVALS = STATICS + ARRAYS
TREELEAVES = ['int0', 'int', 'float', 'str', 'obj', 'true', 'false'] + ARRAYS

LEAFNAMES = []   # (object, label) of concrete replays


class Obj:
  """arbitrary user object (hashable, compared by identity of its number)"""
  def __init__(self, i): self.i = i
  def __eq__(self, o): return type(o) is Obj and o.i == self.i
  def __hash__(self): return hash(('Obj', self.i))
  def __repr__(self): return f"Obj({self.i})"

_funcs, _classes, _objs = {}, {}, {}
def _func(i):
  if i not in _funcs:
    def f(*a, **k): return ('f', i)
    f.__name__ = f"func{i}"
    _funcs[i] = f
  return _funcs[i]
def _class(i):
  if i not in _classes: _classes[i] = type(f"Cls{i}", (), {})
  return _classes[i]


def make_rep(nnx, kind, i):
  import jax.numpy as jnp
  if kind == 'none': return None
  if kind == 'true': return True
  if kind == 'false': return False
  if kind == 'int0': return 0
  if kind == 'int': return 1000 + i
  if kind == 'float': return 0.5 + i
  if kind == 'str0': return ""
  if kind == 'str': return f"s{i}"
  if kind == 'tup0': return ()
  if kind == 'tup': return (i, f"t{i}")
  if kind == 'list0': return []
  if kind == 'list': return [i, 2]
  if kind == 'dict0': return {}
  if kind == 'dict': return {"k": i}
  if kind == 'obj': return _objs.setdefault(i, Obj(i))
  if kind == 'func': return _func(i)
  if kind == 'cls': return _class(i)
  if kind == 'nparr': return np.array([float(i), 0.0], dtype=np.float32)
  if kind == 'nparr0d': return np.array(float(i), dtype=np.float32)
  if kind == 'nparr0z': return np.array(0.0, dtype=np.float32)
  if kind == 'jarr': return jnp.asarray(np.array([float(i), 0.0], dtype=np.float32))
  if kind == 'jarr0d': return jnp.asarray(np.float32(i))
  if kind == 'jarr0z': return jnp.asarray(np.float32(0))
  if kind == 'state': return nnx.State({"q": np.array([float(i)], dtype=np.float32)})
  raise KeyError(kind)

_reps, ISINST = {}, {}
def rep(nnx, kind):
  key = (id(nnx), kind)
  if key not in _reps: _reps[key] = make_rep(nnx, kind, 7)
  return _reps[key]


class SymVal:
  def __init__(self, S, label, kinds, k=None, v=None):
    d = self.__dict__
    d['S'], d['label'], d['kinds'] = S, label, list(kinds)
    fresh = k is None
    if fresh: k, v = S.eng.cached(("kv", label), lambda: (z3.Int(label + ".k"), z3.Int(label + ".v")))
    d['k'], d['v'] = k, v
    if fresh:
      S.eng.decide(label + ":dom", lambda: [(True, z3.Or([k == KIDX[x] for x in kinds]))], fresh=True)

  # -- kind queries --
  def kind_in(self, ks):
    """z3 condition / python bool: kind is one of ks"""
    ks = [x for x in self.kinds if x in ks]
    if len(ks) == len(self.kinds): return True
    if not ks: return False
    return self.S.eng.cached((self.label, tuple(ks)), lambda: z3.Or([self.k == KIDX[x] for x in ks]))
  def kind_cond(self, ks):
    c = self.kind_in(ks)
    return c if isinstance(c, bool) else SymBool(self.S, c)
  def fork_kind(self, ks, lab):
    return self.S.fork(self.kind_in(ks), f"{self.label}:{lab}")
  def isinst(self, cls):
    nnx = self.S.nnx
    key = (id(nnx), cls, tuple(self.kinds))
    try: ks = ISINST.get(key)
    except TypeError: key, ks = None, None
    if ks is None:
      ks = [x for x in self.kinds if isinstance(rep(nnx, x), cls)]
      if key is not None: ISINST[key] = ks
    return self.fork_kind(ks, "isinstance")
  def exact_kind(self):
    k = self.S.eng.decide(f"{self.label}:kind", lambda: [(x, self.k == KIDX[x]) for x in self.kinds])
    return k
  @property
  def __class__(self):
    return type(rep(self.S.nnx, self.exact_kind()))
  def __bool__(self):
    if not self.fork_kind([x for x in self.kinds if KINDTAB[x][0] is not None], "has-truth"):
      raise ValueError("The truth value of an array with more than one element is ambiguous.")
    return self.fork_kind([x for x in self.kinds if KINDTAB[x][0] is True], "truth")
  def __hash__(self):
    if not self.fork_kind([x for x in self.kinds if KINDTAB[x][1]], "hashable"):
      raise TypeError("unhashable type")
    return 1234567
  def __eq__(self, o):
    # == on arrays is elementwise: representable only when no array kind is possible
    if not self.fork_kind([x for x in self.kinds if x not in ARRAYS and x != 'state'], "eq-plain"):
      raise Unsupported("== on array")
    return val_eq(self, o, py=True)
  def __ne__(self, o):
    return NOT(self.__eq__(o))
  def __copy__(self): return SymVal(self.S, self.label, self.kinds, self.k, self.v)
  def __deepcopy__(self, memo): return SymVal(self.S, self.label, self.kinds, self.k, self.v)
  def __repr__(self): return f"<{self.label}>"
  __str__ = __repr__
  def __getattr__(self, name):
    nnx = self.S.nnx
    ks = [x for x in self.kinds if hasattr(rep(nnx, x), name)]
    if not ks: raise AttributeError(name)
    if len(ks) < len(self.kinds) and not self.fork_kind(ks, "hasattr " + name):
      raise AttributeError(name)
    if name in ("shape", "dtype", "ndim", "size"): return SymAttr(self, name)
    raise Unsupported(f"attribute {name} of symbolic value")
  def __setattr__(self, name, value): raise Unsupported("setattr on symbolic value")
  def _unsup(op):
    def f(self, *a, **kw): raise Unsupported(f"{op} on symbolic value")
    f.__name__ = op
    return f
  for _n in ("__len__", "__iter__", "__getitem__", "__call__", "__contains__", "__add__", "__radd__",
             "__sub__", "__rsub__", "__mul__", "__rmul__", "__lt__", "__le__", "__gt__", "__ge__",
             "__int__", "__float__", "__index__", "__neg__", "__enter__", "__array__", "__jax_array__"):
    locals()[_n] = _unsup(_n)
  del _n, _unsup


class SymAttr:
  """an array attribute of a symbolic value that is fetched but not looked at (hasattr)"""
  def __init__(self, x, name): self.x, self.name = x, name
  def _u(self, *a, **k): raise Unsupported(f"attribute {self.name} of symbolic value")
  __eq__ = __ne__ = __hash__ = __bool__ = __len__ = __iter__ = __getitem__ = __index__ = __int__ = __add__ = __lt__ = __gt__ = __le__ = __ge__ = __contains__ = _u
  def __getattr__(self, n): raise Unsupported(f"attribute {self.name}.{n} of symbolic value")


def is_callable(x):
  if type(x) is SymVal:
    return x.fork_kind([k for k in x.kinds if callable(rep(x.S.nnx, k))], "callable")
  return callable(x)


def val_eq(a, b, py=False):
  """equality of opaque values. py: python == (False == 0); else strict kind+value"""
  if a is b: return True
  if type(a) is SymVal and type(b) is SymVal:
    S = a.S
    ks = [x for x in a.kinds if x in b.kinds]
    sing = [x for x in ks if KINDTAB[x][2]]
    non = [x for x in ks if not KINDTAB[x][2]]
    same_kind = a.k == b.k
    e = z3.And(same_kind, z3.Or([a.v == b.v] + [a.k == KIDX[x] for x in sing]))
    if a.k is b.k and a.v is b.v: return True
    if py:
      fz = [KIDX['false'], KIDX['int0']]
      e = z3.Or(e, z3.And(z3.Or([a.k == i for i in fz]), z3.Or([b.k == i for i in fz])))
    return SymBool(S, e)
  if type(b) is SymVal: a, b = b, a
  # symbolic vs concrete: only singletons can be equal to a literal
  S = a.S
  for k in a.kinds:
    if KINDTAB[k][2] and k not in ARRAYS:
      r = rep(S.nnx, k)
      try:
        same = (r == b) is True if py else (type(r) is type(b) and (r == b) is True)
      except Exception: same = False
      if same:
        ks = [x for x in a.kinds if KINDTAB[x][2] and x not in ARRAYS and _safe_eq(rep(S.nnx, x), b, py)]
        c = a.kind_in(ks)
        return c if isinstance(c, bool) else SymBool(S, c)
  return False

def _safe_eq(r, b, py):
  try: return ((r == b) is True) if py else (type(r) is type(b) and (r == b) is True)
  except Exception: return False


class SymInt:
  """symbolic integer within [lo,hi]"""
  def __init__(self, S, e, lo=None, hi=None):
    self.S, self.e, self.lo, self.hi = S, e, lo, hi
  @property
  def __class__(self): return int
  def _b(self, o):
    if type(o) is SymInt: return o.e
    if isinstance(o, bool): return int(o)
    if isinstance(o, (int, np.integer)): return int(o)
    return None
  def _mk(self, e, lo=None, hi=None): return SymInt(self.S, e, lo, hi)
  def _rng(self, o):
    if type(o) is SymInt: return o.lo, o.hi
    return int(o), int(o)
  def __add__(self, o):
    b = self._b(o)
    if b is None: return NotImplemented
    l, h = self._rng(o)
    return self._mk(self.e + b, self.lo + l, self.hi + h)
  __radd__ = __add__
  def __sub__(self, o):
    b = self._b(o)
    if b is None: return NotImplemented
    l, h = self._rng(o)
    return self._mk(self.e - b, self.lo - h, self.hi - l)
  def __rsub__(self, o):
    b = self._b(o)
    if b is None: return NotImplemented
    l, h = self._rng(o)
    return self._mk(b - self.e, l - self.hi, h - self.lo)
  def __neg__(self): return self._mk(-self.e, -self.hi, -self.lo)
  def __mul__(self, o):
    b = self._b(o)
    if b is None: return NotImplemented
    l, h = self._rng(o)
    c = [self.lo*l, self.lo*h, self.hi*l, self.hi*h]
    return self._mk(self.e * b, min(c), max(c))
  __rmul__ = __mul__
  def __mod__(self, o):
    b = self._b(o)
    if b is None or not isinstance(b, int) or b <= 0: raise Unsupported("%")
    return self._mk(self.e % b, 0, b - 1)
  def __floordiv__(self, o):
    b = self._b(o)
    if b is None or not isinstance(b, int) or b <= 0: raise Unsupported("//")
    return self._mk(self.e / b, self.lo // b, self.hi // b)
  def __and__(self, o):
    b = self._b(o)
    if not isinstance(b, int) or b < 0 or b & (b + 1): raise Unsupported("&")
    return self._mk(self.e % (b + 1), 0, b)
  __rand__ = __and__
  def __rshift__(self, o):
    b = self._b(o)
    if not isinstance(b, int) or b < 0: raise Unsupported(">>")
    return self // (1 << b)
  def __lshift__(self, o):
    b = self._b(o)
    if not isinstance(b, int) or b < 0: raise Unsupported("<<")
    return self * (1 << b)
  def _cmp(self, o, f):
    b = self._b(o)
    if b is None: return NotImplemented
    return SymBool(self.S, f(self.e, b))
  def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
  def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
  def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
  def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
  def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
  def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
  def __bool__(self): return self.S.fork(self.e != 0, "int-truth")
  def conc(self):
    if isinstance(self.e, int): return self.e
    s = z3.simplify(self.e)
    if z3.is_int_value(s): return s.as_long()
    return self.S.eng.decide(f"int:{s}", [(v, self.e == v) for v in range(self.lo, self.hi + 1)])
  def __index__(self): return self.conc()
  __int__ = __index__
  def __hash__(self): return 77
  def __str__(self):
    return TOKENS.put(self)
  __repr__ = __str__
  def __format__(self, spec):
    if spec in ("", "d"): return TOKENS.put(self)
    return format(self.conc(), spec)
  def to_bytes(self, length=1, byteorder="big", *, signed=False):
    return self.conc().to_bytes(length, byteorder, signed=signed)
  def __copy__(self): return self
  def __deepcopy__(self, memo): return self


class _Tokens:
  """text produced by str(SymInt): \\x01<n>\\x02 refers to the n-th symbolic integer"""
  def __init__(self): self.items = []
  def put(self, x):
    self.items.append(x)
    return f"\x01{len(self.items) - 1}\x02"
  def parse(self, text):
    out, i = [], 0
    while i < len(text):
      if text[i] == "\x01":
        j = text.index("\x02", i)
        out.append(self.items[int(text[i+1:j])]); i = j + 1
      else:
        if out and isinstance(out[-1], str): out[-1] += text[i]
        else: out.append(text[i])
        i += 1
    return out
TOKENS = _Tokens()


def describe(x):
  """stable description of a stored value for uninterpreted predicates"""
  if type(x) is SymVal: return [x.label]
  d = getattr(x, '__dict__', None)
  if d is not None and 'value' in d and hasattr(type(x), 'is_equivalent'):
    return [f"{type(x).__name__}({y})" for y in describe(d['value'])]
  names = [n for o, n in LEAFNAMES if o is x]
  if names: return names
  if engine.CUR is not None and engine.CUR.symbolic:
    for n, o in engine.CUR.leaves.items():
      if o is x: return [n]
  try: return [f"{type(x).__name__}:{x!r}"[:60]]
  except Exception: return [type(x).__name__]


class SymPred:
  """arbitrary user predicate: an uninterpreted boolean of (path, stored value)"""
  def __init__(self, S, name): self.S, self.name = S, name; self.calls = []
  def value(self, *args):
    S = self.S
    key = f"{self.name}(" + ",".join(a if isinstance(a, str) else describe(a)[0] for a in args) + ")"
    b = S.eng.cached(key, lambda: z3.Bool(key))
    if not any(k == key for k, _ in S.apps): S.apps.append((key, b))
    return SymBool(S, b, key)
  def __call__(self, *args):
    self.calls.append(args)
    return self.value(*args)

class ConcPred:
  def __init__(self, S, name): self.S, self.name = S, name; self.calls = []
  def value(self, *args):
    import itertools
    opts = [[a] if isinstance(a, str) else describe(a) for a in args]
    vals = self.S.values
    for combo in itertools.product(*opts):
      key = f"app:{self.name}(" + ",".join(combo) + ")"
      if key in vals: return vals[key]
    return False
  def __call__(self, *args):
    self.calls.append(args)
    return self.value(*args)


# ---------------------------------------------------------------- deep equality

def same(a, b, _depth=0):
  """strict structural equality of python data that may contain symbolic values:
  returns a bool or a SymBool (never forks)"""
  if a is b: return True
  if _depth > 12: return False
  ta, tb = type(a), type(b)
  if ta is SymVal or tb is SymVal: return val_eq(a, b)
  if ta is SymInt or tb is SymInt: return (a == b) if (ta is SymInt) else (b == a)
  if ta is SymBool or tb is SymBool: return engine.IFF(a, b)
  if ta is SymName or tb is SymName: return a == b if ta is tb else False
  if ta is not tb:
    import jax
    if isinstance(a, jax.Array) and isinstance(b, jax.Array): return _arr_eq(a, b)
    return False
  if isinstance(a, np.ndarray): return _arr_eq(a, b)
  import jax
  if isinstance(a, jax.Array): return _arr_eq(a, b)
  if isinstance(a, (tuple, list)):
    if len(a) != len(b): return False
    return AND(*[same(x, y, _depth + 1) for x, y in zip(a, b)])
  if isinstance(a, dict) or ta.__name__ == 'mappingproxy':
    if list(a.keys()) != list(b.keys()):
      if set(a.keys()) != set(b.keys()): return False
    return AND(*[same(a[k], b[k], _depth + 1) for k in a])
  if hasattr(ta, 'is_equivalent') and hasattr(a, '__dict__'):     # nnx containers
    return same(vars(a), vars(b), _depth + 1)
  if ta.__name__ == 'State' and hasattr(a, 'items'):
    if list(a) != list(b): return False
    return AND(*[same(a[k], b[k], _depth + 1) for k in a])
  if isinstance(a, (int, str, bytes, type(None), bool, type)): return a == b
  if isinstance(a, float): return a == b or (a != a and b != b)
  try: r = a == b
  except Exception: return False
  if r is NotImplemented: return False
  return r if isinstance(r, (bool, SymBool)) else bool(r)

def _arr_eq(a, b):
  a, b = np.asarray(a), np.asarray(b)
  return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))


class SymName:
  """an arbitrary string known only up to equality with the other symbolic names"""
  __slots__ = ("S", "e", "lab", "i")
  def __init__(self, S, e, lab): self.S, self.e, self.lab = S, e, lab
  @property
  def __class__(self): return str
  def __eq__(self, o):
    if type(o) is SymName:
      return True if o.e.eq(self.e) else SymBool(self.S, self.e == o.e, "name")
    return False
  def __ne__(self, o): return NOT(self.__eq__(o))
  def __hash__(self): return 7654321
  def __bool__(self): return True
  def __repr__(self): return f"<{self.lab}>"
  def __deepcopy__(self, memo): return self
  def __copy__(self): return self

def choose_name(S, label, n):
  """a name out of an alphabet of n (n >= number of names used: every equality pattern)"""
  if S.symbolic and S.lazy:
    name = S._name(label)
    v = z3.Int(name)
    S.eng.assume(z3.And(v >= 0, v < n), name + ":range")
    S.vars.append((name, 'int', v))
    return SymName(S, v, name)
  if S.symbolic: return f"n{S.choose(n, label)}"
  return f"n{S.int(label, 0, n - 1)}"
