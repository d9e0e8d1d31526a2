"""Symbolic execution engine: depth-first exploration of the feasible paths of a
Python harness by re-execution, with z3 deciding every branch and every assertion.

A harness is a function h(S): it asks S for symbolic inputs, runs the real nnx code
on them, and states assertions with S.check.  The same harness runs in three ways:
  * SymS   : symbolic; decisions fork, z3 decides feasibility and assertions
  * ConcS  : concrete replay of one model (used to confirm counterexamples and to
             validate sampled paths against the un-instrumented nnx)
"""
import sys, time
import z3

z3.set_param('smt.random_seed', 1)


class PathEnd(BaseException):
  """path condition became infeasible (assume failed)"""

class Unsupported(BaseException):
  """the symbolic proxies cannot represent an operation the code performed"""

class ViolationFound(BaseException):
  def __init__(self, label, detail=""):
    self.label, self.detail = label, detail

class Inconclusive(BaseException):
  pass

class BudgetExceeded(BaseException):
  pass


CUR = None  # the S currently executing (used by proxies / hooks)


def zbool(x):
  """python bool | SymBool | z3 BoolRef -> python bool or z3 BoolRef"""
  if isinstance(x, SymBool):
    return x.e
  return x


class SymBool:
  """symbolic truth value; forks when the code branches on it"""
  __slots__ = ("S", "e", "lab")
  def __init__(self, S, e, lab="cond"):
    self.S, self.e, self.lab = S, e, lab
  def __bool__(self):
    return self.S.fork(self.e, self.lab)
  def __invert__(self): return SymBool(self.S, z3.Not(self.e))
  def __and__(self, o): return SymBool(self.S, z3.And(self.e, _e(o)))
  __rand__ = __and__
  def __or__(self, o): return SymBool(self.S, z3.Or(self.e, _e(o)))
  __ror__ = __or__
  def __xor__(self, o): return SymBool(self.S, z3.Xor(self.e, _e(o)))
  def __eq__(self, o):
    if isinstance(o, (bool, SymBool)): return SymBool(self.S, self.e == _e(o))
    return NotImplemented
  def __ne__(self, o):
    if isinstance(o, (bool, SymBool)): return SymBool(self.S, self.e != _e(o))
    return NotImplemented
  def __hash__(self): return hash(bool(self))
  @property
  def __class__(self): return bool
  def __repr__(self): return f"SymBool({self.e})"
  def __int__(self): return int(bool(self))
  def __index__(self): return int(bool(self))


def _e(x):
  if type(x) is SymBool: return x.e
  if isinstance(x, bool): return z3.BoolVal(x)
  return x

def is_sym(x): return type(x) is SymBool

def AND(*xs):
  """conjunction of bools/SymBools without forking"""
  es, S = [], None
  for x in xs:
    if type(x) is SymBool:
      es.append(x.e); S = x.S
    elif isinstance(x, z3.BoolRef):
      es.append(x); S = CUR
    elif not x: return False
  if not es: return True
  return SymBool(S, z3.And(*es) if len(es) > 1 else es[0])

def OR(*xs):
  es, S = [], None
  for x in xs:
    if type(x) is SymBool:
      es.append(x.e); S = x.S
    elif isinstance(x, z3.BoolRef):
      es.append(x); S = CUR
    elif x: return True
  if not es: return False
  return SymBool(S, z3.Or(*es) if len(es) > 1 else es[0])

def NOT(x):
  if type(x) is SymBool: return ~x
  if isinstance(x, z3.BoolRef): return SymBool(CUR, z3.Not(x))
  return not x

def IMPLIES(a, b): return OR(NOT(a), b)

def IFF(a, b):
  if type(a) is SymBool or type(b) is SymBool:
    S = a.S if type(a) is SymBool else b.S
    return SymBool(S, _e(a) == _e(b))
  return bool(a) == bool(b)


class Entry:
  __slots__ = ("lab", "opts", "i", "e")
  def __init__(self, lab, opts): self.lab, self.opts, self.i, self.e = lab, opts, 0, None


class Engine:
  """owner of the solver and of the exploration; one per job"""
  def __init__(self, seed=1, deadline=None, query_timeout_ms=60000, max_paths=None):
    self.solver = z3.Solver()
    self.solver.set('timeout', query_timeout_ms)
    self.solver.set('random_seed', seed)
    self.trail = []
    self.exprs = {}
    self.stats = dict(paths=0, decisions=0, forks=0, queries=0, feas_queries=0,
                      solver_s=0.0, checks=0, checks_solver=0, infeasible=0)
    self.deadline, self.max_paths = deadline, max_paths
    self.witness = {}     # label -> number of times reached on a feasible path

  # -- solver access --
  def sat(self, *conds):
    t = time.perf_counter()
    r = self.solver.check(*conds)
    self.stats['solver_s'] += time.perf_counter() - t
    self.stats['queries'] += 1
    if r == z3.unknown:
      raise Inconclusive("solver answered unknown: " + self.solver.reason_unknown())
    return r == z3.sat

  def model(self): return self.solver.model()

  def explore(self, harness, makeS, on_path=None):
    """run harness over all feasible paths. returns None or (label, detail, S, model)"""
    global CUR
    first = True
    while True:
      if self.deadline and time.time() > self.deadline:
        raise BudgetExceeded("time budget")
      if self.max_paths and self.stats['paths'] >= self.max_paths:
        raise BudgetExceeded("path budget")
      self.pos = 0
      self.replay_len = 0 if first else len(self.trail)
      first = False
      S = makeS(self)
      CUR = S
      try:
        harness(S)
        ended = 'ok'
      except PathEnd:
        ended = 'infeasible'; self.stats['infeasible'] += 1
      except ViolationFound as v:
        return v.label, v.detail, S
      except (Unsupported, Inconclusive, BudgetExceeded):
        raise
      except RecursionError as ex:
        return self._exc(S, ex)
      except Exception as ex:
        return self._exc(S, ex)
      finally:
        CUR = None
      if ended == 'ok':
        if self.pos != len(self.trail):
          raise RuntimeError("non-deterministic harness: trail not consumed")
        self.stats['paths'] += 1
        if on_path: on_path(S)
      # backtrack
      while self.trail:
        ent = self.trail[-1]
        self.solver.pop()
        if ent.i + 1 < len(ent.opts):
          ent.i += 1
          self.solver.push()
          c = ent.opts[ent.i][1]
          if c is not True: self.solver.add(c)
          break
        self.trail.pop()
      else:
        return None

  def _exc(self, S, ex):
    import traceback
    tb = traceback.format_exc()
    return "unexpected exception", f"{type(ex).__name__}: {str(ex)[:300]}\n{tb[-1500:]}", S

  def cached(self, key, make):
    e = self.exprs.get(key)
    if e is None: e = self.exprs[key] = make()
    return e

  def decide(self, lab, options, fresh=False):
    """options: list of (value, z3 cond or True), or a function returning it (called only
    when the decision is new). fresh: the options constrain a new variable, so each is
    satisfiable. returns the value of the current option"""
    if self.pos < len(self.trail):
      ent = self.trail[self.pos]
      if ent.lab != lab:
        raise RuntimeError(f"non-deterministic replay: {ent.lab!r} vs {lab!r}")
      self.pos += 1
      return ent.opts[ent.i][0]
    if callable(options): options = options()
    feas = []
    n = len(options)
    for k, (v, c) in enumerate(options):
      if c is True or fresh: feas.append((v, c)); continue
      if k == n - 1 and not feas:
        feas.append((v, c)); break   # path condition is satisfiable, so the last one is
      self.stats['feas_queries'] += 1
      if self.sat(c): feas.append((v, c))
    self.stats['decisions'] += 1
    if len(feas) > 1: self.stats['forks'] += 1
    ent = Entry(lab, feas)
    self.trail.append(ent)
    self.pos += 1
    self.solver.push()
    c = feas[0][1]
    if c is not True: self.solver.add(c)
    return feas[0][0]

  def assume(self, cond, lab):
    if cond is True: return
    if cond is False: raise PathEnd()
    if self.pos < len(self.trail):
      ent = self.trail[self.pos]
      if ent.lab != lab: raise RuntimeError(f"non-deterministic replay: {ent.lab!r} vs {lab!r}")
      self.pos += 1
      if ent.opts[0][0] == 'dead': raise PathEnd()
      return
    ok = self.sat(cond)
    self.trail.append(Entry(lab, [('ok' if ok else 'dead', cond if ok else True)]))
    self.pos += 1
    self.solver.push()
    if not ok: raise PathEnd()
    self.solver.add(cond)

  def fresh_region(self):
    """False while replaying a prefix whose checks were already discharged"""
    return self.pos >= self.replay_len


class SymS:
  """symbolic session for one path"""
  symbolic = True
  def __init__(self, eng, nnx, lazy=True, seed=1):
    self.eng, self.nnx, self.lazy = eng, nnx, lazy
    self.vars = []         # (label, kindtag, z3 exprs...)
    self.names = {}
    self.apps = []         # uninterpreted predicate applications
    self.leaves = {}
    self.notes = []

  def _name(self, label):
    n = self.names.get(label, 0)
    self.names[label] = n + 1
    return label if n == 0 else f"{label}#{n}"

  # -- inputs --
  def choose(self, n, label, values=None):
    """symbolic integer in [0,n) decided (forked) now"""
    name = self._name(label)
    if values is not None: n = len(values)
    if n == 1:
      return values[0] if values is not None else 0
    def opts():
      v = z3.Int(name)
      return [(i, v == i) for i in range(n)]
    k = self.eng.decide(name, opts, fresh=True)
    self.vars.append((name, 'choice', k))
    return values[k] if values is not None else k

  def flip(self, label):
    return bool(self.choose(2, label))

  def bool(self, label):
    name = self._name(label)
    b = self.eng.cached(name, lambda: z3.Bool(name))
    self.vars.append((name, 'bool', b))
    return SymBool(self, b, name)

  def int(self, label, lo, hi):
    from sx.proxies import SymInt
    name = self._name(label)
    v = z3.Int(name)
    self.eng.assume(z3.And(v >= lo, v <= hi), name + ":range")
    self.vars.append((name, 'int', v))
    return SymInt(self, v, lo, hi)

  def leaf(self, label, kinds, unique=True):
    from sx import proxies
    name = self._name(label)
    if not self.lazy or len(kinds) == 0:
      k = z3.Int(name + ".k")
      i = self.eng.decide(name, lambda: [(i, k == i) for i in range(len(kinds))], fresh=True)
      self.vars.append((name, 'leafc', i))
      obj = proxies.make_rep(self.nnx, kinds[i], len(self.leaves) + 1)
      self.leaves[name] = obj
      return obj
    x = proxies.SymVal(self, name, kinds)
    self.vars.append((name, 'leaf', x))
    self.leaves[name] = x
    return x

  def pred(self, label):
    """an arbitrary user predicate over (path, value): uninterpreted"""
    from sx.proxies import SymPred
    return SymPred(self, self._name(label))

  # -- decisions --
  def fork(self, e, lab="br"):
    if isinstance(e, bool): return e
    eng, orig = self.eng, e
    if eng.pos < len(eng.trail) and eng.trail[eng.pos].lab == "?" + lab and eng.trail[eng.pos].e is not None \
        and eng.trail[eng.pos].e.eq(e):
      return eng.decide("?" + lab, None)
    e = eng.cached(("simp", e.get_id()), lambda: (z3.simplify(e), e))[0]
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    new = eng.pos == len(eng.trail)
    r = self.eng.decide("?" + lab, lambda: [(True, e), (False, z3.Not(e))])
    if new: eng.trail[-1].e = orig
    return r

  def assume(self, c, lab="assume"):
    c = zbool(c)
    if isinstance(c, z3.BoolRef):
      c = z3.simplify(c)
      if z3.is_true(c): c = True
      elif z3.is_false(c): c = False
    self.eng.assume(c if isinstance(c, z3.BoolRef) else bool(c), "!" + lab)

  def reach(self, label):
    """reachability witness (non-vacuity): this point lies on a feasible path"""
    if self.eng.fresh_region() or label not in self.eng.witness:
      self.eng.witness[label] = self.eng.witness.get(label, 0) + 1

  def check(self, cond, label, detail=""):
    st = self.eng.stats
    c = zbool(cond)
    if not self.eng.fresh_region(): return
    st['checks'] += 1
    self.eng.witness[label] = self.eng.witness.get(label, 0) + 1
    if isinstance(c, z3.BoolRef):
      c = z3.simplify(c)
      if z3.is_true(c): return
      st['checks_solver'] += 1
      if not self.eng.sat(z3.Not(c)): return
      self.eng.solver.add(z3.Not(c))   # keep for model extraction
      self.eng.sat()
      raise ViolationFound(label, detail() if callable(detail) else detail)
    elif not c:
      raise ViolationFound(label, detail() if callable(detail) else detail)

  def fail(self, label, detail=""):
    self.check(False, label, detail)

  def note(self, **kw): self.notes.append(kw)

  # -- model extraction --
  def concretise(self):
    """values of all inputs in a model of the current path condition"""
    from sx import proxies
    assert self.eng.sat()
    m = self.eng.model()
    out, classes = {}, {}
    for name, tag, x in self.vars:
      if tag in ('choice', 'const'): out[name] = x
      elif tag == 'leafc': out[name] = ['kc', x]
      elif tag == 'bool': out[name] = z3.is_true(m.eval(x, model_completion=True))
      elif tag == 'int': out[name] = m.eval(x, model_completion=True).as_long()
      elif tag == 'leaf':
        k = m.eval(x.k, model_completion=True).as_long()
        v = m.eval(x.v, model_completion=True).as_long()
        if not (0 <= k < len(proxies.KINDS)) or proxies.KINDS[k] not in x.kinds:
          k = proxies.KIDX[x.kinds[0]]
        cls = classes.setdefault(v, len(classes) + 1)
        out[name] = ['leaf', proxies.KINDS[k], cls]
    for key, e in self.apps:
      out["app:" + key] = z3.is_true(m.eval(e, model_completion=True))
    return out


class ConcS:
  """concrete session: replays the inputs of one model on whatever nnx it is given"""
  symbolic = False
  def __init__(self, nnx, values):
    self.nnx, self.values = nnx, values
    self.names, self.leaves, self.notes = {}, {}, []
    self.checked = []
  _name = SymS._name
  def choose(self, n, label, values=None):
    name = self._name(label)
    if values is not None: n = len(values)
    if n == 1: k = 0
    else: k = self.values.get(name, 0)
    if not k < n: k = 0
    return values[k] if values is not None else k
  flip = SymS.flip
  def bool(self, label): return bool(self.values.get(self._name(label), False))
  def int(self, label, lo, hi): return self.values.get(self._name(label), lo)
  def leaf(self, label, kinds, unique=True):
    from sx import proxies
    name = self._name(label)
    v = self.values.get(name)
    if v is None:
      obj = proxies.make_rep(self.nnx, kinds[0], len(self.leaves) + 1)
    elif v[0] == 'kc':
      obj = proxies.make_rep(self.nnx, kinds[v[1]], len(self.leaves) + 1)
    else:
      obj = proxies.make_rep(self.nnx, v[1], v[2])
    self.leaves[name] = obj
    proxies.LEAFNAMES.append((obj, name))
    return obj
  def pred(self, label):
    from sx.proxies import ConcPred
    return ConcPred(self, self._name(label))
  def fork(self, e, lab="br"): return bool(e)
  def assume(self, c, lab="assume"):
    if not c: raise PathEnd()
  def reach(self, label): pass
  def check(self, cond, label, detail=""):
    self.checked.append(label)
    if not cond:
      raise ViolationFound(label, detail() if callable(detail) else detail)
  fail = SymS.fail
  def note(self, **kw): self.notes.append(kw)


def run_concrete(harness, nnx, values):
  """-> (status, label, detail): status in ok / violation / infeasible"""
  global CUR
  import traceback
  from sx import proxies
  S = ConcS(nnx, values)
  CUR = S
  proxies.LEAFNAMES.clear()
  try:
    harness(S)
    return 'ok', '', '', S
  except PathEnd:
    return 'infeasible', '', '', S
  except ViolationFound as v:
    return 'violation', v.label, v.detail, S
  except Exception as ex:
    return 'violation', 'unexpected exception', f"{type(ex).__name__}: {str(ex)[:300]}\n{traceback.format_exc()[-1500:]}", S
  finally:
    CUR = None
    proxies.LEAFNAMES.clear()
