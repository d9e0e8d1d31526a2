"""C07 trace contexts"""
import contextlib as _ctl
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal
from sx import graphs as g

BOUNDS = dict(
  quick="(A) arbitrary (symbolic) JAX and nnx traces at creation and at use, every mutating operation, histories of <= 3 enter/leave steps of nnx traces; (B) real nestings of <= 2 transforms out of jit, checkpoint, lax.scan, eval_shape, nnx.jit, nnx.grad, jax.grad, jax.vmap with the object created before, between or inside and used at every level, after normal and exceptional exit; (C) a thread that makes and uses its own objects while another thread is inside a transform, either way round",
  thorough="nestings of <= 3 transforms")
OUTSIDE = "objects used by another thread than the one that made them; transforms outside the list"
ASSUMPTIONS = ["plain jax.grad / jax.vmap / jax.jvp open no trace of their own (as the repository's tests document)",
               "nnx.grad is given at least one differentiated leaf"]
WITNESSES = ["foreign use rejected", "foreign use has no effect", "own use accepted", "usable after inner transforms", "usable after inner error", "stub effective", "own use accepted in a thread", "foreign use rejected in a thread"]

OPS = ['set existing', 'set new', 'set plain', 'update_state', 'update_state new', 'sow new', 'sow existing', 'dict item', 'leaf view',
       'make_rng', 'partition ctx', 'sub set', 'update sub', 'pop', 'pop sub', 'del']

def make(nnx, v=1.0):
  m = nnx.Dict(a=nnx.Param(v), p=3)
  m.h = nnx.Intermediate((v,))
  m.s = nnx.Dict(b=nnx.BatchStat(v))
  return m

def make_ctx(nnx, key=None): return nnx.context(0, dropout=1) if key is None else nnx.context(key)

def counters(ctx):
  """what a context would hand out next, read without drawing: its streams' public fields"""
  st = [x for x in (getattr(ctx, n, None) for n in ('_rngs',)) if x is not None]
  return [(n, dict(vars(s))) for d in st for n, s in d.items()]

def use(nnx, op, m, ctx, v):
  if op == 'set existing': m.a = v
  elif op == 'set new': m.fresh = nnx.Param(v)
  elif op == 'set plain': m.p = v
  elif op == 'update_state': m.update_state(nnx.State({'a': v}))
  elif op == 'update_state new': m.update_state(nnx.State({'zz': nnx.Param(v)}))
  elif op == 'sow new': m.sow(nnx.Intermediate, 'g', v)
  elif op == 'sow existing': m.sow(nnx.Intermediate, 'h', v)
  elif op == 'dict item': m['a'] = v
  elif op == 'leaf view': m.mutable_state_dict()['s/b'].value = v
  elif op == 'sub set': m.s.b = v
  elif op == 'update sub': m.update_state((nnx.State({}), nnx.State({'s/b': v})))
  elif op == 'pop': m.pop_state(nnx.Intermediate, nnx.Param)
  elif op == 'pop sub': m.pop_state(nnx.BatchStat)
  elif op == 'del': del m.p
  elif op == 'make_rng': return ctx.make_rng('params')
  elif op == 'partition ctx': return ctx.partition()

def attempt(S, nnx, op, m, ctx, v, valid, txt):
  """valid: condition under which the use must be accepted"""
  snap, cnt = g.freeze(nnx, m), counters(ctx)
  try:
    use(nnx, op, m, ctx, v); err = False
  except nnx.TraceContextError: err = True
  if err:
    S.check(NOT(valid), "own use accepted", lambda: f"{op} rejected {txt}")
    S.reach("foreign use rejected")
    c, why = g.frozen_same(S, nnx, m, snap)
    S.check(c, "foreign use has no effect", lambda: f"{op}: {why} {txt}")
    S.check(AND(*[same(a, b) for a, b in zip(counters(ctx), cnt)]), "foreign use has no effect", lambda: f"{op}: key counters {txt}")
  else:
    S.check(valid, "foreign use rejected", lambda: f"{op} accepted {txt}")
    S.reach("own use accepted")
  return not err

# ---------------------------------------------------------------- (A) symbolic traces

class Main:
  def __init__(self, main): self.main, self.level = main, 0

@_ctl.contextmanager
def stub_traces(cur, calls):
  """the JAX trace nnx sees is whatever cur[0] is"""
  import jax.core
  orig = jax.core.find_top_trace
  def fake(leaves, *a, **k):
    calls[0] += 1
    return Main(cur[0])
  jax.core.find_top_trace = fake
  try: yield
  finally: jax.core.find_top_trace = orig

def h_symbolic(S, hist=1):
  nnx = S.nnx
  import importlib, jax
  tracers = importlib.import_module(nnx.__name__ + ".tracers")
  key = jax.random.PRNGKey(0)
  op = S.choose(0, "op", values=OPS)
  j0, j1 = S.leaf("jax0", ['obj']), S.leaf("jax1", ['obj'])
  n0, n1 = S.leaf("nnx0", ['obj']), S.leaf("nnx1", ['obj'])
  cur, calls = [j0], [0]
  enter = getattr(tracers, 'nnx_trace', None)
  with stub_traces(cur, calls):
    with (enter(n0) if enter else _ctl.nullcontext()):
      m, ctx = make(nnx), make_ctx(nnx, key)
      if not calls[0]: return     # nnx reads the trace some other way: (B) decides
      S.reach("stub effective")
      # other traces entered and left in between, normally or by an exception
      for i in range(hist):
        t = S.leaf(f"mid{i}", ['obj'])
        how = S.choose(0, f"how{i}", values=['none', 'return', 'raise', 'make'])
        if how == 'none' or not enter: continue
        try:
          with enter(t):
            cur[0] = S.leaf(f"midj{i}", ['obj'])
            if how == 'make': make(nnx)
            if how == 'raise': raise KeyError("inner")
        except KeyError: pass
        cur[0] = j0
      if S.choose(0, "after", values=['same', 'other']) == 'same':
        attempt(S, nnx, op, m, ctx, S.leaf("v", ['none', 'jarr', 'int']), True, "under the trace of its creation")
        S.reach("usable after inner transforms")
        return
    cur[0] = j1
    with (enter(n1) if enter else _ctl.nullcontext()):
      valid = AND(same(j0, j1), same(n0, n1) if enter else True)
      attempt(S, nnx, op, m, ctx, S.leaf("v", ['none', 'jarr', 'int']), valid, "under an arbitrary trace")

# ---------------------------------------------------------------- (B) real transforms

class Inner(Exception): pass

def run_in(nnx, t, body):
  """run body once under transform t (fresh each time)"""
  import jax, jax.numpy as jnp
  r = []
  def f(*a):
    r.append(body())
    return jnp.float32(1.0)
  if t == 'jit': jax.jit(lambda: f())()
  elif t == 'checkpoint': jax.checkpoint(lambda x: f(x))(1.0)
  elif t == 'scan': jax.lax.scan(lambda c, x: (c, f(x)), 0.0, jnp.zeros(2))
  elif t == 'eval_shape': jax.eval_shape(lambda: f())
  elif t == 'nnx.jit': nnx.jit(lambda m: f(m))(nnx.Dict(q=nnx.Param(jnp.float32(1.0))))
  elif t == 'nnx.grad': nnx.grad(lambda m: f(m) + m.q)(nnx.Dict(q=nnx.Param(jnp.float32(1.0))))
  elif t == 'grad': jax.grad(lambda x: f(x) + x)(1.0)
  elif t == 'vmap': jax.vmap(lambda x: f(x) + x)(jnp.zeros(2))
  else: raise KeyError(t)
OPENING = ['jit', 'checkpoint', 'scan', 'eval_shape', 'nnx.jit', 'nnx.grad']
PLAIN = ['grad', 'vmap']

def h_nest(S, depth=1, ts=tuple(OPENING + PLAIN), ops=tuple(OPS), raises=True):
  nnx = S.nnx
  chain = [S.choose(0, f"t{i}", values=list(ts)) for i in range(depth)]
  made = S.choose(0, "made", values=list(range(depth + 1)))
  op = S.choose(0, "op", values=list(ops))
  used = S.choose(0, "used", values=['in', 'after'])
  boom = S.choose(0, "boom", values=[False, True] if raises else [False])
  lvl = S.choose(0, "level", values=list(range(depth + 1)))
  stack = []
  box = {}
  v = S.leaf("v", ['none', 'jarr', 'int'])
  def at(i, when):
    if when == 'in' and i == made:
      box['m'], box['ctx'], box['stack'] = make(nnx), make_ctx(nnx), tuple(stack)
    if when == used and i == lvl and 'm' in box:
      valid = box['stack'] == tuple(stack)
      attempt(S, nnx, op, box['m'], box['ctx'], v, valid, f"made at level {made}, used {used} {i} of {chain}")
      if valid and when == 'after' and lvl < depth:
        S.reach("usable after inner error" if boom else "usable after inner transforms")
  def go(i):
    at(i, 'in')
    if i < depth:
      tok = object()
      def body():
        opened = chain[i] in OPENING
        if opened: stack.append(tok)
        try: go(i + 1)
        finally:
          if opened: stack.pop()
        if boom: raise Inner()
      try: run_in(nnx, chain[i], body)
      except Inner: pass
    at(i, 'after')
  go(0)

def h_merge_inside(S):
  """a module merged (or made) inside a transform belongs to it; the one outside does not"""
  nnx = S.nnx
  import jax
  t = S.choose(0, "t", values=OPENING)
  op = S.choose(0, "op", values=OPS)
  m = make(nnx); ctx = make_ctx(nnx)
  how = S.choose(0, "how", values=['merge', 'clone', 'deepcopy', 'ctx merge'])
  import copy
  def body():
    if how == 'merge': m2, c2 = m.partition().merge(), None
    elif how == 'clone': m2, c2 = m.clone(), None
    elif how == 'deepcopy': m2, c2 = copy.deepcopy(m), None
    else: m2, c2 = make(nnx), None
    c2 = nnx.context(5)
    attempt(S, nnx, op, m2, c2, 2.0, True, f"made by {how} inside {t}")
    attempt(S, nnx, op, m, ctx, 2.0, False, f"made outside {t}")
  run_in(nnx, t, body)
  attempt(S, nnx, op, m, ctx, 2.0, True, f"back outside {t}")

def h_threads(S, whos, ops):
  """transforms entered by one thread do not concern the objects of another"""
  import threading
  nnx = S.nnx
  t = S.choose(0, "t", values=OPENING + PLAIN)
  inner = S.choose(0, "inner", values=['none'] + OPENING)
  op = S.choose(0, "op", values=ops)
  who = S.choose(0, "who", values=whos)
  def tries(m, ctx):
    snap, cnt = g.freeze(nnx, m), counters(ctx)
    try: use(nnx, op, m, ctx, 2.0); return True
    except nnx.TraceContextError: return False
  res = []
  def mine(early=None):
    m, ctx = early or (make(nnx), make_ctx(nnx))
    if inner == 'none': res.append((tries(m, ctx), True)); return
    box = {}
    def body():
      m2, c2 = make(nnx), make_ctx(nnx)
      res.append((tries(m, ctx), False)); res.append((tries(m2, c2), True))
    run_in(nnx, inner, body)
    res.append((tries(m, ctx), True))
  def thread(f):
    bad = []
    def g_():
      try: f()
      except BaseException as e: bad.append(e)
    th = threading.Thread(target=g_); th.start(); th.join(60)
    if bad: raise bad[0]
  if who == 'main inside': run_in(nnx, t, lambda: thread(mine))
  elif who == 'thread inside':
    thread(lambda: run_in(nnx, t, lambda: res.append((tries(make(nnx), make_ctx(nnx)), True))))
    mine()
    a, b = threading.Event(), threading.Event()
    bad = []
    def other():
      try: run_in(nnx, t, lambda: (a.set(), b.wait(60)))
      except BaseException as e: bad.append(e)
      finally: a.set()
    th = threading.Thread(target=other); th.start(); a.wait(60)
    try: mine()
    finally: b.set(); th.join(60)
    if bad: raise bad[0]
    mine()
  else:
    a, b = threading.Event(), threading.Event()
    bad = []
    def other():
      try:
        m, ctx = make(nnx), make_ctx(nnx)
        a.set(); b.wait(60)
        mine((m, ctx))
      except BaseException as e: bad.append(e)
      finally: a.set()
    th = threading.Thread(target=other); th.start(); a.wait(60)
    def body(): b.set(); th.join(60)
    run_in(nnx, t, body)
    if bad: raise bad[0]
  for got, want in res:
    lab = "own use accepted in a thread" if want else "foreign use rejected in a thread"
    S.check(got == want, lab, lambda: f"{op}: {who} of {t}, within {inner}")
    S.reach(lab)

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("symbolic traces", "h_symbolic", hist=1)
  j("symbolic traces with history", "h_symbolic", hist=2 if not T else 3)
  for t in OPENING + PLAIN: j(f"under {t}", "h_nest", depth=1, ts=[t])
  few = ['set existing', 'sow existing', 'update_state', 'make_rng', 'partition ctx']
  tt = ['jit', 'scan', 'nnx.jit', 'nnx.grad', 'grad']
  for a in (OPENING + PLAIN if T else tt):
    j(f"nested in {a}", "h_nest2", first=a, ts=OPENING + PLAIN if T else tt, ops=OPS if T else few[:1] + few[3:4])
  j("merged inside", "h_merge_inside")
  for w in ('thread inside', 'main inside', 'thread started before'):
    j(f"threads: {w}", "h_threads", whos=[w], ops=OPS if T else ['set existing', 'make_rng', 'partition ctx', 'pop sub'])
  if T:
    for a in tt: j(f"three deep in {a}", "h_nest2", first=a, ts=tt, ops=few[:1] + few[3:4], depth=3)
  return J

def h_nest2(S, first, ts, ops, depth=2):
  """first transform fixed (one job each)"""
  class Fix:
    def __getattr__(self, n): return getattr(S, n)
    def choose(self, n, label, values=None):
      return first if label == 't0' else S.choose(n, label, values=values)
  h_nest(Fix(), depth=depth, ts=tuple(ts), ops=tuple(ops))
