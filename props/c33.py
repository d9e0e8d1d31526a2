"""C33 a failing call leaves modules, contexts and traces as they were"""
import jax, jax.numpy as jnp, numpy as np
from sx import jx, progs
from sx.progs import facts, build, inputs, run, choose_prog

BOUNDS = dict(
  quick="module graphs of 9 shapes (<= 4 modules; trees, sharing, cycles); functions = programs of <= 1 operation (out of 12) through nnx.jit, nnx.grad (stateful or not, with aux), nnx.remat, nnx.Remat, nnx.scan (carried, stacked, broadcast variables), nnx.Scan, their call accessors, Pure.apply, Pure.call, ModuleDef.apply, lowering, and nestings of two of them; failing before or after the operation by an exception of the function (also one that is no Exception, like an interrupt), a use of a module or context of the outer trace, an unusable return value, wrong lengths or arguments; one or two failures in a row, of the same or another function; then the same function on the same module; all array values and keys (exact arithmetic)",
  thorough="programs of 2 operations")
OUTSIDE = "failing initialisers (the module under construction is not finished); a failing function called directly, without a transform; how far the stream counts of a context passed to a failing call have advanced; donated arguments"
ASSUMPTIONS = ["floats are exact reals, random bits are uninterpreted functions of the key"]
WITNESSES = ["exception reaches the caller", "module as before the failing call", "outer objects as before", "traces restored", "same function works afterwards", "context usable afterwards", "two failures in a row", "nested transforms"]

class Boom(Exception): pass
class Stop(BaseException): pass      # like KeyboardInterrupt

SINGLE = ['jit', 'jit stateless', 'grad', 'grad stateless', 'grad aux', 'remat', 'scan', 'scan params', 'scan broadcast', 'pure apply', 'pure call', 'moduledef apply', 'lower']
OBJS = ['Remat', 'Remat.call.go', 'Scan', 'Scan.call.go']
NESTED = ['jit(grad)', 'jit(remat)', 'jit(scan)', 'grad(jit)', 'grad(remat)', 'grad(scan)', 'remat(jit)', 'scan(remat)', 'remat(scan)', 'jit(jit)', 'scan(jit)']
FAILS = ['raise', 'raise base', 'outer write', 'outer delete', 'outer ctx', 'bad result', 'bad argument', 'bad ctx']
USES_CTX = ('jit', 'jit stateless', 'remat', 'scan', 'scan params', 'scan broadcast', 'Remat', 'Scan', 'jit(remat)')

def transform(nnx, entry, fn, L=2, cache=None):
  """callable (module, x, **kw) -> result; fn(m, x, ctx=None) -> vector of 2"""
  if '(' in entry:
    o, i = entry[:-1].split('(')
    inner = transform(nnx, i, fn, L)
    return transform(nnx, o, lambda m, x, **kw: vector(inner(m, x, **kw)), L)
  if entry in ('jit', 'jit stateless'): return nnx.jit(fn, stateful=entry == 'jit')
  if entry == 'lower':
    g = nnx.jit(fn)
    def low(m, x, **kw): g.lower(m, x, **kw); return g(m, x, **kw)
    return low
  if entry.startswith('grad'):
    def loss(m, x):
      o = fn(m, x)
      if not isinstance(o, jax.Array): return o
      s = jnp.sum(o * o)
      return (s, o) if entry == 'grad aux' else s
    g = nnx.grad(loss, stateful=entry != 'grad stateless', has_aux=entry == 'grad aux')
    return lambda m, x: g(m, x)
  if entry == 'remat': return nnx.remat(lambda m, x, ctx=None: fn(m, x, **({} if ctx is None else dict(ctx=ctx))))
  if entry.startswith('scan'):
    va = {nnx.Param: 0} if entry == 'scan params' else {}
    bc = nnx.BatchStat if entry == 'scan broadcast' else None
    def body(m, c, s, ctx=None):
      o = fn(m, c, **({} if ctx is None else dict(ctx=ctx)))
      if not isinstance(o, jax.Array): return o
      return o, o * s
    g = nnx.scan(body, variable_axes=va, variable_broadcast=bc, length=L, split_rngs='params')
    return lambda m, x, **kw: g(m, x, jnp.ones((L,)) * x[:1], **kw)
  if entry == 'pure apply': return lambda m, x: m.partition().apply.go(x, fn)[0]
  if entry == 'pure call': return lambda m, x: m.partition(nnx.Param, ...).call.go(x, fn)
  if entry == 'moduledef apply':
    def app(m, x):
      p = m.partition()
      return p.moduledef.apply(p.states).go(x, fn)[0]
    return app
  raise KeyError(entry)

def vector(v):
  """some vector of 2 that depends on every part of the result"""
  acc = jnp.zeros((2,))
  for leaf in jax.tree_util.tree_leaves(v): acc = acc + jnp.sum(leaf)
  return acc

def wrapped(nnx, entry, mk, fn):
  """(module, callable) for nnx.Remat and nnx.Scan around the root module made by mk"""
  class Cls(nnx.Module):
    def __init__(self):
      for k, v in vars(mk()).items():
        if not k.startswith('_module__'): vars(self)[k] = v
    def go(self, x, *s, ctx=None):
      o = fn[0](self, x, **({} if ctx is None else dict(ctx=ctx)))
      if not s or not isinstance(o, jax.Array): return o
      return o, o * s[0]
    __call__ = go
  if entry.startswith('Remat'): w = nnx.Remat(Cls)()
  else: w = nnx.Scan(Cls, variable_axes={}, length=2, split_rngs='params')()
  t = lambda *a, **k: (w.call.go if entry.endswith('.go') else w)(*a, **k)
  if entry.startswith('Scan'): return w, lambda m, x, **kw: t(x, jnp.ones((2,)) * x[:1], **kw)
  return w, lambda m, x, **kw: t(x, **kw)

def h_fail(S, shapes=('single',), nops=1, ops=tuple(progs.OPS), entries=('jit',), fails=('raise',), times=(1,), ctx=False, alias=False):
  nnx = S.nnx
  shape = S.choose(0, "shape", values=list(shapes))
  entry = S.choose(0, "entry", values=[e for e in entries if not ctx or e in USES_CTX])
  prog = choose_prog(S, shape, nops, ops, alias=alias)
  fail = S.choose(0, "fail", values=list(fails))
  after = S.choose(nops + 1, "after")
  n = S.choose(0, "times", values=list(times))
  other = S.choose(0, "other function", values=[False, True]) if n > 1 else False
  I = inputs(S, shape)
  if ctx: I.key("key"); I.key("key2")
  detail = f"{shape} {prog} {entry} {fail} after {after} x{n} other={other} ctx={ctx}"
  class Out(nnx.Module):
    def __init__(self): self.v = nnx.Param(jnp.ones(2)); self.k = 1
  def mkctx(inp): return nnx.context(params=inp["key"], dropout=inp["key2"], flags=dict(train=True))
  def untouched(lab, m, b):
    f1, v1, o1 = facts(nnx, m)
    S.check(b[0] == f1 and len(b[2]) == len(o1) and all(p is q for p, q in zip(b[2], o1)), lab, lambda: f"structure changed: {f1} was {b[0]}; {detail}")
    S.check(sorted(b[1]) == sorted(v1) and all(v1[k] is b[1][k] for k in b[1]), lab, lambda: f"value changed; {detail}")
  def history(inp, failing):
    m = build(nnx, shape, inp)[0]
    out = Out(); octx = nnx.context(9)
    stack = sx_stack(nnx)
    state = dict(bad=None, seen=[])
    def fn(m, x, ctx=None):
      bad = state['bad']
      acc = x
      for k, (op, path) in enumerate(prog):
        if bad and k == after: break
        acc = progs.step(nnx, op, m, progs.at(m, path), acc, x, str(k))
      if ctx is not None:
        acc = acc + jax.random.uniform(ctx.make_rng('params'), (2,))
        if ctx.get_flag('train'): acc = acc * 2
      if bad in ('raise', 'raise base'): raise state['exc']
      if bad == 'outer write': out.v = acc
      if bad == 'outer delete': del out.v
      if bad == 'outer ctx': acc = acc + jax.random.uniform(octx.make_rng('params'), (2,))
      if bad == 'bad result': return "not a value"
      return jnp.broadcast_to(acc, (2,)) if jnp.ndim(acc) < 2 else jnp.sum(acc, 0)
    # Pure.apply and Pure.call reach the function through a method
    if entry.startswith('pure') or entry.startswith('moduledef'):
      mo = facts(nnx, m)[2][0]; go_class(nnx, mo)
    if entry in OBJS: root, call = wrapped(nnx, entry, lambda: m, [lambda *a, **k: fn(*a, **k)])
    else: root, call = m, transform(nnx, entry, lambda *a, **k: fn(*a, **k))
    traced = not entry.startswith(('pure', 'moduledef'))
    c = mkctx(inp) if ctx else None
    kw = dict(ctx=c) if ctx else {}
    if failing:
      for t in range(n):
        b = facts(nnx, root); bo = facts(nnx, out)
        call2 = call
        if other and t and entry not in OBJS: call2 = transform(nnx, entry, lambda *a, **k: fn(*a, **k))
        state['bad'] = fail; state['exc'] = Stop(t) if fail == 'raise base' else Boom(t)
        x, kws = inp["x"], dict(kw)
        if fail == 'bad argument': x = "text" if not entry.startswith(('scan', 'Scan')) else jnp.ones((2, 2), bool)[0, :0]
        if fail == 'bad ctx': kws = dict(ctx="text")
        err = None
        try: call2(root, x, **kws)
        except (Exception, Stop) as ex: err = ex
        state['bad'] = None
        if fail in ('raise', 'raise base'): S.check(err is state['exc'], "exception reaches the caller", lambda: f"{err!r}; {detail}"); S.reach("exception reaches the caller")
        elif fail in ('outer write', 'outer delete', 'outer ctx') and traced:
          S.check(isinstance(err, nnx.TraceContextError), "exception reaches the caller", lambda: f"{err!r}; {detail}")
        if err is None: S.assume(False)        # this entry has no such failure
        untouched("module as before the failing call", root, b)
        if traced: untouched("outer objects as before", out, bo); S.reach("outer objects as before")
        S.reach("module as before the failing call")
        err = None
      if n > 1: S.reach("two failures in a row")
      if '(' in entry: S.reach("nested transforms")
      S.check(sx_stack(nnx) == stack, "traces restored", lambda: f"{sx_stack(nnx)} was {stack}; {detail}")
      if traced:
        try: out.v = jnp.zeros(2); octx.make_rng('params'); ok = True
        except Exception as ex: ok = repr(ex)
        S.check(ok is True, "traces restored", lambda: f"{ok}; {detail}")
      if ctx:
        try: c.make_rng('params'); c.make_rng('dropout'); ok = c.get_flag('train') is True
        except Exception as ex: ok = repr(ex)
        S.check(ok is True, "context usable afterwards", lambda: f"{ok}; {detail}")
        S.reach("context usable afterwards")
      try: root.zz = 1; del root.zz; ok = True
      except Exception as ex: ok = repr(ex)
      S.check(ok is True, "traces restored", lambda: f"{ok}; {detail}")
      S.reach("traces restored")
    if ctx: kw = dict(ctx=mkctx(inp))
    r = call(root, inp["x"], **kw)
    f, vals, _ = facts(nnx, root)
    f = [('C' if cl.__name__ == 'Cls' else cl if not cl.__name__ in ('Scan', 'Remat') else cl.__name__, {k: v for k, v in rec.items() if k not in ('module_constructor', 'options')}) for cl, rec in f]
    return (r, vals), f
  rec = {}
  def real(inp):
    o, f = history(inp, True); rec['f'] = f; return o
  def ref(inp):
    o, f = history(inp, False)
    if 'f' in rec: S.check(rec['f'] == f, "same function works afterwards", lambda: f"{rec['f']} expected {f}; {detail}")
    return o
  S.reach("same function works afterwards")
  jx.agree(S, I, real, ref, "same function works afterwards", detail)

def go_class(nnx, m):
  """a method that runs any function on its module"""
  cls = type(m)
  if not hasattr(cls, 'go'): cls.go = lambda self, x, fn: fn(self, x)

def sx_stack(nnx):
  """what a user can see of the traces: two fresh objects, each usable, and the trace they belong to"""
  m = nnx.Module(); m.a = 1
  m.a = 2
  t = getattr(vars(m).get('_module__state'), 'trace_state', None)
  return tuple(id(getattr(t, k, None)) for k in ('nnx_trace', 'jax_trace'))

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg, world='plain', nsample=3))
  core = ['scale', 'add', 'swap', 'new', 'upd']
  shapes = list(progs.SHAPES)
  for e in SINGLE:
    light = 'scan' not in e
    j(f"{e}", "h_fail", shapes=shapes if light or T else ['single', 'shared', 'cycle'], entries=[e], ops=core, fails=['raise', 'outer write'])
    j(f"{e} all operations", "h_fail", shapes=['single', 'shared'] if light else ['single'], entries=[e], fails=['raise'], ops=[o for o in progs.OPS if light or o not in ('raw', 'newraw', 'static2node', 'sow')])
    j(f"{e} other failures", "h_fail", shapes=['shared'], entries=[e], ops=['scale', 'new'], fails=['raise base'] + FAILS[3:])
    if T: j(f"{e} two operations", "h_fail", shapes=['single', 'shared', 'cycle'], nops=2, entries=[e], ops=core, fails=['raise', 'outer write'])
  j("wrappers", "h_fail", shapes=['single', 'shared', 'cycle'], entries=OBJS, ops=['scale', 'new', 'upd'], fails=['raise', 'raise base', 'outer write', 'bad result'])
  j("nested", "h_fail", shapes=['single', 'shared'], entries=NESTED, ops=['scale', 'new'], fails=['raise', 'raise base', 'outer write', 'bad result'])
  j("contexts", "h_fail", shapes=['single'], entries=SINGLE + OBJS + NESTED, ops=['scale', 'new'], fails=['raise', 'outer ctx', 'bad result', 'bad ctx'], ctx=True)
  j("twice", "h_fail", shapes=['single', 'cycle'], entries=SINGLE, ops=['scale', 'new'], fails=['raise', 'outer write'], times=[2])
  j("twice nested", "h_fail", shapes=['single'], entries=NESTED + OBJS, ops=['scale'], fails=['raise', 'outer write'], times=[2] if not T else [2, 3])
  if T: j("nested two operations", "h_fail", shapes=['single', 'shared'], nops=2, entries=NESTED, ops=['scale', 'new'], fails=['raise', 'outer write'])
  return J
