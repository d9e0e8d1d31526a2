"""C26 Sequence and Dict"""
import collections
import jax
import numpy as np
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal, SymInt, ALLVALS
from sx import graphs as g
from props.c01 import NAMES

BOUNDS = dict(
  quick="Sequences of <= 3 items (modules, shared modules, variables, values of any kind, nested sequences) built from lists, tuples and generators, every integer index in [-5, 5]; calls through <= 3 callables with every output shape and signature, with and without a context, called twice; Dicts of <= 3 keys built from mappings, pairs and keywords, programs of <= 2 assignments",
  thorough="sequences of <= 4 items, 4 callables")
OUTSIDE = "keys that are names of methods of Module or Mapping, keys with a '/' or of other types than strings; callables without a signature; **kwargs callables receiving a context"
ASSUMPTIONS = []
WITNESSES = ["length and order", "index like a list", "out of range raises IndexError", "negative index", "tuple outputs are positional", "dict outputs are keywords", "other outputs are the single argument", "context exactly where accepted", "survives split and merge", "mapping construction", "mapping access", "mapping assignment", "missing key", "not callable raises"]

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class M(nnx.Module):
      pass
    _C[id(nnx)] = dict(M=M)
  return _C[id(nnx)]

def item(S, nnx, lab, kinds, prev, opts):
  """(object given, what reading it gives, stored check)"""
  k = S.choose(0, lab, values=[o for o in opts if o != 'again' or prev])
  if k == 'again': return prev[0]
  v = S.leaf(lab + ".v", kinds)
  if k == 'raw': return v, v
  if k == 'param': return nnx.Param(v, sharding=('x',)), v
  if k == 'static': return nnx.Static(v), v
  m = classes(nnx)['M']()
  m.w = nnx.Param(v)
  return m, m

def read_ok(nnx, got, want):
  if isinstance(want, nnx.Module) if type(want) is not SymVal else False: return got is want
  return same(got, want)

def h_seq(S, n=3, kinds=('jarr', 'int', 'none'), opts=('raw', 'param', 'mod', 'again')):
  nnx = S.nnx
  k = S.choose(n + 1, "len")
  items = []
  for i in range(k): items.append(item(S, nnx, f"i{i}", list(kinds), items, opts))
  given = [x for x, _ in items]
  how = S.choose(0, "how", values=['list', 'tuple', 'gen', 'iter'])
  src = dict(list=lambda: list(given), tuple=lambda: tuple(given), gen=lambda: (x for x in given), iter=lambda: iter(given))[how]()
  seq = nnx.Sequence(src)
  want = [r for _, r in items]
  def check(seq, want, lab):
    S.check(len(seq) == len(want), "length and order" if lab == "" else lab, lambda: f"{len(seq)} {want}")
    got = list(iter(seq))
    S.check(AND(len(got) == len(want), *[read_ok(nnx, a, b) for a, b in zip(got, want)]), "length and order" if lab == "" else lab, lambda: f"{got} {want}")
  check(seq, want, "")
  ix = S.choose(0, "index", values=list(range(-n - 2, n + 2)))
  try: got, err = seq[ix], None
  except IndexError as ex: err = ex
  i = ix
  if -k <= i < k:
    if i < 0: S.reach("negative index")
    S.check(err is None, "index like a list", lambda: f"{i} of {k}: {err!r}")
    S.check(read_ok(nnx, got, want[i]), "index like a list", lambda: f"{i} of {k}: {got!r}")
  else: S.check(err is not None, "out of range raises IndexError", lambda: f"{i} of {k}")
  S.check(AND(*[read_ok(nnx, a, b) for a, b in zip(reversed(seq), want[::-1])]), "length and order")
  snap = g.freeze(nnx, seq)
  # through split and merge
  back = seq.partition().merge() if S.flip("split") else seq.clone()
  S.check(type(back) is nnx.Sequence and len(back) == len(want), "survives split and merge", lambda: f"{back!r}")
  c, why = g.graphs_same(S, nnx, seq, back)
  S.check(c, "survives split and merge", lambda: why)
  for j in range(k):
    a = back[j]
    if type(want[j]) is not SymVal and isinstance(want[j], nnx.Module):
      S.check(AND(type(a) is type(want[j]), a is not want[j], same(a.w, want[j].w)), "survives split and merge")
      S.check(IFF(a is back[0], want[j] is want[0]), "survives split and merge", "sharing")
    else: S.check(same(a, want[j]), "survives split and merge", lambda: f"{a!r} {want[j]!r}")
  c, why = g.frozen_same(S, nnx, seq, snap)
  S.check(c, "reading changes nothing", lambda: why)

class D2(dict): pass
NTc = collections.namedtuple("NTc", ["x", "y"])
SIGS = ['x', '*', 'x,ctx', 'x,*,ctx', 'kw']
OUTS = ['one', 'none', 'tuple0', 'tuple1', 'tuple2', 'nt', 'list', 'dict0', 'dict', 'dictsub', 'state', 'false', 'kept']

def h_call(S, n=2, outs=tuple(OUTS), kinds=('jarr', 'int'), modules=True, twice=False):
  """threading of outputs, and of the context, against a reference"""
  nnx = S.nnx
  k = S.choose(0, "len", values=list(range(1, n + 1)))
  log = []
  fs, sigs, outv = [], [], []
  for i in range(k):
    sig = S.choose(0, f"sig{i}", values=SIGS)
    o = S.choose(0, f"out{i}", values=list(outs))
    v = S.leaf(f"o{i}", list(kinds))
    mk = dict(one=lambda v=v: v, none=lambda: None, tuple0=lambda: (), tuple1=lambda v=v: (v,), tuple2=lambda v=v: (v, 'second'), nt=lambda v=v: NTc(v, 2),
              list=lambda v=v: [v], dict0=lambda: {}, dict=lambda v=v: {'x': v}, dictsub=lambda v=v: D2(x=v, y=1), state=lambda v=v: nnx.State({'x': v}), false=lambda: False)
    kept = {'x': v}
    mk['kept'] = lambda kept=kept: kept
    f = mk[o]
    def rec(i, a, kw, f=f): log.append((i, a, dict(kw))); return f()
    if sig == 'x': fn = lambda x=None, y=None, i=i, rec=rec: rec(i, (x, y), {})
    elif sig == '*': fn = lambda *a, rec=rec, i=i: rec(i, a, {})
    elif sig == 'kw': fn = lambda *a, rec=rec, i=i, **kw: rec(i, a, kw)
    elif sig == 'x,ctx': fn = lambda x=None, y=None, ctx=None, i=i, rec=rec: rec(i, (x, y), {'ctx': ctx})
    else: fn = lambda x=None, y=None, *, ctx=None, i=i, rec=rec: rec(i, (x, y), {'ctx': ctx})
    fs.append(fn); sigs.append(sig); outv.append((o, v, kept))
  ctx = nnx.context(0) if S.flip("ctx") else None
  a0 = S.leaf("arg", list(kinds))
  firstkw = S.flip("firstkw") and sigs[0] not in ('*',)
  seq = nnx.Sequence(fs)
  def expected(ctx):
    out, res, args, kw = [], None, (a0,), {}
    if firstkw: args, kw = (), {'x': a0}
    for i in range(k):
      if i:
        o, v, kept = outv[i - 1]
        args, kw = (), {}
        if o in ('tuple0', 'tuple1', 'tuple2', 'nt'): args = {'tuple0': (), 'tuple1': (v,), 'tuple2': (v, 'second'), 'nt': (v, 2)}[o]
        elif o in ('dict0', 'dict', 'dictsub', 'kept'): kw = {'dict0': {}, 'dict': {'x': v}, 'dictsub': {'x': v, 'y': 1}, 'kept': {'x': v}}[o]
        else: args = ('single', o, v)
      out.append((i, args, kw))
    return out
  def bad_call(i, args, kw):
    """would python reject it: positional-only star functions with keywords"""
    return sigs[i] == '*' and kw
  def run(ctx):
    log.clear()
    exp = expected(ctx)
    if any(bad_call(i, a, kw) for i, a, kw in exp): return False
    r = seq(**({'x': a0} if firstkw else {}), **({'ctx': ctx} if ctx is not None else {})) if firstkw else seq(a0, **({'ctx': ctx} if ctx is not None else {}))
    S.check(len(log) == k, "length and order", lambda: f"{log}")
    for (i, a, kw), (j, ga, gkw) in zip(exp, log):
      S.check(i == j, "length and order")
      lab = "tuple outputs are positional" if i and outv[i-1][0] in ('tuple0', 'tuple1', 'tuple2', 'nt') else "dict outputs are keywords" if i and outv[i-1][0] in ('dict0', 'dict', 'dictsub', 'kept') else "other outputs are the single argument"
      if a and type(a[0]) is str and a[0] == 'single':
        o, v = a[1], a[2]
        w = dict(one=v, none=None, list=[v], false=False, state=nnx.State({'x': v}))[o]
        a = (w,)
      S.check(NOT(AND(bool('ctx' in gkw and gkw['ctx'] is not None), sigs[i] not in ('x,ctx', 'x,*,ctx'))), "context exactly where accepted", lambda: f"{log}")
      if sigs[i] in ('x,ctx', 'x,*,ctx'): S.check(gkw['ctx'] is ctx, "context exactly where accepted", lambda: f"{gkw} with ctx {ctx}")
      g2 = {n: x for n, x in gkw.items() if n != 'ctx'}
      if sigs[i] in ('*', 'kw'):
        S.check(AND(len(ga) == len(a), *[same(p, q) for p, q in zip(ga, a)]), lab, lambda: f"{ga} {a}")
        if sigs[i] == 'kw': S.check(AND(set(g2) == set(kw), *[same(g2[n], kw[n]) for n in kw if n in g2]), lab, lambda: f"{g2} {kw}")
      else:
        full = dict(zip(('x', 'y'), a)); full.update(kw)
        S.check(AND(same(ga[0], full.get('x')), same(ga[1], full.get('y'))), lab, lambda: f"{ga} {full}")
    o, v, kept = outv[-1]
    want = dict(one=v, none=None, tuple0=(), tuple1=(v,), tuple2=(v, 'second'), nt=NTc(v, 2), list=[v], dict0={}, dict={'x': v}, dictsub=D2(x=v, y=1), state=nnx.State({'x': v}), false=False, kept=kept)[o]
    S.check(same(r, want), "output of the last callable", lambda: f"{r!r} {want!r}")
    for o, v, kept in outv: S.check(AND(set(kept) == {'x'}, same(kept.get('x'), v)), "outputs are not modified", lambda: f"{kept}")
    return True
  if run(ctx) and twice: run(nnx.context(1) if S.flip("ctx2") else None)

def h_long(S, n=12):
  """long sequences: threading and the context at every position"""
  nnx = S.nnx
  ctx = nnx.context(0)
  at = S.choose(n, "at")
  out = S.choose(0, "out", values=['one', 'tuple', 'dict'])
  vals = [S.leaf(f"v{i}", ['jarr', 'int']) if i in (0, at) else f'const{i}' for i in range(n)]
  log = []
  def plain(i):
    def f(x): log.append((i, x)); return dict(one=vals[i], tuple=(vals[i],), dict={'x': vals[i]})[out]
    return f
  def withctx(i):
    def f(x, *, ctx=None): log.append((i, x)); S.check(ctx is want_ctx, "context exactly where accepted", lambda: f"position {i}: {ctx}"); return dict(one=vals[i], tuple=(vals[i],), dict={'x': vals[i]})[out]
    return f
  fs = [withctx(i) if i == at else plain(i) for i in range(n)]
  seq = nnx.Sequence(fs)
  S.check(AND(len(seq) == n, all(seq[i] is fs[i] and seq[i - n] is fs[i] for i in range(n)), all(a is b for a, b in zip(seq, fs))), "length and order")
  for want_ctx in (ctx, None):
    log.clear()
    r = seq('start', **({'ctx': ctx} if want_ctx is not None else {}))
    S.check([i for i, _ in log] == list(range(n)), "length and order", lambda: f"{log}")
    lab = dict(one="other outputs are the single argument", tuple="tuple outputs are positional", dict="dict outputs are keywords")[out]
    S.check(AND(*[same(x, 'start' if i == 0 else vals[i - 1]) for i, x in log]), lab, lambda: f"{log}")
    S.check(same(r, dict(one=vals[-1], tuple=(vals[-1],), dict={'x': vals[-1]})[out]), "output of the last callable", lambda: f"{r!r}")
  back = seq.clone()
  S.check(len(back) == n and all(a is b for a, b in zip(back, fs)), "survives split and merge", lambda: f"{list(back)}")
  ks = [f"k{i}" for i in range(n)]
  d = nnx.Dict({k: v for k, v in zip(ks, vals)})
  b2 = d.clone()
  S.check(AND(len(b2) == n, *[same(b2[k], v) for k, v in zip(ks, vals)]), "survives split and merge")

def h_notcallable(S):
  nnx = S.nnx
  v = S.leaf("v", ['int', 'none', 'str', 'list', 'obj', 'dict0'])
  pos = S.choose(2, "pos")
  fs = [lambda x: x]
  fs.insert(pos, v)
  seq = nnx.Sequence(fs)
  try: seq(1); ok = True
  except TypeError: ok = False
  S.check(not ok, "not callable raises", lambda: f"{v!r} at {pos}")

def h_modules(S):
  """callable modules, nested sequences, contexts"""
  nnx = S.nnx
  C = classes(nnx)
  class Layer(nnx.Module):
    def __init__(self, w): self.w = nnx.Param(w)
    def __call__(self, x): return (self.w, x)
  class CtxLayer(nnx.Module):
    def __init__(self, w): self.w = nnx.Param(w)
    def __call__(self, x, y=None, *, ctx): return {'x': (self.w, x, y, ctx)}
  w = [S.leaf(f"w{i}", ['jarr', 'int']) for i in range(3)]
  ctx = nnx.context(0)
  a, b = Layer(w[0]), CtxLayer(w[1])
  inner = nnx.Sequence([a, b])
  seq = nnx.Sequence([inner, lambda x: x, a] if S.flip("shared") else [inner, lambda x: x, Layer(w[0])])
  x = S.leaf("x", ['jarr', 'int'])
  if S.flip("clone"): seq = seq.clone()
  # inner: a(x) -> (w0, x) -> b(w0, x, ctx) -> {'x': (w1, w0, x, ctx)}
  try: r = seq[0](x, ctx=ctx)
  except TypeError as ex: S.fail("context exactly where accepted", repr(ex))
  S.check(AND(same(r['x'][0], w[1]), same(r['x'][1], w[0]), same(r['x'][2], x), r['x'][3] is ctx), "context exactly where accepted", lambda: f"{r}")
  r = nnx.Sequence([seq[0], lambda x: x])(x, ctx=ctx)
  S.check(AND(len(r) == 4, same(r[0], w[1]), same(r[1], w[0]), same(r[2], x), r[3] is ctx), "context exactly where accepted", lambda: f"{r}")

KEYS = ['b', 'a', '_p', 'x1']
def h_dict(S, n=2, nops=1, kinds=('jarr', 'int', 'none'), opts=('raw', 'param', 'mod', 'again')):
  nnx = S.nnx
  keys = [k for k in KEYS[:n + 1] if S.flip(f"has {k}")]
  items = []
  for k in keys: items.append(item(S, nnx, f"d.{k}", list(kinds), items, opts))
  how = S.choose(0, "how", values=['mapping', 'pairs', 'kwargs', 'both', 'gen'])
  given = {k: x for k, (x, _) in zip(keys, items)}
  want = {k: r for k, (_, r) in zip(keys, items)}
  half = dict(list(given.items())[:1]); rest = dict(list(given.items())[1:])
  d = dict(mapping=lambda: nnx.Dict(dict(given)), pairs=lambda: nnx.Dict(list(given.items())), kwargs=lambda: nnx.Dict(**given), both=lambda: nnx.Dict(half, **rest), gen=lambda: nnx.Dict((k, v) for k, v in given.items()))[how]()
  def check(d, want, lab, exact=True):
    S.check(AND(sorted(iter(d)) == sorted(want), len(d) == len(want), sorted(d.keys()) == sorted(want)), lab, lambda: f"{list(d)} {list(want)}")
    for k in KEYS + ['zz']:
      if k in want:
        S.check(k in d, lab)
        a, b, c = d[k], getattr(d, k), d.get(k)
        if exact: S.check(AND(read_ok(nnx, a, want[k]), read_ok(nnx, b, want[k]), read_ok(nnx, c, want[k])), lab, lambda: f"{k}: {a!r} {want[k]!r}")
      else:
        S.check(k not in d, lab, lambda: f"{k} in {d!r}")
        for f, e in ((lambda: d[k], KeyError), (lambda: getattr(d, k), AttributeError)):
          try: f(); ok = True
          except e: ok = False
          S.check(not ok, "missing key", lambda: f"{k} {e}")
        S.check(d.get(k, 7) == 7, "missing key")
    if exact: S.check(AND(*[read_ok(nnx, v, want[k]) for k, v in d.items()]), lab, lambda: f"{list(d.items())}")
  check(d, want, "mapping construction")
  check(d, want, "mapping access")
  for i in range(nops):
    op = S.choose(0, f"op{i}", values=['none', 'setitem', 'setattr', 'delattr'])
    if op == 'none': continue
    k = S.choose(0, f"key{i}", values=KEYS[:n + 1])
    if op == 'delattr':
      if k in want: delattr(d, k); del want[k]
    else:
      v = S.leaf(f"new{i}", list(kinds))
      if op == 'setitem': d[k] = v
      else: setattr(d, k, v)
      if k in given and k in want and not isinstance(given[k], (nnx.Module, SymVal)) and hasattr(type(given[k]), 'is_equivalent'):
        S.check(AND(type(vars(d)[k]) is type(given[k]), same(vars(d)[k].sharding, ('x',))), "mapping assignment", lambda: f"{vars(d)[k]!r}")
      want[k] = v
    check(d, want, "mapping assignment")
  snap = g.freeze(nnx, d)
  back = d.clone()
  S.check(type(back) is nnx.Dict, "survives split and merge")
  c, why = g.graphs_same(S, nnx, d, back)
  S.check(c, "survives split and merge", lambda: why)
  check(back, want, "survives split and merge", exact=False)
  c, why = g.frozen_same(S, nnx, d, snap)
  S.check(c, "reading changes nothing", lambda: why)

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("sequence", "h_seq", n=3 if not T else 4, kinds=['jarr', 'int'])
  j("sequence kinds", "h_seq", n=1, kinds=ALLVALS, opts=['raw', 'param', 'static', 'mod'])
  j("calls", "h_call", n=2)
  j("calls 3", "h_call", n=3, outs=['one', 'tuple2', 'dict'] if not T else ['one', 'tuple1', 'tuple2', 'dict', 'none'], kinds=['int'])
  j("calls twice", "h_call", n=2, outs=['one', 'kept', 'dict', 'tuple1'], kinds=['int'], twice=True)
  j("long", "h_long", n=12)
  j("not callable", "h_notcallable")
  j("modules", "h_modules")
  j("dict", "h_dict", n=2, nops=1)
  j("dict programs", "h_dict", n=1, nops=2, kinds=['jarr', 'int'])
  j("dict kinds", "h_dict", n=0, nops=1, kinds=ALLVALS)
  if T: j("dict 3", "h_dict", n=3, nops=1, kinds=['jarr'])
  return J
