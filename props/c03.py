"""C03 filters"""
import numpy as np
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, ALLVALS, ARRAYS, SymVal
from sx import graphs as g
from props.c01 import NAMES, SMALL

BOUNDS = dict(
  quick="states of <= 3 nodes; filter sequences of <= 3 (6 and 12 from smaller pools), states of 12 nodes over 3 levels with predicates that pick any one of them; filters from type, jax.Array, arbitrary predicate, None, `...`, (), tuples, All, Not and one nesting level; predicates are uninterpreted functions of path and stored value",
  thorough="states of <= 4 nodes, sequences of <= 3, nesting 2")
OUTSIDE = "predicates with side effects"
ASSUMPTIONS = ["user predicates are pure functions of (path, stored value) with a truth value"]
WITNESSES = ["first match", "non-exhaustive partition raises", "ellipsis position", "merge restores", "predicate arguments", "invalid filter"]

BASE = ['Param', 'Variable', 'Array', 'P', 'Q', 'None', '...', 'tup0', 'tup', 'All', 'Not', 'NotT', 'AllN', 'tupN', 'All0', 'Node', 'BatchStat', 'Pt', 'NotPt', 'AllPt']

class F:
  """a filter and its independent meaning"""
  def __init__(self, real, ref, txt): self.real, self.ref, self.txt = real, ref, txt

def mk(S, nnx, preds, name):
  import jax
  C = g.classes(nnx)
  def typ(t):
    cls = dict(Param=nnx.Param, Variable=nnx.Variable, BatchStat=nnx.BatchStat, Node=nnx.Node, Array=jax.Array)[t]
    def ref(path, st):
      if type(st) is SymVal: return st.kind_cond(['jarr', 'jarr0d', 'jarr0z']) if t == 'Array' else False
      return isinstance(st, cls)
    return F(cls, ref, t)
  def pred(n):
    p = preds[n]
    return F(p, lambda path, st: p.value(path, st), n)
  if name in ('Param', 'Variable', 'BatchStat', 'Node', 'Array'): return typ(name)
  if name in ('P', 'Q'): return pred(name)
  if name == 'None': return F(None, lambda p, s: False, 'None')
  if name == '...': return F(..., lambda p, s: True, '...')
  if name == 'tup0': return F((), lambda p, s: False, '()')
  A, P, Q = typ('Param'), pred('P'), pred('Q')
  if name in ('Pt', 'NotPt', 'AllPt'):
    # a predicate whose answers are truthy or falsy values that are not bools
    yes, no = S.choose(0, "truthy", values=[(np.True_, np.False_), (['x'], []), ('no', ''), (2, 0), (1.5, None)])
    f = lambda p, s: yes if P.real(p, s) else no
    txt = f'P answering {yes!r} / {no!r}'
    if name == 'NotPt': return F(nnx.Not(f), lambda p, s: NOT(P.ref(p, s)), f'Not({txt})')
    if name == 'AllPt': return F(nnx.All(f, f), P.ref, f'All({txt}, twice)')
    return F(f, P.ref, txt)
  B = typ('BatchStat')
  if name == 'tup': return F((B.real, P.real), lambda p, s: OR(B.ref(p, s), P.ref(p, s)), '(BatchStat, P)')
  if name == 'All': return F(nnx.All(A.real, P.real), lambda p, s: AND(A.ref(p, s), P.ref(p, s)), 'All(Param, P)')
  if name == 'All0': return F(nnx.All(), lambda p, s: True, 'All()')
  if name == 'Not': return F(nnx.Not(P.real), lambda p, s: NOT(P.ref(p, s)), 'Not(P)')
  if name == 'NotT': return F(nnx.Not((A.real, Q.real)), lambda p, s: NOT(OR(A.ref(p, s), Q.ref(p, s))), 'Not((Param, Q))')
  if name == 'AllN': return F(nnx.All(nnx.Not(None), ..., nnx.Not(Q.real)), lambda p, s: NOT(Q.ref(p, s)), 'All(Not(None), ..., Not(Q))')
  if name == 'tupN': return F((None, nnx.All(P.real, nnx.Not(Q.real)), ()), lambda p, s: AND(P.ref(p, s), NOT(Q.ref(p, s))), '(None, All(P, Not(Q)), ())')
  # filters of types only, with classes and subclasses
  import jax
  C = g.classes(nnx)
  def cls(name):
    real = dict(buffers=getattr(nnx, 'buffers', None), arrays=(jax.Array, np.ndarray), np=np.ndarray, Container=nnx.Container, object=object, Custom=C['Custom'], Param=nnx.Param, Node=nnx.Node)[name]
    kinds = dict(buffers=ARRAYS, arrays=ARRAYS, np=[k for k in ARRAYS if k.startswith('np')], object=list(ALLVALS)).get(name, [])
    return F(real, lambda p, s: s.kind_cond(kinds) if type(s) is SymVal else isinstance(s, real), name)
  if name.startswith('not '): f = cls(name[4:]); return F(nnx.Not(f.real), lambda p, s: NOT(f.ref(p, s)), name)
  if name.startswith('all '):
    fs = [cls(n) for n in name[4:].split()]
    return F(nnx.All(*[f.real for f in fs]), lambda p, s: AND(*[f.ref(p, s) for f in fs]), name)
  if name.startswith('any '):
    fs = [cls(n) for n in name[4:].split()]
    return F(tuple(f.real for f in fs), lambda p, s: OR(*[f.ref(p, s) for f in fs]), name)
  return cls(name)

def first_match(filters, path, stored):
  """conditions: [first match is filter 0, ..., filter n-1, no match]"""
  out, none = [], True
  for f in filters:
    m = f.ref(path, stored)
    out.append(AND(none, m)); none = AND(none, NOT(m))
  return out + [none]

def check_parts(S, nnx, got, fm, st, txt, n):
  S.check(len(got) == n, "number of parts", lambda: f"{len(got)} for {txt}")
  for i, gs in enumerate(got):
    S.check(isinstance(gs, nnx.State), "part type")
    S.check(set(gs) <= set(st), "nothing invented", lambda: f"part {i} of {txt} holds {list(gs)}")
    S.check(list(gs) == [k for k in st if k in gs], "order of parts", lambda: f"part {i} of {txt} holds {list(gs)}")
    for p in st:
      S.check(IFF(p in gs, fm[p][i]), "first match", lambda: f"part {i} of {txt} holds {list(gs)}, and {p} is {'wrongly' if p in gs else 'not'} in it")
    S.check(AND(*[same(gs[p], st[p]) for p in gs]), "values untouched", lambda: f"part {i} of {txt}")

def h_filters(S, nleaf=2, nfil=2, pool=tuple(BASE), leafopts=('raw', 'param', 'bs'), kinds=('jarr', 'nparr', 'state'), obj=None, last=None, pool0=None):
  nnx = S.nnx
  spec = g.Spec(); spec.mods.append(g.Mod('A')); spec.mods.append(g.Mod('A'))
  spec.mods[0].attrs['s'] = g.Slot('mod', idx=1)
  for i in range(nleaf):
    o = S.choose(0, f"leaf{i}", values=leafopts)
    spec.mods[i % 2].attrs[f"n{i}"] = g.leaf_slot(S, o, f"v{i}", kinds)
  root = g.build(S, nnx, spec)[0]
  preds = dict(P=S.pred("P"), Q=S.pred("Q"))
  pool = list(pool)
  fs = [mk(S, nnx, preds, S.choose(0, f"filter{i}", values=([last] if last and i == nfil - 1 else list(pool0) if pool0 and i == 0 else pool))) for i in range(nfil)]
  txt = ", ".join(f.txt for f in fs)
  pure = root.partition()
  if S.choose(2, "split-state") and len(pure.states) > 1:
    ks = list(pure.states)
    pure = nnx.module.Pure.new((nnx.State({ks[0]: pure.states[ks[0]]}), nnx.State({k: pure.states[k] for k in ks[1:]})), pure.moduledef) if hasattr(nnx, 'module') else pure
  target, op = S.choose(0, "op", values=[(o, p) for o in ([obj] if obj else ['module', 'pure', 'state']) for p in ('partition', 'filter')])
  st = root.get_state()
  real = [f.real for f in fs]
  bad = any(f.real is ... for f in fs[:-1])
  try:
    t = dict(module=root, pure=pure, state=st)[target]
    out = getattr(t, op)(*real)
    err = None
  except ValueError as ex:
    err, out = ex, None
  if bad:
    S.check(err is not None, "ellipsis position", lambda: f"{op}({txt}) accepted")
    return
  fm = {p: first_match(fs, p, st[p]) for p in st}
  for p in preds.values():
    for c in p.calls:
      S.check(len(c) == 2 and c[0] in st, "predicate arguments", lambda: f"{c}")
      S.check(same(c[1], st[c[0]]), "predicate arguments", lambda: f"{c}")
  left = OR(*[fm[p][-1] for p in st])
  if op == 'partition':
    S.check(IFF(err is not None, left), "non-exhaustive partition raises", lambda: f"{op}({txt}) {'raised' if err else 'did not raise'}")
    if err is not None: return
  else: S.check(err is None, "no error", lambda: f"{op}({txt}) raised {err!r}")
  if target in ('module', 'pure') and op == 'partition':
    S.check(isinstance(out, nnx.Pure), "result type", lambda: f"{type(out)}")
    S.check(out.moduledef == pure.moduledef, "definition kept")
    got = out.states
  else: got = out
  if nfil == 1:
    S.check(isinstance(got, nnx.State), "single part is a State", lambda: f"{type(got)}")
    got = (got,)
  else: S.check(isinstance(got, tuple), "several parts are a tuple", lambda: f"{type(got)}")
  check_parts(S, nnx, got, fm, st, f"{target}.{op}({txt})", nfil)
  if op == 'partition':
    mg = nnx.State.merge(*(tuple(got)[::-1] if S.choose(2, "merge-order") else tuple(got)))
    S.check(list(mg) == list(st), "merge restores", lambda: f"{list(mg)}")
    S.check(AND(*[same(mg[k], st[k]) for k in st]), "merge restores", lambda: txt)
  c, _, why = g.match_graph(S, nnx, spec, root)
  S.check(c, "module unchanged", lambda: why)

def h_invalid(S):
  nnx = S.nnx
  bad = S.choose(0, "bad", values=['str', 'int', 'list', 'nested', 'all', 'not', 'float', 'dict'])
  f = dict(str='params', int=3, list=[nnx.Param], nested=(nnx.Param, 'x'), all=None, float=1.5, dict={}).get(bad)
  A = g.classes(nnx)['A']
  m = A(); m.x = nnx.Param(S.leaf("v", ALLVALS))
  op = S.choose(0, "op", values=['partition', 'filter', 'pop_state'])
  try:
    if bad == 'all': f = nnx.All('x')
    if bad == 'not': f = nnx.Not(5)
    getattr(m, op)(f); ok = True
  except TypeError: ok = False
  S.check(not ok, "invalid filter", lambda: f"{op} accepted {bad}")
  S.check('x' in vars(m), "invalid filter has no effect")

def h_many(S, n=12, nfil=3):
  """states with many nodes at different depths, many filters; predicates pick any one or all but one of them"""
  nnx = S.nnx
  kinds = [nnx.Param, nnx.BatchStat, nnx.Node]
  root = nnx.Module(); root.a = nnx.Module(); root.a.b = nnx.Module(); root.a.b.again = root
  mods = [root, root.a, root.a.b]
  for i in range(n): setattr(mods[i % 3], f"n{i}", kinds[(i // 3) % 3](S.leaf(f"v{i}", ['jarr'])))
  st = root.get_state()
  paths = sorted(st)
  S.check(list(st) == paths and len(paths) == n, "order of parts", lambda: f"{list(st)}")
  at = paths[S.choose(n, "picked")]
  seen = []
  def one(path, v): seen.append((path, v)); return path == at
  def ref_of(name):
    return dict(one=lambda q, v: q == at, rest=lambda q, v: q != at, Param=lambda q, v: type(v) is nnx.Param, deep=lambda q, v: q.startswith('a/b'), stat=lambda q, v: type(v) is nnx.BatchStat, none=lambda q, v: False)[name]
  real_of = dict(one=one, rest=nnx.Not(one), Param=nnx.Param, deep=lambda q, v: q.startswith('a/b'), stat=(nnx.BatchStat, None), none=None)
  names = [S.choose(0, f"filter{i}", values=['one', 'rest', 'Param', 'deep'] if i == 0 else ['one', 'Param', 'deep', 'stat']) for i in range(nfil - 1)]
  names = names[:1] + ['none'] * S.choose(0, "unmatched filters", values=[0, 9]) + names[1:]
  op = S.choose(0, "op", values=['partition', 'filter'])
  t = dict(module=root, pure=root.partition(), state=st)[S.choose(0, "of", values=['module', 'pure', 'state'])]
  last = [...] if S.flip("rest last") or op == 'partition' else []
  fs = [real_of[q] for q in names] + last
  got = getattr(t, op)(*fs)
  if hasattr(got, 'states'): got = got.states
  got = (got,) if isinstance(got, nnx.State) else tuple(got)
  txt = f"{op}({names}) picking {at}"
  S.check(len(got) == len(fs), "number of parts", txt)
  first = {q: next((i for i, m in enumerate(names) if ref_of(m)(q, st[q])), len(names)) for q in paths}
  for i, part in enumerate(got):
    want = [q for q in paths if first[q] == i]
    S.check(list(part) == want, "first match", lambda: f"{txt}: part {i} holds {list(part)}, expected {want}")
    S.check(AND(*[same(part[q], st[q]) for q in want]), "values untouched", txt)
  S.check(all(q in st and v is st[q] or same(v, st[q]) is True for q, v in seen), "predicate arguments", txt)
  if op == 'partition': S.check(list(nnx.State.merge(*got[::-1])) == paths, "merge restores", txt)

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  for o in ('module', 'pure', 'state'):
    j(f"{o} one filter", "h_filters", nleaf=2, nfil=1, obj=o)
    j(f"{o} filters then ...", "h_filters", nleaf=2, nfil=2, obj=o, last='...')
  for i in range(7):
    j(f"two filters {i}", "h_filters", nleaf=2, nfil=2, obj='state', pool0=BASE[i::7], leafopts=['raw', 'param'], kinds=['jarr', 'nparr'])
  for o in ('module', 'pure'):
    j(f"{o} two filters", "h_filters", nleaf=2, nfil=2, obj=o, pool=['Param', 'P', 'tup', 'NotT', '...', 'None'], leafopts=['raw', 'param'], kinds=['jarr', 'nparr'])
  for o in ('module', 'state'): j(f"{o} six filters", "h_filters", nleaf=2, nfil=6, obj=o, pool=['P', 'Param', '...'], pool0=['Not'], leafopts=['raw', 'param'], kinds=['jarr'])
  j("three filters", "h_filters", nleaf=2, nfil=3, obj='state', pool=['Param', 'P', 'Not', '...'], leafopts=['raw', 'param'], kinds=['jarr', 'nparr'])
  TY = ['buffers', 'arrays', 'np', 'Container', 'object', 'Custom', 'not buffers', 'not np', 'not Container', 'all Container Param', 'all Node Custom', 'all buffers np', 'any np Custom', 'any Custom buffers', 'any Param Container']
  for o in ('module', 'state'): j(f"{o} types", "h_filters", nleaf=2, nfil=2, obj=o, pool0=TY, last='...', leafopts=['raw', 'param', 'custom'], kinds=['jarr', 'nparr'])
  j("types twice", "h_filters", nleaf=2, nfil=2, obj='state', pool=TY[::2], leafopts=['raw', 'custom'], kinds=['jarr', 'nparr'])
  j("many nodes and filters", "h_many")
  j("invalid", "h_invalid")
  if T:
    for o in ('module', 'pure', 'state'):
      j(f"{o} two filters, three nodes", "h_filters", nleaf=3, nfil=2, obj=o, leafopts=['raw', 'param'], kinds=['jarr', 'nparr'])
      j(f"{o} three filters", "h_filters", nleaf=2, nfil=3, obj=o, pool=['Param', 'P', 'Not', 'tup', 'AllN', 'None', '...'], leafopts=['raw', 'param'], kinds=['jarr', 'nparr'])
    j("state four nodes", "h_filters", nleaf=4, nfil=2, obj='state', pool=['P', 'Not', 'Param', '...', 'tup'], leafopts=['raw', 'param'], kinds=['jarr', 'nparr'])
  return J
