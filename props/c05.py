"""C05 pop_state"""
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, ALLVALS, ARRAYS, SymVal
from sx import graphs as g
from props.c01 import NAMES, SMALL
from props.c03 import mk, first_match

BOUNDS = dict(
  quick="modules <= 3 (sharing and cycles), attributes <= 2, chains of 7 modules, modules with 12 attributes, filter sequences of <= 2 (4 from a smaller pool) from types, arbitrary predicates, None, `...` and combinations; arbitrary values; module and split-module forms",
  thorough="modules <= 3, attributes <= 3, sequences of <= 3")
OUTSIDE = "predicates with side effects"
ASSUMPTIONS = ["user predicates are pure functions of (path, stored value) returning a bool"]
WITNESSES = ["popped by first match", "popped values unchanged", "rest of the module unchanged", "no filters rejected", "Pure pop: rest", "Pure pop: original untouched"]
POOL = ['P', 'Q', 'Param', 'BatchStat', '...', 'None', 'Not', 'All', 'tup', 'Array', 'Variable']

def choose_filters(S, nnx, n, pool):
  preds = dict(P=S.pred("P"), Q=S.pred("Q"))
  fs = [mk(S, nnx, preds, S.choose(0, f"filter{i}", values=list(pool))) for i in range(n)]
  return fs, ", ".join(f.txt for f in fs)

def check_popped(S, nnx, got, fs, before, txt, spec):
  S.check(len(got) == len(fs), "one state per filter", lambda: f"{len(got)} for {txt}")
  for i, st in enumerate(got):
    S.check(isinstance(st, nnx.State), "popped parts are states")
    S.check(set(st) <= set(before), "popped under the module's paths", lambda: f"{list(st)} vs {list(before)} for {spec}")
    S.check(list(st) == sorted(st), "popped paths in order", lambda: f"{list(st)}")
    for p, v in before.items():
      S.check(IFF(p in st, first_match(fs, p, v)[i]), "popped by first match",
              lambda: f"{p} is {'wrongly' if p in st else 'not'} in part {i} of {txt}; {spec}")
    S.check(AND(*[same(st[p], before[p]) for p in st]), "popped values unchanged", lambda: f"part {i}: {dict(st)} vs {before}")

def h_pop(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param'), kinds=SMALL, nfil=1, pool=tuple(POOL), twice=False):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  root = objs[0]
  fs, txt = choose_filters(S, nnx, nfil, pool)
  before = dict(root.get_state().items())
  paths = g.expected_paths(S, spec)
  S.check(set(before) == set(paths), "state paths", lambda: f"{list(before)} vs {list(paths)}")
  got = root.pop_state(*[f.real for f in fs])
  S.check(isinstance(got, tuple) == (nfil > 1), "shape of the result")
  got = got if nfil > 1 else (got,)
  check_popped(S, nnx, got, fs, before, txt, spec)
  # what is left: the graph without exactly the popped slots
  rest = spec.copy()
  for p in before:
    if any(p in st for st in got):
      i, n = paths[p]; del rest.mods[i].attrs[n]
  c, om, why = g.match_graph(S, nnx, rest, root)
  S.check(c, "rest of the module unchanged", lambda: f"{why}; popped {[list(s) for s in got]} of {spec} with {txt}")
  S.check(all(om[i] is objs[i] for i in om), "submodules keep their identity")
  if twice:
    again = root.pop_state(*[f.real for f in fs])
    again = again if nfil > 1 else (again,)
    S.check(all(len(s) == 0 for s in again), "nothing matches any more", lambda: f"{again} with {txt}")

def h_restore(S, nmod=2, slots=2, names=0, leafopts=('param', 'bs', 'raw'), kinds=('jarr', 'nparr')):
  """putting the popped state back gives the original graph"""
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  fs, txt = choose_filters(S, nnx, 2, ['P', 'Param', '...'])
  got = objs[0].pop_state(*[f.real for f in fs])
  objs[0].update_state(got)
  c, om, why = g.match_graph(S, nnx, spec, objs[0])
  S.check(c, "popped state can be put back", lambda: f"{why}; {spec}")

def h_nofilter(S, kinds=SMALL):
  nnx = S.nnx
  spec = g.choose_spec(S, 2, 1, NAMES[0], ['raw', 'param'], kinds)
  objs = g.build(S, nnx, spec)
  try:
    objs[0].pop_state()
    S.fail("no filters rejected")
  except ValueError: S.reach("no filters rejected")
  c, _, why = g.match_graph(S, nnx, spec, objs[0])
  S.check(c, "rejected pop changes nothing", lambda: why)

def h_pure(S, nmod=2, slots=2, names=0, leafopts=('raw', 'param', 'bs'), kinds=SMALL, nfil=1, pool=tuple(POOL), hows=('whole', 'split')):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots, NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  how = S.choose(0, "how", values=list(hows))
  pure = objs[0].partition() if how == 'whole' else objs[0].partition(S.pred("R"), ...)
  st0 = pure.states
  before = dict(objs[0].get_state().items())
  parts0 = [dict(s.items()) for s in (st0 if isinstance(st0, tuple) else (st0,))]
  fs, txt = choose_filters(S, nnx, nfil, pool)
  if any(f.txt == '...' for f in fs[:-1]): return     # rejected, like State.filter does (C03)
  got, rest = pure.pop_state(*[f.real for f in fs])
  S.check(isinstance(got, tuple) == (nfil > 1), "shape of the result")
  got = got if nfil > 1 else (got,)
  check_popped(S, nnx, got, fs, before, txt, spec)
  S.check(isinstance(rest, nnx.Pure), "Pure pop: rest", "not a split module")
  left = rest.get_state()
  want = {p: v for p, v in before.items() if not any(p in s for s in got)}
  S.check(set(left) == set(want), "Pure pop: rest", lambda: f"{list(left)} vs {list(want)}")
  S.check(AND(*[same(left[p], want[p]) for p in want]), "Pure pop: rest", lambda: f"{left} vs {want}")
  S.check(rest.moduledef == pure.moduledef, "Pure pop: definition")
  S.check(pure.states is st0, "Pure pop: original untouched")
  now = [dict(s.items()) for s in (pure.states if isinstance(pure.states, tuple) else (pure.states,))]
  S.check(AND(len(now) == len(parts0), *[same(a, b) for a, b in zip(now, parts0)]), "Pure pop: original untouched", lambda: f"{now} vs {parts0}")
  c, _, why = g.match_graph(S, nnx, spec, objs[0])
  S.check(c, "Pure pop: module untouched", lambda: why)

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  K2 = ['none', 'jarr']
  P3 = ['P', 'Param', '...', 'Not', 'None']
  j("pop mixed 2x2", "h_pop", nmod=2, slots=2, names=0, leafopts=['raw', 'param'], kinds=K2, nfil=1, pool=P3)
  j("pop names 2x2", "h_pop", nmod=2, slots=2, names=2, leafopts=['param', 'bs'], kinds=['jarr', 'tup0'], nfil=1, pool=P3, twice=True)
  j("pop all kinds", "h_pop", nmod=1, slots=2, names=0, leafopts=['raw', 'node', 'static', 'custom'], kinds=ALLVALS, nfil=1)
  j("pop two filters", "h_pop", nmod=2, slots=[2, 1], names=1, leafopts=['raw', 'param'], kinds=['nparr'], nfil=2, pool=['P', 'Q', 'Param', 'Array', '...', 'None', 'Not', 'tup'])
  j("pop aliased values", "h_pop", nmod=2, slots=[2, 1], names=0, leafopts=['raw', 'param', 'alias'], kinds=['jarr'], nfil=2, pool=['P', 'Param', '...'])
  j("pop four filters", "h_pop", nmod=1, slots=2, names=0, leafopts=['param', 'raw'], kinds=['jarr'], nfil=4, pool=['P', 'Param', 'None', 'Q'])
  j("pure four filters", "h_pure", nmod=1, slots=2, hows=['whole'], names=0, leafopts=['param', 'raw'], kinds=['jarr'], nfil=4, pool=['P', 'Param', 'None', 'Q'])
  for shape in ('deep', 'wide'):
    j(f"pop {shape}", "h_pop", nmod=shape, names=0, leafopts=['param', 'raw'], kinds=['jarr', 'int'], nfil=2, pool=['P', 'Param'])
    j(f"pure {shape}", "h_pure", nmod=shape, names=0, leafopts=['param', 'raw'], kinds=['jarr', 'int'], nfil=1, pool=['P', 'Param'], hows=['whole', 'split'] if shape == 'deep' else ['whole'])
  j("pop sharing 3x2", "h_pop", nmod=3, slots=[2, 2, 1], names=0, leafopts=['param'], kinds=['jarr'], nfil=1, pool=['P', '...'])
  j("pop then restore", "h_restore")
  j("no filter", "h_nofilter")
  j("pure one filter", "h_pure", nmod=2, slots=[2, 1], names=0, kinds=K2, nfil=1)
  j("pure two filters", "h_pure", nmod=2, slots=1, names=2, kinds=['nparr', 'none'], nfil=2)
  if T:
    j("pop mixed 2x3", "h_pop", nmod=2, slots=[3, 2], names=0, leafopts=['raw', 'param'], kinds=K2, nfil=1, pool=P3)
    j("pop three filters", "h_pop", nmod=2, slots=[2, 1], names=1, leafopts=['param', 'bs'], kinds=['jarr'], nfil=3)
    j("pop two filters 2x2", "h_pop", nmod=2, slots=2, names=2, leafopts=['raw', 'param', 'bs'], kinds=['nparr'], nfil=2, pool=['P', 'Q', 'Param', '...', 'Not'])
    j("pop sharing 3x2 full", "h_pop", nmod=3, slots=2, names=0, leafopts=['param'], kinds=['jarr'], nfil=1, pool=['P', '...', 'Param'])
    j("pop restore 3x2", "h_restore", nmod=3, slots=[2, 2, 1], leafopts=['param'])
    j("pure two filters 2x2", "h_pure", nmod=2, slots=2, names=2, kinds=['nparr', 'none'], nfil=2, pool=['P', 'Q', 'Param', '...', 'Not'], leafopts=['raw', 'param'])
  return J
