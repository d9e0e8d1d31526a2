"""C06 apply / call"""
from sx.engine import AND, OR, NOT, IFF, PathEnd
from sx.proxies import same, ALLVALS, ARRAYS, SymVal
from sx import graphs as g
from props.c01 import SMALL

BOUNDS = dict(
  quick="programs of <= 2 statements (write variable / raw / static / new variable / submodule / shared module, delete, sow, pop, raise, reads) in a method reached by 12 accessor chains (names, positions, keys, up to depth 3) from ModuleDef, Pure (whole, split), Module and Pure.call; two accessors made from one kept prefix (6 prefixes, <= 5 suffixes each) and used in 4 orders; up to three parts naming the same nodes; 19 names of methods, submodules and keyword arguments and 4 keys; methods that return modules, states, split modules, bound methods, variables or iterators; arbitrary values",
  thorough="programs of <= 3 statements")
OUTSIDE = "methods that mutate a static attribute object in place; methods that mutate values captured from outside the module"
ASSUMPTIONS = ["chain names are not the private names of the accessor objects (`_proxy_*`, `_delayed_accessor`)"]
WITNESSES = ["same output as the direct call", "result holds every update", "original untouched", "repeatable", "call returns the output alone", "proxies compose independently", "exception passes through"]

_C = {}
def classes(nnx):
  if id(nnx) in _C: return _C[id(nnx)]
  class Leaf(nnx.Module):
    def __init__(self, v): self.z = nnx.BatchStat(v)
    def __call__(self, prog, v): return run(nnx, self, prog, v)
    def meth(self, prog, v, *, k=None): return ('meth', k, run(nnx, self, prog, v))
  class Top(nnx.Module):
    def __init__(self, a, b, st, c, d, e):
      self.x = nnx.Param(a, sharding=('m',)); self.y = b; self.st = st
      self.sub = Leaf(c); self.again = self.sub
      self.seq = nnx.Sequence([Leaf(d), self.sub]); self.d = nnx.Dict(k=Leaf(e))
      self.sub.up = self
    def __call__(self, prog, v): return run(nnx, self, prog, v)
    def meth(self, prog, v, *, k=None): return ('meth', k, run(nnx, self, prog, v))
  class Boom(Exception): pass
  _C[id(nnx)] = dict(Leaf=Leaf, Top=Top, Boom=Boom)
  return _C[id(nnx)]

def run(nnx, self, prog, v):
  """a method body: executes a little program on self"""
  C = classes(nnx)
  own = 'x' if type(self) is C['Top'] else 'z'
  out = []
  for op in prog:
    if op == 'write': setattr(self, own, v)
    elif op == 'static': self.st = 'changed'
    elif op == 'raw': self.y = v
    elif op == 'new': self.fresh = nnx.Param(v, sharding=('n',))
    elif op == 'sub':
      t = self.sub if type(self) is C['Top'] else self
      t.z = v
    elif op == 'other':
      t = self.seq[0] if type(self) is C['Top'] else (self.up.d['k'] if hasattr(self, 'up') else self)
      t.z = v
    elif op == 'del':
      if hasattr(self, own): delattr(self, own)
    elif op == 'sow': self.sow(nnx.Intermediate, 'h', v)
    elif op == 'pop': out.append(self.pop_state(nnx.BatchStat))
    elif op == 'newmod': self.extra = C['Leaf'](v)
    elif op == 'raise': raise C['Boom']()
    elif op == 'read':
      out.append(vars(self).get(own)); out.append(getattr(self, 'st', 'none'))
      if type(self) is C['Top']: out.append(getattr(self.again, 'z', 'none'))
  return (own, type(self).__name__, out, v)

OPS = ['write', 'static', 'raw', 'new', 'sub', 'other', 'del', 'sow', 'pop', 'newmod', 'raise', 'read']
CHAINS = {
  '()': lambda p: p, '.meth': lambda p: p.meth, '.sub': lambda p: p.sub, '.sub.meth': lambda p: p.sub.meth,
  '.again': lambda p: p.again, '.seq[0]': lambda p: p.seq[0], '.seq[1].meth': lambda p: p.seq[1].meth, '.seq[-1]': lambda p: p.seq[-1],
  ".d['k']": lambda p: p.d['k'], ".d['k'].meth": lambda p: p.d['k'].meth, '.d.k.meth': lambda p: p.d.k.meth,
  '.sub.up.seq[0]': lambda p: p.sub.up.seq[0],
}

def make(S, nnx, kinds, pre=""):
  C = classes(nnx)
  vals = [S.leaf(f"{pre}v{i}", kinds) for i in range(4)]
  st = S.leaf(f"{pre}st", ['int0', 'int'])
  return lambda: C['Top'](vals[0], vals[1], st, vals[2], vals[3], vals[0])

def outcome(nnx, f):
  try: return ('ok', f())
  except classes(nnx)['Boom']: return ('boom', None)

def caller(nnx, S, form, m):
  """(proxy maker, frozen original, check untouched)"""
  if form == 'module':
    snap = g.freeze(nnx, m)
    return (lambda: m.apply), (lambda: g.frozen_same(S, nnx, m, snap))
  if form in ('pure', 'purecall', 'split'):
    p = m.partition(S.pred("P"), ...) if form == 'split' else m.partition()
  else: p = m.partition()
  states = p.states if isinstance(p.states, tuple) else (p.states,)
  before = [dict(s.items()) for s in states]
  meta = [{k: dict(vars(v)) for k, v in d.items() if type(v) is not SymVal and hasattr(type(v), 'is_equivalent')} for d in before]
  md0 = m.get_module_def()
  def unt():
    now = p.states if isinstance(p.states, tuple) else (p.states,)
    if len(now) != len(states) or not all(a is b for a, b in zip(now, states)): return False, "states replaced"
    conds = [p.moduledef == md0]
    for s, b, mt in zip(now, before, meta):
      if list(s) != list(b): return False, f"{list(s)} vs {list(b)}"
      conds += [same(s[k], b[k]) for k in b] + [same(dict(vars(s[k])), mt[k]) for k in mt]
    return AND(*conds), "values"
  if form == 'def1': mk = lambda: p.moduledef.apply(p.states)
  elif form == 'def2':
    ks = list(p.states)
    a, b = nnx.State({k: p.states[k] for k in ks[:2]}), nnx.State({k: p.states[k] for k in ks[2:]})
    mk = lambda: p.moduledef.apply(b, a)
  elif form == 'purecall': mk = lambda: p.call
  else: mk = lambda: p.apply
  return mk, unt

def compare(S, nnx, got, want, txt):
  S.check(got[0] == want[0], "same outcome", lambda: f"{got[0]} vs {want[0]}; {txt}")
  S.reach("exception passes through") if want[0] == 'boom' else None

def h_apply(S, form='pure', nops=2, kinds=SMALL, chains=None, ops=tuple(OPS)):
  nnx = S.nnx
  mk = make(S, nnx, kinds)
  chain = S.choose(0, "chain", values=list(chains or CHAINS))
  prog = [S.choose(0, f"op{i}", values=list(ops)) for i in range(nops)]
  v = S.leaf("arg", kinds)
  nav = CHAINS[chain]
  kw = {'k': 3} if chain.endswith('meth') else {}
  m = mk()
  ref = mk()
  prox, untouched = caller(nnx, S, form, m)
  want = outcome(nnx, lambda: nav(ref)(prog, v, **kw))
  txt = f"{form}.apply{chain} running {prog}"
  res = []
  # the same caller may be kept and called again, or obtained afresh
  kept = nav(prox()) if S.flip("keep") else None
  for k in range(2):
    got = outcome(nnx, lambda: (kept or nav(prox()))(prog, v, **kw))
    c, why = untouched()
    S.check(c, "original untouched", lambda: f"{why}; {txt}")
    compare(S, nnx, got, want, txt)
    if want[0] == 'boom': continue
    if form == 'purecall':
      S.check(same(got[1], want[1]), "call returns the output alone", lambda: f"{got[1]!r} vs {want[1]!r}; {txt}")
      continue
    out, new = got[1]
    S.check(same(out, want[1]), "same output as the direct call" if k == 0 else "repeatable", lambda: f"{out!r} vs {want[1]!r}; {txt}")
    S.check(isinstance(new, nnx.Module if form == 'module' else nnx.Pure), "kind of result", lambda: f"{type(new)}")
    after = new if form == 'module' else new.merge()
    c, why = g.graphs_same(S, nnx, after, ref)
    S.check(c, "result holds every update", lambda: f"{why}; {txt}")
    res.append(new)
  if form == 'module' and len(res) == 2:
    S.check(not any(a is b for a in g.graph_modules(nnx, res[0]) for b in g.graph_modules(nnx, res[1]) + g.graph_modules(nnx, m)), "results are isolated from each other", txt)

def h_chainstate(S, form='pure', kinds=SMALL, ops=('write', 'sub', 'new', 'static', 'sow', 'pop')):
  """the result of one apply is the start of the next: equals two direct calls"""
  nnx = S.nnx
  mk = make(S, nnx, kinds)
  c1, c2 = (S.choose(0, f"chain{i}", values=['()', '.sub.meth', '.seq[1].meth', ".d['k']"]) for i in range(2))
  o1, o2 = (S.choose(0, f"op{i}", values=list(ops)) for i in range(2))
  v, w = S.leaf("arg0", kinds), S.leaf("arg1", kinds)
  m, ref = mk(), mk()
  want1 = outcome(nnx, lambda: CHAINS[c1](ref)([o1, 'read'], v)); want2 = outcome(nnx, lambda: CHAINS[c2](ref)([o2, 'read'], w))
  cur = m if form == 'module' else m.partition()
  for c, o, a, want in ((c1, o1, v, want1), (c2, o2, w, want2)):
    got = outcome(nnx, lambda: CHAINS[c](cur.apply)([o, 'read'], a))
    compare(S, nnx, got, want, f"{c1} {o1}, {c2} {o2}")
    if got[0] != 'ok': return
    S.check(same(got[1][0], want[1]), "same output as the direct call", lambda: f"{got[1][0]!r} vs {want[1]!r}")
    cur = got[1][1]
  after = cur if form == 'module' else cur.merge()
  c, why = g.graphs_same(S, nnx, after, ref)
  S.check(c, "result holds every update", lambda: f"{why}; {c1} {o1}, {c2} {o2}")

def h_reuse(S, kinds=('jarr', 'none')):
  """accessor objects made from a common prefix do not influence each other"""
  nnx = S.nnx
  mk = make(S, nnx, kinds)
  m, ref = mk(), mk()
  form = S.choose(0, "form", values=['module', 'pure', 'def', 'purecall'])
  p = m.partition()
  base = dict(module=lambda: m.apply, pure=lambda: p.apply, purecall=lambda: p.call)[form]() if form != 'def' else p.moduledef.apply(p.states)
  a = CHAINS[S.choose(0, "a", values=list(CHAINS))]
  b = CHAINS[S.choose(0, "b", values=list(CHAINS))]
  pa = a(base); pb = b(base)
  ops = S.choose(0, "ops", values=[('read',), ('read', 'sub', 'write', 'static', 'read')])
  wa, wb = outcome(nnx, lambda: a(mk())(ops, 1)), outcome(nnx, lambda: b(mk())(ops, 2))
  order = S.flip("order")
  def go(px, n, want):
    got = outcome(nnx, lambda: px(ops, n))[1]
    S.check(same(got if form == 'purecall' else got[0], want[1]), "proxies compose independently", lambda: f"{got!r} vs {want[1]!r}")
  for px, n, want in ([(pa, 1, wa), (pb, 2, wb), (pa, 1, wa)] if order else [(pb, 2, wb), (pa, 1, wa), (pb, 2, wb)]): go(px, n, want)
  go(base, 5, outcome(nnx, lambda: mk()(ops, 5)))

PREFIX = {
  '.seq': (lambda p: p.seq, ['[0]', '[1]', '[-1]', '[0].meth', '[1].up.d.k']),
  '.d': (lambda p: p.d, ["['k']", '.k', "['k'].meth"]),
  '.sub': (lambda p: p.sub, ['', '.meth', '.up', '.up.seq[0]', ".up.d['k']"]),
  '.sub.up': (lambda p: p.sub.up, ['', '.meth', '.sub', '.seq[0]', ".d['k'].meth"]),
  'Sequence': (lambda p: p, ['[0]', '[1]', '[-1]', '[0].meth', '[-2]']),
  'Dict': (lambda p: p, ["['a']", "['b']", '.b', "['a'].meth"]),
}

def h_prefix(S, kinds=('jarr',)):
  """one kept prefix accessor, from which two accessors are made and used in any order"""
  nnx = S.nnx
  C = classes(nnx)
  pname = S.choose(0, "prefix", values=list(PREFIX))
  pre, sufs = PREFIX[pname]
  form = S.choose(0, "form", values=['module', 'pure', 'def'])
  if pname == 'Sequence':
    v = [S.leaf(f"v{i}", kinds) for i in range(2)]
    mk = lambda: nnx.Sequence([C['Leaf'](v[0]), C['Leaf'](v[1])])
  elif pname == 'Dict':
    v = [S.leaf(f"v{i}", kinds) for i in range(2)]
    mk = lambda: nnx.Dict({'a': C['Leaf'](v[0]), 'b': C['Leaf'](v[1])})
  else: mk = make(S, nnx, kinds)
  m = mk()
  p = m.partition()
  base = pre(m.apply if form == 'module' else p.apply if form == 'pure' else p.moduledef.apply(p.states))
  sa, sb = S.choose(0, "a", values=sufs), S.choose(0, "b", values=sufs)
  nav = {x: eval(f"lambda p: p{x}") for x in (sa, sb)}
  steps = S.choose(0, "steps", values=['abAB', 'aAbBA', 'abBAB', 'aAbB'])
  px = {}
  for c in steps:
    x = sa if c in 'aA' else sb
    if c in 'ab': px[c] = nav[x](base); continue
    arg = S.leaf(f"arg{c}", kinds) if f"arg{c}" not in px else px[f"arg{c}"]
    px[f"arg{c}"] = arg
    ref = mk()
    want = outcome(nnx, lambda: nav[x](pre(ref))(['write', 'read'], arg))
    got = outcome(nnx, lambda: px[c.lower()](['write', 'read'], arg))
    txt = f"{form} {pname} then {sa!r} and {sb!r}, {steps}"
    compare(S, nnx, got, want, txt)
    S.check(same(got[1][0], want[1]), "proxies compose independently", lambda: f"{got!r} vs {want[1]!r}; {txt}")
    new = got[1][1]
    c, why = g.graphs_same(S, nnx, new if form == 'module' else new.merge(), ref)
    S.check(c, "result holds every update", lambda: f"{why}; {txt}")

def h_overlap(S, kinds=('jarr', 'none')):
  """parts that name the same nodes: apply and call work on what they merge to"""
  nnx = S.nnx
  mk = make(S, nnx, kinds)
  m = mk()
  p = m.partition()
  st, md = p.states, p.moduledef
  over = {}
  for i, path in enumerate(list(st)[:3]):
    k = S.choose(0, f"over {path}", values=[(), (1,), (2,), (1, 2)])
    for j in k:
      v = S.leaf(f"o{i}{j}", kinds)
      c = type(st[path])(v, **{a: b for a, b in vars(st[path]).items() if a != 'value'}) if isinstance(st[path], nnx.Node) else v
      over.setdefault(j, {})[path] = c
  parts = (st,) + tuple(nnx.State(over.get(j, {})) for j in (1, 2))
  ref = md.merge(nnx.State({**dict(parts[0].items()), **dict(parts[1].items()), **dict(parts[2].items())}))
  form = S.choose(0, "form", values=['pure', 'def', 'call'])
  q = nnx.Pure((parts, md))
  op = S.choose(0, "op", values=['read', 'write', 'sub', 'sow'])
  chain = S.choose(0, "chain", values=['()', '.sub.meth', '.seq[0]'])
  v = S.leaf("arg", kinds)
  want = outcome(nnx, lambda: CHAINS[chain](ref)([op, 'read'], v))
  base = dict(pure=lambda: q.apply, call=lambda: q.call)[form]() if form != 'def' else md.apply(*parts)
  got = outcome(nnx, lambda: CHAINS[chain](base)([op, 'read'], v))
  txt = f"{form} {op} {chain} with overlapping parts {[list(s) for s in parts]}"
  compare(S, nnx, got, want, txt)
  if form == 'call':
    S.check(same(got[1], want[1]), "call returns the output alone", lambda: f"{got[1]!r} vs {want[1]!r}; {txt}")
    return
  S.check(same(got[1][0], want[1]), "same output as the direct call", lambda: f"{got[1][0]!r} vs {want[1]!r}; {txt}")
  c, why = g.graphs_same(S, nnx, got[1][1].merge(), ref)
  S.check(c, "result holds every update", lambda: f"{why}; {txt}")

NAMES = ['accessor', 'accessesor', 'fn', 'key', 'x', 'name', 'value', 'apply_', 'module', 'merge', 'states', 'moduledef', 'call', 'type', 'index', 'keys', '_a', 'args', 'kwargs']

def h_names(S, kinds=('jarr',)):
  """names of attributes, items and keyword arguments do not matter"""
  nnx = S.nnx
  name = S.choose(0, "name", values=NAMES)
  kw = S.choose(0, "keyword", values=[None, name, 'accessor', 'accessesor'])
  where = S.choose(0, "where", values=['method', 'submodule', 'nested method'])
  key = S.choose(0, "key", values=[None, 'k', name, 'f']) if where == 'submodule' else None
  form = S.choose(0, "form", values=['module', 'pure', 'def1', 'purecall', 'init'])
  v, w = S.leaf("v", kinds), S.leaf("arg", kinds)
  class N(nnx.Module):
    def f(self, a, **kws): self.z = a; return ('f', self.tag, kws)
    def __call__(self, a, **kws): self.z = a; return ('call', self.tag, kws)
    def __getitem__(self, k): return lambda a, **kws: ('item', k, self.f(a, **kws))
  if where != 'submodule': setattr(N, name, lambda self, a, **kws: ('named', self.f(a, **kws)))
  def mk():
    t = N(); t.tag = 'top'; t.z = nnx.Param(v)
    for n in ('sub', name) if where == 'submodule' else ('sub',):
      s = N(); s.tag = n; s.z = nnx.BatchStat(v); setattr(t, n, s)
    return t
  def nav(p):
    if where == 'nested method': p = p.sub
    p = getattr(p, name)
    if where == 'submodule' and key is not None: p = p[key]
    return p
  kws = {} if kw is None else {kw: 7}
  m, ref = mk(), mk()
  want = nav(ref)(w, **kws)
  txt = f"{form} {where} {name!r}[{key!r}] keyword {kw!r}"
  if form == 'init':
    got = nav(m.init)(w, **kws)
    S.check(same(got, want), "call returns the output alone", lambda: f"{got!r} vs {want!r}; {txt}")
    return
  prox, untouched = caller(nnx, S, form, m)
  got = nav(prox())(w, **kws)
  c, why = untouched()
  S.check(c, "original untouched", lambda: f"{why}; {txt}")
  if form == 'purecall':
    S.check(same(got, want), "call returns the output alone", lambda: f"{got!r} vs {want!r}; {txt}")
    return
  S.check(same(got[0], want), "same output as the direct call", lambda: f"{got[0]!r} vs {want!r}; {txt}")
  c, why = g.graphs_same(S, nnx, got[1] if form == 'module' else got[1].merge(), ref)
  S.check(c, "result holds every update", lambda: f"{why}; {txt}")

def h_item_root(S, kinds=SMALL):
  """apply on containers: items directly at the root"""
  nnx = S.nnx
  C = classes(nnx)
  v = [S.leaf(f"v{i}", kinds) for i in range(3)]
  op = S.choose(0, "op", values=['write', 'new', 'static', 'sow', 'pop', 'read'])
  which = S.choose(0, "root", values=['seq', 'dict'])
  mk = (lambda: nnx.Sequence([C['Leaf'](v[0]), C['Leaf'](v[1])])) if which == 'seq' else (lambda: nnx.Dict({'a': C['Leaf'](v[0]), 'b': C['Leaf'](v[1])}))
  key = S.choose(0, "key", values=[0, 1, -1, -2] if which == 'seq' else ['a', 'b'])
  m, ref = mk(), mk()
  form = S.choose(0, "form", values=['module', 'pure', 'split'])
  prox, untouched = caller(nnx, S, form, m)
  want = ref[key].meth([op, 'read'], v[2], k=1)
  out, new = prox()[key].meth([op, 'read'], v[2], k=1)
  c, why = untouched()
  S.check(c, "original untouched", lambda: why)
  S.check(same(out, want), "same output as the direct call", lambda: f"{out!r} vs {want!r} key {key}")
  c, why = g.graphs_same(S, nnx, new if form == 'module' else new.merge(), ref)
  S.check(c, "result holds every update", lambda: why)

RETURNS = ['self', 'sub', 'tuple', 'dict', 'state', 'pure', 'method', 'variable', 'iterator', 'def', 'none', 'not', 'root']
def h_returns(S, kinds=SMALL, forms=('module', 'pure', 'def1', 'purecall', 'split')):
  """whatever the method returns is returned"""
  nnx = S.nnx
  C = classes(nnx)
  kind = S.choose(0, "returns", values=RETURNS)
  form = S.choose(0, "form", values=list(forms))
  chain = S.choose(0, "chain", values=['()', '.sub', '.seq[0]', ".d['k']"])
  op = S.choose(0, "op", values=['read', 'write', 'new'])
  if 'R' not in C:
    def give(self, kind, op, v):
      run(nnx, self, [op], v)
      top = type(self) is C['Top']
      return dict(self=lambda: self, sub=lambda: self.sub if top else self, tuple=lambda: (self, v, self), dict=lambda: {'m': self, 'v': v}, state=self.get_state, pure=self.partition, method=lambda: self.meth,
        variable=lambda: vars(self).get('x' if top else 'z'), iterator=lambda: iter([v, 2]), none=lambda: None, root=lambda: self.sub.up if top else getattr(self, 'up', self), **{'def': self.get_module_def, 'not': lambda: NotImplemented})[kind]()
    C['Top'].give = C['Leaf'].give = give; C['R'] = give
  mk = make(S, nnx, kinds)
  v = S.leaf("arg", kinds)
  nav = CHAINS[chain]
  m, ref = mk(), mk()
  mods = g.graph_modules(nnx, m)
  prox, untouched = caller(nnx, S, form, m)
  want = nav(ref).give(kind, op, v)
  got = nav(prox()).give(kind, op, v)
  out, new = (got, None) if form == 'purecall' else got
  lab = "call returns the output alone" if form == 'purecall' else "same output as the direct call"
  txt = f"{form}.apply{chain} returning {kind} after {op}"
  def eq(a, b):
    if type(a) is not SymVal and isinstance(b, nnx.Module):
      if not isinstance(a, nnx.Module): return False
      S.check(not any(a is x for x in mods), "original untouched", lambda: f"returns a module of the original; {txt}")
      return g.graphs_same(S, nnx, a, b)[0]
    if isinstance(b, nnx.Pure): return AND(isinstance(a, nnx.Pure), eq(a.merge(), b.merge()) if isinstance(a, nnx.Pure) else False)
    if isinstance(b, nnx.State): return AND(isinstance(a, nnx.State), *([list(a) == list(b)] + [same(a[k], b[k]) for k in b if k in a] if isinstance(a, nnx.State) else []))
    if isinstance(b, (tuple, dict)) and type(a) is type(b) and len(a) == len(b):
      return AND(*[eq(x, y) for x, y in (zip(a, b) if isinstance(b, tuple) else [(a.get(k), b[k]) for k in b])])
    return same(a, b)
  if kind in ('self', 'sub', 'tuple', 'dict', 'state', 'pure', 'root'): c = eq(out, want); c = False if c is None else c
  elif kind == 'method':
    c = callable(out)
    if c: c = AND(same(out(['read', 'sub'], v), want(['read', 'sub'], v)), eq(out.__self__, want.__self__))
  elif kind == 'iterator': c = same(list(out), list(want))
  elif kind == 'def': c = isinstance(out, nnx.ModuleDef) and out == want
  elif kind in ('none', 'not'): c = out is want
  else: c = same(out, want)
  S.check(c, lab, lambda: f"{out!r} vs {want!r}; {txt}")
  c, why = untouched()
  S.check(c, "original untouched", lambda: f"{why}; {txt}")
  if form == 'purecall' or kind == 'method': return
  c, why = g.graphs_same(S, nnx, new if form == 'module' else new.merge(), ref)
  S.check(c, "result holds every update", lambda: f"{why}; {txt}")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  K2 = ['none', 'jarr']
  for f in ('pure', 'module', 'split', 'def1', 'def2', 'purecall'):
    j(f"{f} one statement", "h_apply", form=f, nops=1, kinds=['jarr'] if f == 'split' else ['none', 'int0', 'jarr'], chains=['()', '.sub.meth', '.seq[1].meth', ".d['k']"] if f == 'split' and not T else None)
    if T or f in ('pure', 'module'):
      j(f"{f} two statements", "h_apply", form=f, nops=2, kinds=['jarr'], chains=['()', '.sub.meth', '.seq[1].meth', ".d['k']", '.sub.up.seq[0]'])
    if T and f in ('pure', 'module', 'def1'):
      j(f"{f} three statements", "h_apply", form=f, nops=3, kinds=['jarr'], chains=['()', '.sub.meth'])
  j("pure then apply again", "h_chainstate", form='pure', kinds=['jarr'])
  j("module then apply again", "h_chainstate", form='module', kinds=['jarr'])
  j("reuse of proxies", "h_reuse", kinds=['jarr'])
  j("overlapping parts", "h_overlap", kinds=['jarr'])
  j("kept prefix", "h_prefix")
  j("names", "h_names")
  j("returned objects", "h_returns", kinds=['jarr'] if not T else ['jarr', 'none', 'int0'])
  j("items at the root", "h_item_root", kinds=['jarr', 'none'] if not T else list(SMALL))
  return J
