"""C25 sow"""
import jax
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, SymVal, ALLVALS
from sx import graphs as g

BOUNDS = dict(
  quick="programs of <= 3 operations (sow / pop / pop through a split module / assignment / delete / clone) over 2 names, 3 variable types (one a subclass of another), values of every kind, starting from every kind of existing attribute; a module graph of 2 modules with a shared child; 12 values in a row on a module of a cyclic graph with a clone, split, pop, update or rejected sow at any position",
  thorough="programs of <= 4 operations")
OUTSIDE = "sowing names that are methods of the class"
ASSUMPTIONS = []
WITNESSES = ["values in order", "sow creates a one-element tuple", "other attributes untouched", "sow onto something else raises", "failed sow changes nothing", "pop returns everything sown", "sowing starts afresh"]

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class SubInter(nnx.Intermediate): pass
    class M(nnx.Module):
      def step(self, t, n, v): self.sow(t, n, v)
    _C[id(nnx)] = dict(Intermediate=nnx.Intermediate, SubInter=SubInter, Cache=nnx.Cache, M=M, Node=nnx.Node, Static=nnx.Static, Param=nnx.Param)
  return _C[id(nnx)]

def check_attrs(S, nnx, m, exp, lab, why):
  """exp: name -> ('var', type name, meta, values) | ('raw', v)"""
  C = classes(nnx)
  at = g.raw_attrs(nnx, m)
  S.check(set(at) == set(exp), lab, lambda: f"{why}: attributes {sorted(at)} vs {sorted(exp)}")
  for n, e in exp.items():
    st = at[n]
    if e[0] == 'raw': S.check(same(st, e[1]) if not isinstance(e[1], nnx.Module) else st is e[1], lab, lambda: f"{why}: {n} is {st!r}, expected {e}")
    else:
      ok = type(st) is C[e[1]]
      if ok:
        d = dict(vars(st)); v = d.pop('value')
        ok = AND(same(v, e[3]), same(d, e[2]))
      S.check(ok, lab, lambda: f"{why}: {n} is {st!r}, expected {e}")

EXIST = ['absent', 'sown', 'empty', 'meta', 'meta empty', 'raw', 'list', 'leaf', 'Node tuple', 'Static tuple', 'module', 'Cache']
def existing(S, nnx, m, n, lab, kinds, opts):
  C = classes(nnx)
  k = S.choose(0, lab, values=list(opts))
  if k == 'absent': return None
  v = S.leaf(lab + ".v", [x for x in kinds if not x.startswith('tup')])
  e = dict(sown=('var', 'Intermediate', {'sharding': None}, (v,)), empty=('var', 'Intermediate', {'sharding': None}, ()),
           meta=('var', 'Intermediate', {'sharding': ('x',), 'tag': 1}, (v, v)), raw=('raw', v), list=('var', 'Intermediate', {'sharding': None}, [v]),
           leaf=('var', 'Intermediate', {'sharding': None}, v), Cache=('var', 'Cache', {'sharding': None}, (v,)),
           module=('raw', C['M']()))
  e['meta empty'] = ('var', 'Intermediate', {'sharding': ('x',), 'tag': 1}, ())
  e['Node tuple'] = ('var', 'Node', {}, (v,))
  e['Static tuple'] = ('var', 'Static', {}, (v,))
  e = e[k]
  if e[0] == 'raw': setattr(m, n, e[1])
  else: setattr(m, n, C[e[1]](e[3], **{a: b for a, b in e[2].items() if not (a == 'sharding' and b is None)}))
  return e

def model_sow(S, exp, t, n, v):
  """(new exp, raises)"""
  if n not in exp: return {**exp, n: ('var', t, {'sharding': None}, (v,))}, False
  e = exp[n]
  if e[0] != 'var' or e[1] in ('Node', 'Static') or e[1] != t or type(e[3]) is not tuple: return exp, True
  return {**exp, n: (e[0], e[1], e[2], e[3] + (v,))}, False

def h_program(S, nops=2, kinds=('jarr', 'int'), exist=('absent',), types=('Intermediate', 'SubInter'), names=('h', 'k'), ops=('sow', 'pop', 'set', 'del')):
  nnx = S.nnx
  C = classes(nnx)
  m = C['M']()
  m.other = 3
  m.p = nnx.Param(S.leaf("p", ['jarr']))
  exp = {'other': ('raw', 3), 'p': ('var', 'Param', {'sharding': None}, vars(m)['p'].value)}
  for i, n in enumerate(names):
    e = existing(S, nnx, m, n, f"ex.{n}", list(kinds), exist if i == 0 else ('absent',))
    if e: exp[n] = e
  popped_before = set()
  for k in range(nops):
    op = S.choose(0, f"op{k}", values=list(ops))
    if op == 'sow':
      t, n = S.choose(0, f"t{k}", values=list(types)), S.choose(0, f"n{k}", values=list(names))
      v = S.leaf(f"v{k}", list(kinds))
      new, bad = model_sow(S, exp, t, n, v)
      before = dict(vars(m)); objs = {x: dict(vars(y)) for x, y in before.items() if type(y) is not SymVal and hasattr(type(y), 'is_equivalent')}
      try:
        if S.flip(f"inmethod{k}"): m.step(C[t], n, v)
        else: m.sow(C[t], n, v)
        raised = False
      except Exception as ex:
        if type(ex).__name__ not in ('ValueError', 'TypeError'): raise
        raised = True
      S.check(raised == bad, "sow onto something else raises" if bad else "values in order", lambda: f"sow({t}, {n}, {v!r}) onto {exp.get(n)}: raised={raised}")
      if raised:
        S.reach("failed sow changes nothing")
        S.check(AND(list(vars(m)) == list(before), *[vars(m)[x] is before[x] for x in before]), "failed sow changes nothing", lambda: f"{vars(m)} vs {before}")
        S.check(AND(*[same(dict(vars(before[x])), objs[x]) for x in objs]), "failed sow changes nothing")
      else:
        if n not in exp:
          S.reach("sow creates a one-element tuple")
          if n in popped_before: S.reach("sowing starts afresh")
      exp = new
      check_attrs(S, nnx, m, exp, "failed sow changes nothing" if raised else "values in order", f"sow({t}, {n}, {v!r})")
      S.reach("other attributes untouched")
    elif op == 'pop':
      t = S.choose(0, f"pt{k}", values=list(types))
      st = m.pop_state(C[t])
      hit = {n: e for n, e in exp.items() if e[0] == 'var' and issubclass(C[e[1]], C[t])}
      S.check(list(st) == sorted(hit), "pop returns everything sown", lambda: f"{st} vs {hit}")
      S.check(AND(*[AND(type(st[n]) is C[e[1]], same(vars(st[n])['value'], e[3])) for n, e in hit.items()]), "pop returns everything sown", lambda: f"{st} vs {hit}")
      popped_before |= set(hit)
      exp = {n: e for n, e in exp.items() if n not in hit}
      check_attrs(S, nnx, m, exp, "pop returns everything sown", f"pop({t})")
    elif op == 'set':
      v = S.leaf(f"sv{k}", list(kinds))
      n = names[0]
      setattr(m, n, v)
      e = exp.get(n)
      exp = {**exp, n: ('raw', v) if e is None or e[0] == 'raw' else (e[0], e[1], e[2], v)}
      if type(v) is SymVal and any(x.startswith('tup') for x in v.kinds): return
      check_attrs(S, nnx, m, exp, "other attributes untouched", "set")
    elif op == 'del':
      if names[0] in exp: delattr(m, names[0]); exp = {n: e for n, e in exp.items() if n != names[0]}
    elif op == 'clone':
      m2 = m.clone()
      check_attrs(S, nnx, m2, exp, "values in order", "clone")
      m2.sow(nnx.Intermediate, 'fresh', 1)
      check_attrs(S, nnx, m, exp, "other attributes untouched", "sow on a clone")

def h_graph(S, kinds=('jarr', 'int', 'obj')):
  """sows from a shared submodule in order, collected under one path; functional apply collects them"""
  nnx = S.nnx
  C = classes(nnx)
  r, a, c = C['M'](), C['M'](), C['M']()
  r.a, r.c, a.c = a, c, c
  if S.flip("cycle"): c.up = r
  vs, log = [], {0: (), 1: (), 2: ()}
  mods = [r, a, c]
  routes = [lambda x: x, lambda x: x.a, lambda x: x.c, lambda x: x.a.c]
  def run(root, base):
    for k in range(2):
      i = S.choose(4, f"r{k}.{base}")
      v = S.leaf(f"v{k}.{base}", list(kinds))
      routes[i](root).sow(nnx.Intermediate, 'h', v)
      log[min(i, 2) if i < 3 else 2] += (v,)
  names = {0: 'h', 1: 'a/h', 2: 'a/c/h'}
  run(r, 'x')
  def check(st, why):
    want = {names[i]: log[i] for i in log if log[i]}
    S.check(AND(set(st) == set(want), *[AND(type(st[p]) is nnx.Intermediate, same(vars(st[p])['value'], want[p])) for p in want if p in st]), "values in order", lambda: f"{why}: {st} vs {want}")
  check(r.filter(nnx.Intermediate), "direct")
  check(r.partition(nnx.Intermediate, ...).states[0], "split")
  if S.flip("pop"):
    st = r.pop_state(nnx.Intermediate)
    check(st, "pop returns everything sown")
    S.check(len(r.filter(nnx.Intermediate)) == 0, "pop returns everything sown")
    for i in log: log[i] = ()
    run(r, 'y')
    S.reach("sowing starts afresh")
    check(r.filter(nnx.Intermediate), "after pop")

def h_many(S, n=12):
  """many values, an interruption at any position"""
  nnx = S.nnx
  C = classes(nnx)
  m = C['M'](); m.kid = C['M'](); m.kid.up = m
  t = m if S.flip("on the root") else m.kid
  at = S.choose(n, "at")
  how = S.choose(0, "how", values=['nothing', 'clone', 'split', 'update', 'pop', 'pop other', 'other name', 'rejected', 'apply'])
  want, other = [], []
  for i in range(n):
    v = S.leaf(f"v{i}", ['jarr', 'int', 'tup0'] if i in (0, at) else ['int'])
    if i == at and how != 'nothing':
      kid = t is not m
      if how in ('clone', 'split', 'update'):
        if how == 'clone': m = m.clone()
        elif how == 'split':
          p = m.partition(nnx.Param, nnx.Intermediate, ...)
          m = p.merge()
        else: m.update_state(m.get_state())
        t = m.kid if kid else m
      elif how == 'pop':
        st = m.pop_state(nnx.Intermediate)
        key = 'kid/h' if kid else 'h'
        S.check(list(st) == ([key] if want else []), "pop returns everything sown", lambda: f"{st}")
        if want: S.check(AND(len(st[key].value) == len(want), *[same(a, b) for a, b in zip(st[key].value, want)]), "pop returns everything sown", lambda: f"{st}")
        want = []
      elif how == 'pop other': S.check(len(m.pop_state(nnx.Cache)) == 0, "pop returns everything sown")
      elif how == 'other name':
        t.sow(nnx.Intermediate, 'h2', v); other.append(v)
        t.sow(nnx.Cache, 'h_', v)
      elif how == 'rejected':
        try: t.sow(nnx.Cache, 'h', v); bad = not want
        except ValueError: bad = bool(want)
        S.check(bad, "sow onto something else raises", lambda: f"{i}")
        if not want: t.pop_state(nnx.Cache)
      else:
        _, p = t.apply.step(nnx.Intermediate, 'h', v)
        q = p.merge() if isinstance(p, nnx.Pure) else p
        S.check(AND(len(q.h) == len(want) + 1, *[same(a, b) for a, b in zip(q.h, want + [v])]), "values in order", lambda: f"{q.h}")
    t.sow(nnx.Intermediate, 'h', v); want.append(v)
    h = vars(t)['h']
    S.check(AND(type(h) is nnx.Intermediate, type(h.value) is tuple, len(h.value) == len(want), *[same(a, b) for a, b in zip(h.value, want)]), "values in order", lambda: f"{i} {how} at {at}: {h} expected {want}")
  if other: S.check(AND(len(t.h2) == 1, same(t.h2[0], other[0]), len(t.h_) == 1), "other attributes untouched")

def jobs(tier):
  J = []
  T = tier == 'thorough'
  def j(name, fn, **cfg): J.append(dict(name=name, fn=fn, cfg=cfg))
  j("programs", "h_program", nops=3, types=['Intermediate', 'SubInter'])
  j("existing", "h_program", nops=2, exist=EXIST, types=['Intermediate', 'SubInter', 'Cache'], ops=['sow', 'pop'])
  j("value kinds", "h_program", nops=2, kinds=ALLVALS, ops=['sow'], types=['Intermediate', 'Cache'], exist=['absent', 'raw', 'leaf', 'sown'])
  j("clones", "h_program", nops=2, ops=['sow', 'clone'], types=['Intermediate'])
  j("graph", "h_graph")
  j("many values", "h_many")
  if T:
    j("programs 4", "h_program", nops=4, types=['Intermediate', 'SubInter'], ops=['sow', 'pop', 'set'], kinds=['jarr'])
    j("existing 3", "h_program", nops=3, exist=EXIST, types=['Intermediate', 'Cache'], ops=['sow', 'pop'], kinds=['int'])
  return J
