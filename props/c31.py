"""C31 printing modules, states, definitions, containers and views"""
import sys
import jax, jax.numpy as jnp
import numpy as np
from sx.engine import AND, OR, NOT
from sx.proxies import SymVal
from sx import graphs as g, sched
from props.c01 import NAMES

BOUNDS = dict(
  quick="graphs of <= 3 modules with <= 2+1+1 attributes (submodules with sharing and cycles, static values of symbolic kind, variables, arrays, private names), chains of 7 modules and modules with 12 attributes; containers, states, definitions, split modules, pytrees and views of them; one attribute whose own printing raises or prints other modules, at any place of graphs of 3 modules; two threads printing modules that share submodules, with every placement of one preemption between bytecodes that touch shared state",
  thorough="the same with more kinds of values, two preemptions and three threads")
OUTSIDE = "the exact layout (indentation, separators) of the text; what is printed for private static attributes and for node attributes of a module; preemptions inside jax or the interpreter"
ASSUMPTIONS = ["the text of a static attribute's value is an uninterpreted line without line breaks (paths with symbolic kinds), or that of a representative of its kind"]
WITNESSES = ["module text is complete", "cycles end", "printing changes nothing", "same text every time", "containers name their metadata", "state text is complete", "definition text is complete", "views can be printed", "pytrees can be printed", "failed prints leave nothing behind", "prints inside prints", "threads print independently", "printing under a trace"]

def lines(t): return [l.strip() for l in t.split("\n")]

def printed(S, nnx, m):
  """names of the attributes that are printed for sure: submodules and public static attributes"""
  out = []
  for n, v in g.raw_attrs(nnx, m).items():
    if isinstance(v, nnx.Module): out.append(n)
    elif not n.startswith("_") and not is_node(S, nnx, v): out.append(n)
  return out
def is_node(S, nnx, v):
  if isinstance(v, nnx.Static): return False
  return isinstance(v, nnx.Node) or g.isnode(S, v)

def check_text(S, nnx, root, t, lab):
  """class names and attributes of every module that can be reached are printed, each once"""
  mods = g.graph_modules(nnx, root)
  S.check(t.startswith(type(root).__name__), lab, lambda: t)
  want, maybe = {}, set()
  for m in mods:
    sure = printed(S, nnx, m)
    for n in g.raw_attrs(nnx, m):
      if n in sure: want[n] = want.get(n, 0) + 1
      else: maybe.add(n)
  L = lines(t)
  for n, k in want.items():
    c = sum(1 for l in L if l.startswith(n + "="))
    S.check(c >= k if n in maybe else c == k, lab, lambda: f"attribute {n} printed {c} times, {k} modules have it:\n{t}")
  for m in mods:
    for n in printed(S, nnx, m):
      v = g.raw_attrs(nnx, m)[n]
      if isinstance(v, nnx.Module): ok = any(l.startswith(f"{n}={type(v).__name__}(") for l in L)
      else: ok = text_of(v, t)
      S.check(ok, lab, lambda: f"value {v!r} of {n} missing in\n{t}")

def text_of(v, t):
  rs = [repr(v)] + ([v] if type(v) is str else [])
  return any(all(l.strip() in t for l in r.split("\n")) for r in rs)

def printable(S, nnx, m, lab):
  t = repr(m)
  S.check(type(t) is str, lab)
  S.check(t == repr(m), "same text every time", lambda: f"{t}\n{m!r}")
  S.check(t == str(m), "same text every time")
  return t

def h_module(S, nmod=3, slots=(2, 1, 1), leafopts=('raw', 'params'), kinds=('jarr', 'int', 'none', 'tup'), names=0, where=('here',)):
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, slots if isinstance(slots, int) else list(slots), NAMES[names], leafopts, kinds)
  objs = g.build(S, nnx, spec)
  at = S.choose(0, "where", values=list(where))
  def go():
    snap = [g.freeze(nnx, o) for o in objs]
    sd = nnx_split(objs[0])
    for i, o in enumerate(objs):
      t = printable(S, nnx, o, "module text is complete")
      check_text(S, nnx, o, t, "module text is complete")
    if any(s.kind == 'mod' and s.idx == 0 for m in spec.mods for s in m.attrs.values()): S.reach("cycles end")
    t = printable(S, nnx, sd[0], "state text is complete")
    S.check(t.startswith("State"), "state text is complete")
    for p, v in sd[0].items():
      S.check(repr(p) in t, "state text is complete", lambda: f"{p} missing in {t}")
      S.check(type(v).__name__ in t if isinstance(v, nnx.Node) else text_of(v, t), "state text is complete", lambda: f"{p} {v!r}: {t}")
    t = printable(S, nnx, sd[1], "definition text is complete")
    mods = g.graph_modules(nnx, objs[0])
    for m in mods:
      S.check(type(m).__name__ in t, "definition text is complete", lambda: t)
      for n, v in g.raw_attrs(nnx, m).items():
        if isinstance(v, nnx.Module): S.check(repr(n) in t, "definition text is complete", lambda: f"submodule {n}: {t}")
        elif not is_node(S, nnx, v): S.check(repr(n) in t, "definition text is complete", lambda: f"static {n}: {t}")
    printable(S, nnx, objs[0].partition(), "definition text is complete")
    views = objs[0].mutable_state_dict()
    t = printable(S, nnx, views, "views can be printed")
    for p, v in views.items():
      S.check(AND(repr(p) in t, text_of(v.value, printable(S, nnx, v, "views can be printed"))), "views can be printed", lambda: f"{p}: {v!r}")
    S.reach("views can be printed")
    for o, s in zip(objs, snap):
      ok, why = g.frozen_same(S, nnx, o, s)
      S.check(ok, "printing changes nothing", lambda: why)
  if at == 'here': go()
  else:
    S.reach("printing under a trace")
    before = [repr(o) for o in objs]
    jax.eval_shape(lambda: (go(), [S.check(repr(o) == b, "printing under a trace", lambda: f"{b} {o!r}") for o, b in zip(objs, before)], 0)[2])
    S.check([repr(o) for o in objs] == before, "printing under a trace")

def nnx_split(m):
  p = m.partition()
  return p.states, p.moduledef

def h_container(S, kinds=('jarr', 'int', 'none', 'str', 'list', 'nparr0z')):
  nnx = S.nnx
  C = g.classes(nnx)
  cls = S.choose(0, "cls", values=['Param', 'BatchStat', 'Node', 'Custom', 'Static', 'Variable', 'Intermediate'])
  v = S.leaf("v", list(kinds))
  meta = {}
  if cls != 'Static':
    if S.flip("m"): meta['tag'] = S.leaf("tag", list(kinds))
    if S.flip("m2"): meta['other'] = S.leaf("other", ['none', 'str0', 'tup'])
    if cls != 'Node' and S.flip("sh"): meta['sharding'] = ('a', None)
  c = C[cls](v, **meta)
  old = dict(vars(c))
  t = printable(S, nnx, c, "containers name their metadata")
  S.check(t.startswith(C[cls].__name__ + "("), "containers name their metadata", lambda: t)
  for n, x in dict(meta, value=v).items():
    S.check(AND(sum(1 for l in lines(t) if l.startswith(n + "=")) == 1, text_of(x, t)), "containers name their metadata", lambda: f"{n} of {t}")
  S.check(AND(list(vars(c)) == list(old), *[vars(c)[k] is x for k, x in old.items()]), "printing changes nothing")
  st = nnx.State({'p': c if cls != 'Static' else 3, 'q/r': C['Param'](v)})
  t2 = printable(S, nnx, st, "state text is complete")
  for x in ("'p'", "'q/r'"): S.check(x in t2, "state text is complete", lambda: t2)
  class P(nnx.Pytree, mutable=True):
    def __init__(self, a, b): self.a, self.b = a, b
  p = P(v, c)
  pold = dict(vars(p))
  t3 = printable(S, nnx, p, "pytrees can be printed")
  S.check(AND(t3.startswith("P"), *[any(l.startswith(n + "=") for l in lines(t3)) for n in 'ab']), "pytrees can be printed", lambda: t3)
  S.check(AND(list(vars(p)) == list(pold), *[vars(p)[k] is x for k, x in pold.items()]), "printing changes nothing")

CLASSNAMES = ['A', '_A', '__A', 'A_', '_A_', '__A__', 'a', 'Module', 'ModuleDef', 'State', 'A1_b2', 'Ä', 'M' * 40, 'M' * 120]
def h_classnames(S):
  """classes of any name: the name is printed as it is, for modules, variables and pytrees, at the root and below"""
  nnx = S.nnx
  n1, n2 = S.choose(0, "name", values=CLASSNAMES), S.choose(0, "below", values=CLASSNAMES)
  kind = S.choose(0, "kind", values=['module', 'pytree', 'param', 'node'])
  M = type(n2, (nnx.Module,), {})
  if kind == 'module': x = type(n1, (nnx.Module,), {})(); x.s = M(); x.t = x.s; x.k = 3
  elif kind == 'pytree':
    def init(self, **kw): 
      for k, v in kw.items(): setattr(self, k, v)
    x = type(n1, (nnx.Pytree,), dict(__init__=init))(k=3, p=type(n2, (nnx.Pytree,), dict(__init__=init))(q=1))
  else: x = type(n1, ((nnx.Param if kind == 'param' else nnx.Node),), {})(7, tag=nnx.Static(1) if S.flip("m") else 2)
  t = printable(S, nnx, x, "module text is complete")
  L = lines(t)
  S.check(t.startswith(n1 + "("), "module text is complete", lambda: f"class {n1!r}: {t}")
  if kind == 'module':
    S.check(any(l.startswith(f"s={n2}(") for l in L), "module text is complete", lambda: f"class {n2!r}: {t}")
    md = x.get_module_def()
    t = printable(S, nnx, md, "definition text is complete")
    S.check(any(l in (f"type={n1},", f"type={n1}") for l in lines(t)) and any(l in (f"type={n2},", f"type={n2}") for l in lines(t)), "definition text is complete", lambda: f"classes {n1!r}, {n2!r}: {t}")
  elif kind == 'pytree':
    S.check(any(l.startswith(f"p={n2}(") for l in L), "pytrees can be printed", lambda: f"class {n2!r}: {t}")

class Boom(Exception): pass

def h_failing(S, nmod=3, slots=(2, 1, 1), names=0):
  """an attribute whose own text cannot be made, or is made by printing modules: later prints are as ever"""
  nnx = S.nnx
  spec = g.choose_spec(S, nmod, list(slots) if not isinstance(slots, int) else slots, NAMES[names], ['raw'], ['int'])
  objs = g.build(S, nnx, spec)
  reach = spec.reachable()
  before = {i: repr(objs[i]) for i in reach}
  at = S.choose(0, "at", values=reach)
  how = S.choose(0, "how", values=['raise', 'raise and catch', 'prints root', 'prints itself', 'prints other', 'first'])
  keep = S.choose(0, "keep", values=[True, False])
  other = g.classes(nnx)['B'](); other.z = 1; other.me = other
  othertext = repr(other)
  class Odd:
    def __repr__(self):
      if how in ('raise', 'first'): raise Boom()
      if how == 'raise and catch':
        class In:
          def __repr__(self): raise Boom()
        x = g.classes(nnx)['B'](); x.i = In(); x.k = objs[0]
        try: repr(x)
        except Boom: return "<caught>"
        return "<not raised>"
      if how == 'prints root': return "<" + repr(objs[0]).replace("\n", " ") + ">"
      if how == 'prints itself': return "<" + repr(objs[at]).replace("\n", " ") + ">"
      return "<" + repr(other).replace("\n", " ") + ">"
  if how == 'first':
    old = dict(g.raw_attrs(nnx, objs[at]))
    for n in old: delattr(objs[at], n)
    objs[at].odd = Odd()
    for n, v in old.items(): setattr(objs[at], n, v)
  else: objs[at].odd = Odd()
  held = None
  for i in reach:
    try: t = repr(objs[i])
    except Boom as ex:
      held = ex if keep else None
      S.check(how in ('raise', 'first'), "prints inside prints", "raised")
    else:
      check_text_odd(S, nnx, objs[i], t, how)
    if repr(other) != othertext: S.check(False, "failed prints leave nothing behind", f"{other!r} instead of {othertext}")
  del objs[at].odd
  if how == 'first':
    for o in objs: pass
  for i in reach:
    S.check(repr(objs[i]) == before[i], "failed prints leave nothing behind" if how in ('raise', 'first') else "prints inside prints", lambda: f"{objs[i]!r} instead of {before[i]}")
  S.reach("failed prints leave nothing behind"); S.reach("prints inside prints")
  del held

def check_text_odd(S, nnx, root, t, how):
  """an attribute that prints modules itself does not disturb the text around it"""
  if how == 'prints other':
    S.check("z=1" in t or all(not hasattr(m, 'odd') for m in g.graph_modules(nnx, root)), "prints inside prints", lambda: t)
  if how in ('raise and catch', 'prints other'):
    if how == 'raise and catch': S.check("<not raised>" not in t, "prints inside prints", lambda: t)

_STEPS = {}
def h_threads(S, npre=1, shape='shared', part=(0, 1), n=2):
  nnx = S.nnx
  C = g.classes(nnx)
  A, B = C['A'], C['B']
  shared = B(); shared.leaf = 5
  deep = A(); deep.inner = shared; deep.x = 'u'
  roots = []
  for i in range(n):
    r = A(); r.a = shared; r.b = deep; r.n = i
    if shape == 'cyclic': r.me = r
    roots.append(r)
  if shape == 'same': roots = [roots[0]] * n
  if shape == 'state': roots = [nnx_split(r)[1] if i else r for i, r in enumerate(roots)]
  if shape == 'container': roots = [nnx.Param(3, sharding=('a',)), roots[0]][:n]
  want = [repr(r) for r in roots]
  fns = [lambda r=r: repr(r) for r in roots]
  key = (id(nnx), shape, n)
  if key not in _STEPS:
    r = sched.Run(fns, []); r.run(); r = sched.Run(fns, []); r.run(); _STEPS[key] = r.step
  N = _STEPS[key]
  pts, lo = [], 1
  for k in range(npre):
    cand = [q for q in range(lo, N + 1) if k or q % part[1] == part[0]]
    if not cand: break
    p = S.choose(0, f"preempt{k}", values=cand)
    pts.append(p); lo = p + 1
  outs = sched.Run(fns, pts).run()
  for o, w in zip(outs, want): S.check(o == w, "threads print independently", lambda: f"{o} instead of {w}")
  for r, w in zip(roots, want): S.check(repr(r) == w, "threads print independently", lambda: f"afterwards {r!r}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, world=None, **cfg):
    d = dict(name=name, fn=fn, cfg=cfg)
    if world: d['world'] = world
    J.append(d)
  j("modules", "h_module")
  j("modules private", "h_module", nmod=2, slots=[2, 2], names=2, leafopts=['raw', 'static'], kinds=['obj', 'str', 'float', 'false', 'jarr'])
  j("modules leaves", "h_module", nmod=2, slots=[2, 1], leafopts=['raw', 'nodem', 'static'], kinds=['list', 'str', 'str0', 'dict', 'nparr'])
  j("modules jit", "h_module", nmod=2, slots=[2, 1], kinds=['jarr', 'int'], where=['jit'])
  for shape in ('deep', 'wide'):
    j(f"modules {shape}", "h_module", nmod=shape, leafopts=['raw', 'params'], kinds=['int', 'jarr'])
  j("containers", "h_container")
  j("class names", "h_classnames")
  j("failing", "h_failing")
  for s in ('shared', 'same', 'cyclic', 'state', 'container'):
    j(f"threads {s}", "h_threads", world='plain', shape=s, npre=1)
  if T:
    j("modules four", "h_module", nmod=4, slots=[2, 1, 1, 1], kinds=['int'])
    for i in range(8): j(f"threads shared two {i}", "h_threads", world='plain', shape='shared', npre=2, part=[i * 7, 56])
    j("threads three", "h_threads", world='plain', shape='shared', npre=1, n=3)
  return J
