"""C21 logical axis rules"""
import threading
import jax, numpy as np
from jax.sharding import PartitionSpec as P, Mesh
from sx.engine import AND, OR, NOT, IFF
from sx.proxies import same, choose_name, SymName

BOUNDS = dict(
  quick="<= 3 dimensions, each None or an arbitrary name, and <= 3 rules from an arbitrary name to None, an arbitrary mesh axis or a tuple of <= 2 of them (all equality patterns of the names decided by the solver; names are opaque); trees of specs of <= 3 nodes; nestings of <= 3 rule scopes left normally or by an exception at every point, re-entered, used as decorators and seen from other threads; sharding constraints on a one-device mesh with <= 2 dimensions and <= 3 rules",
  thorough="<= 4 dimensions, <= 4 rules")
OUTSIDE = "rules whose logical name is not a string; meshes of several devices"
ASSUMPTIONS = ["axis names are used by equality only (an operation looking inside a name is reported as an error, then repeated on solver-chosen concrete names)"]
WITNESSES = ["first applicable rule", "unassigned dimension is unsharded", "mesh axis used once", "duplicate dimensions rejected", "None spec", "explicit rules override", "empty explicit rules override", "ambient rules used", "rules in force inside", "restored on exit", "restored on exception", "other threads are not affected", "tree structure kept", "constraint uses the mesh axes", "no rules is a no-op", "fallback raises", "fallback leaves unconstrained", "shardings of the mesh"]

def spec_fn(nnx):
  import sys
  m = sys.modules.get("nnx.spmd")
  return getattr(m, "logical_to_mesh_axes", None)

def dims_(S, n, K):
  k = S.choose(n + 1, "ndims")
  return tuple(None if S.flip(f"d{i}none") else choose_name(S, f"d{i}", K) for i in range(k))

def mesh_(S, lab, K, tup):
  k = S.choose(0, lab + "k", values=['name', 'none'] + [f"tup{j}" for j in range(tup + 1)])
  if k == 'name': return choose_name(S, lab, K)
  if k == 'none': return None
  return tuple(choose_name(S, f"{lab}_{j}", K) for j in range(int(k[3:])))

def rules_(S, n, K, KM, tup, lab="r", exact=None):
  k = exact if exact is not None else S.choose(n + 1, lab + "n")
  return tuple((choose_name(S, f"{lab}{i}", K), mesh_(S, f"{lab}m{i}", KM, tup)) for i in range(k))

def eq(a, b):
  return bool(a == b)

def names_of(x):
  if x is None: return []
  if isinstance(x, tuple): return [q for y in x for q in names_of(y)]
  return [x]

def reference(dims, rules):
  """None | list of assignments, or 'dup'"""
  if dims is None: return None
  for i in range(len(dims)):
    for j in range(i):
      if dims[i] is not None and dims[j] is not None and eq(dims[i], dims[j]): return 'dup'
  out = [None] * len(dims)
  got = [False] * len(dims)
  used = []
  for name, mesh in rules:
    for i, d in enumerate(dims):
      if d is None or got[i] or not eq(d, name): continue
      if any(eq(a, b) for a in names_of(mesh) for b in used): continue
      out[i], got[i] = mesh, True
      used += names_of(mesh)
  return out, got

def call(f, *a, **k):
  try: return f(*a, **k), None
  except ValueError as ex: return None, ex

def agree(S, r, err, ref, dims, lab="first applicable rule"):
  if ref == 'dup':
    S.check(err is not None, "duplicate dimensions rejected", lambda: f"{dims} -> {r}")
    return
  S.check(err is None, lab, lambda: f"{err!r}")
  out, got = ref
  S.check(isinstance(r, P) and len(r) == len(out), lab, lambda: f"{r} {out}")
  for i in range(len(out)):
    S.check(same(r[i], out[i]), lab if got[i] else "unassigned dimension is unsharded", lambda: f"{dims}: {r} expected {out}")
  flat = [(i, n) for i in range(len(r)) for n in names_of(r[i])]
  for a in range(len(flat)):
    for b in range(a):
      if flat[a][0] != flat[b][0]: S.check(NOT(flat[a][1] == flat[b][1]), "mesh axis used once", lambda: f"{r}")
  S.reach("mesh axis used once")

def h_axes(S, nd=3, nr=3, tup=2, exact=None, listdims=False):
  nnx = S.nnx
  dims = dims_(S, nd, nd + nr)
  rules = rules_(S, nr, nd + nr, max(1, nr * max(1, tup)), tup, exact=exact)
  if S.flip("list"): rules = list(rules)
  dup = any(0 for _ in ())
  spec = P(*dims)
  r, err = call(nnx.logical_to_mesh, spec, rules)
  ref = reference(dims, rules)
  agree(S, r, err, ref, dims)
  f = spec_fn(nnx)
  if f is not None:
    r, err = call(f, dims, rules)
    agree(S, r, err, ref, dims)
    S.check(f(None, rules) is None, "None spec")
  else: S.reach("None spec")

def h_ambient(S, nd=2, nr=2, tup=1):
  nnx = S.nnx
  K = nd + 2 * nr
  dims = dims_(S, nd, K)
  amb = rules_(S, nr, K, 2 * nr, tup, "a")
  exp = rules_(S, nr, K, 2 * nr, tup, "e")
  with nnx.logical_axis_rules(amb):
    r, err = call(nnx.logical_to_mesh, P(*dims))
    agree(S, r, err, reference(dims, amb), dims, "ambient rules used")
    r, err = call(nnx.logical_to_mesh, P(*dims), exp)
    agree(S, r, err, reference(dims, exp), dims, "explicit rules override" if exp else "empty explicit rules override")
    r, err = call(nnx.logical_to_mesh, P(*dims), rules=exp)
    agree(S, r, err, reference(dims, exp), dims, "explicit rules override" if exp else "empty explicit rules override")
  S.reach("explicit rules override"); S.reach("ambient rules used")
  r, err = call(nnx.logical_to_mesh, P(*dims))
  agree(S, r, err, reference(dims, ()), dims, "restored on exit")

class Boom(Exception): pass

def h_scopes(S, depth=3, threads=True):
  """programs of nested / sequential scopes; after every step the rules in force are the innermost open ones"""
  nnx = S.nnx
  pool = [((f"d", f"m{i}"),) for i in range(4)]
  f = nnx.logical_to_mesh
  def now():
    r = f(P("d"))
    return r[0]
  base = S.choose(0, "outer", values=['none', 'rules'])
  import sys
  sp = sys.modules.get("nnx.spmd")
  setr, getr = (getattr(sp, k, None) for k in ("set_logical_axis_rules", "get_logical_axis_rules"))
  def body(cur, d, lab):
    S.check(now() == cur, "rules in force inside", lambda: f"{now()} {cur}")
    if getr: S.check(dict(getr()).get("d") == cur, "rules in force inside", lambda: f"{getr()} {cur}")
    if setr and d == depth - 1 and S.flip(f"{lab}set"):   # set for the rest of the scope
      setr(pool[2] if cur != "m2" else ())
      cur = "m2" if cur != "m2" else None
      S.check(now() == cur, "rules in force inside", lambda: f"after setting: {now()} {cur}")
    for k in range(2 if lab == "p" else 1):
      act = S.choose(0, f"{lab}a{k}", values=['stop', 'enter', 'raise'] + (['use ctx object', 'decorated', 'generator'] if d == depth else []) if d else ['stop', 'raise'])
      if act == 'stop': return
      if act == 'raise': raise Boom()
      i = d % 3
      if act == 'enter' and S.flip(f"{lab}e{k}"): rules, inner = (), None
      else: rules, inner = pool[i], f"m{i}"
      def go():
        if act == 'enter':
          with nnx.logical_axis_rules(rules): body(inner, d - 1, f"{lab}{k}")
        elif act == 'use ctx object':
          cm = nnx.logical_axis_rules(rules)
          S.check(now() == cur, "rules in force inside")
          with cm: body(inner, d - 1, f"{lab}{k}")
        elif act == 'decorated':
          @nnx.logical_axis_rules(rules)
          def g(): body(inner, d - 1, f"{lab}{k}")
          S.check(now() == cur, "rules in force inside")
          g()
        else:
          def gen():
            with nnx.logical_axis_rules(rules):
              body(inner, 0, f"{lab}{k}")
              yield now()
          it = gen()
          S.check(next(it) == inner, "rules in force inside")
          it.close()
      try: go()
      except Boom:
        S.check(now() == cur, "restored on exception", lambda: f"{now()} {cur}")
        if not S.flip(f"{lab}c{k}"): raise
      S.check(now() == cur, "restored on exit", lambda: f"{now()} {cur}")
  if threads:
    res = []
    with nnx.logical_axis_rules(pool[3]):
      t = threading.Thread(target=lambda: res.append(now())); t.start(); t.join()
    S.check(res == [None], "other threads are not affected", lambda: f"{res}")
  def top():
    start = now()
    S.check(start is None, "restored on exit", "left over")
    if base == 'rules':
      with nnx.logical_axis_rules(pool[3]):
        try:
          with nnx.logical_axis_rules(pool[3]): body("m3", depth, "p")
        except Boom: pass
        S.check(now() == "m3", "restored on exception")
    else:
      try:
        with nnx.logical_axis_rules(()): body(None, depth, "p")
      except Boom: pass
    S.check(now() is None, "restored on exception")
  top()

def h_tree(S, nd=2, nr=2):
  nnx = S.nnx
  K = 2 * nd + nr
  shapes = ['dict', 'tuple', 'list', 'state', 'nested', 'leaf', 'none', 'empty']
  sh = S.choose(0, "shape", values=shapes)
  a = P(*dims_(S, nd, K))
  b = P() if sh in ('leaf', 'none') else P(*((choose_name(S, "bname", K),) if S.flip("bdims") else (None,)))
  rules = rules_(S, nr, K, 2 * nr, 1)
  mk = dict(dict=lambda x, y: dict(p=x, q=y), tuple=lambda x, y: (x, y), list=lambda x, y: [x, y], state=lambda x, y: nnx.State({'u': x, 'w/z': y}),
            nested=lambda x, y: {'k': (x, [None, {'m': y}])}, leaf=lambda x, y: x, none=lambda x, y: {'k': x, 'n': None}, empty=lambda x, y: {'k': {}, 'x': x, 'y': y, 'l': []})[sh]
  ra, rb = reference(tuple(a), rules), reference(tuple(b), rules)
  if S.flip("ambient"):
    with nnx.logical_axis_rules(rules): r, err = call(nnx.logical_to_mesh, mk(a, b))
  else:
    with nnx.logical_axis_rules(((a[0] if len(a) else 'q', 'other'),)): r, err = call(nnx.logical_to_mesh, mk(a, b), rules)
  if ra == 'dup':
    S.check(err is not None, "duplicate dimensions rejected"); return
  S.check(err is None, "tree structure kept", lambda: repr(err))
  want = mk(P(*ra[0]), P(*rb[0]))
  isp = lambda x: isinstance(x, P)
  l1, t1 = jax.tree_util.tree_flatten(r, is_leaf=isp)
  l2, t2 = jax.tree_util.tree_flatten(want, is_leaf=isp)
  S.check(t1 == t2, "tree structure kept", lambda: f"{t1} {t2}")
  S.check(AND(len(l1) == len(l2), *[isp(x) and len(x) == len(y) and same(tuple(x), tuple(y)) for x, y in zip(l1, l2)]), "tree structure kept", lambda: f"{r} {want}")

def h_constraint(S, nd=2, nr=3, fallback=None, ambient=False):
  """the constraint put on an array under a (one device) mesh is the translated spec"""
  nnx = S.nnx
  import sys
  RF = getattr(sys.modules.get("nnx.spmd"), "RulesFallback", None)
  D = ['a', 'b', None, 'c']
  dims = tuple(S.choose(0, f"d{i}", values=D) for i in range(nd))
  ruleset = S.choose(nr + 1, "nrules")
  RN, RM = ['a', 'b'], ['x', 'y', ('x', 'y'), None, ('x',)]
  rules = tuple((S.choose(0, f"r{i}", values=RN), S.choose(0, f"m{i}", values=RM)) for i in range(ruleset))
  mesh = Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('x', 'y'))
  how = S.choose(0, "how", values=['explicit', 'ambient'])
  tree = S.flip("tree")
  fb = S.choose(0, "fb", values=['default', 'AXIS_IS_UNSHARDED', 'RAISE_ERROR', 'NO_CONSTRAINT'] if RF is not None else ['default'])
  kw = {} if fb == 'default' else dict(fallback=getattr(RF, fb))
  def f(x):
    d = {'k': x} if tree else x
    s = {'k': dims} if tree else dims
    if how == 'explicit':
      with nnx.logical_axis_rules((('c', 'x'),)): return nnx.with_logical_constraint(d, s, rules=rules, mesh=mesh, **kw)
    with nnx.logical_axis_rules(rules): return nnx.with_logical_constraint(d, s, mesh=mesh, **kw)
  ref = reference(dims, rules)
  x = np.zeros((1,) * nd, np.float32)
  try: jp, err = jax.make_jaxpr(f)(x), None
  except ValueError as ex: jp, err = None, ex
  if not rules:
    S.check(err is None and not jp.eqns, "no rules is a no-op", lambda: f"{jp} {err}"); return
  if ref == 'dup':
    S.check(err is not None, "duplicate dimensions rejected"); return
  out, got = ref
  if not all(got) and fb == 'RAISE_ERROR':
    S.check(err is not None, "fallback raises", lambda: f"{dims} {rules} {jp}"); return
  S.check(err is None, "constraint uses the mesh axes", lambda: repr(err))
  if not all(got) and fb == 'NO_CONSTRAINT':
    S.check(not jp.eqns, "fallback leaves unconstrained", lambda: f"{jp}"); return
  S.check(len(jp.eqns) == 1 and jp.eqns[0].primitive.name == 'sharding_constraint', "constraint uses the mesh axes", lambda: f"{jp}")
  sh = jp.eqns[0].params['sharding']
  def norm(t): return tuple(tuple(names_of(q)) for q in t)
  want = norm(out)
  idx = sh.devices_indices_map  # sharding made from the spec
  spec = getattr(sh, 'spec', None)
  if spec is None:
    try: spec = sh._original_sharding.spec if hasattr(sh, '_original_sharding') else None
    except Exception: spec = None
  if spec is not None:
    have = norm(tuple(spec)); have = have + ((),) * (nd - len(have))
    S.check(have == want, "constraint uses the mesh axes", lambda: f"{have} {want} for {dims} {rules}")
  nt = nnx.with_logical_constraint(x, None, rules=rules, mesh=mesh)
  S.check(nt is x, "no rules is a no-op")

def h_sharding(S, nr=2):
  """trees of specs to trees of shardings of a (one device) mesh, by explicit or ambient rules"""
  nnx = S.nnx
  import sys
  fn = getattr(sys.modules.get("nnx.spmd"), "logical_to_mesh_sharding", None)
  S.reach("shardings of the mesh")
  if fn is None: return
  D = ['a', 'b', None, 'c']
  dims = tuple(S.choose(0, f"d{i}", values=D) for i in range(2))
  RN, RM = ['a', 'b'], ['x', 'y', ('x', 'y'), None]
  rules = tuple((S.choose(0, f"r{i}", values=RN), S.choose(0, f"m{i}", values=RM)) for i in range(S.choose(nr + 1, "nrules")))
  mesh = Mesh(np.array(jax.devices()[:1]).reshape(1, 1), ('x', 'y'))
  how = S.choose(0, "how", values=['positional', 'keyword', 'ambient'])
  sh = S.choose(0, "shape", values=['leaf', 'dict', 'state', 'nested', 'empty'])
  mk = dict(leaf=lambda x, y: x, dict=lambda x, y: dict(p=x, q=y), state=lambda x, y: nnx.State({'u': x, 'w/z': y}), nested=lambda x, y: (x, [None, {'m': y}]), empty=lambda x, y: {'k': {}, 'x': x, 'l': ()})[sh]
  t = mk(P(*dims), P('b'))
  ra, rb = reference(dims, rules), reference(('b',), rules)
  with nnx.logical_axis_rules(rules if how == 'ambient' else (('a', 'y'), ('c', 'x'), ('b', 'x'))):
    r, err = call(fn, t, mesh) if how == 'ambient' else call(fn, t, mesh, rules) if how == 'positional' else call(fn, t, mesh=mesh, rules=rules)
  txt = f"{dims} {rules} {how} {sh}"
  if ra == 'dup':
    S.check(err is not None, "duplicate dimensions rejected", lambda: f"{r}; {txt}"); return
  S.check(err is None, "shardings of the mesh", lambda: f"{err!r}; {txt}")
  isl = lambda x: isinstance(x, (P, jax.sharding.Sharding))
  l1, t1 = jax.tree_util.tree_flatten(r, is_leaf=isl)
  l2, t2 = jax.tree_util.tree_flatten(mk(P(*ra[0]), P(*rb[0])), is_leaf=isl)
  S.check(t1 == t2, "tree structure kept", lambda: f"{t1} {t2}; {txt}")
  for x, y in zip(l1, l2):
    S.check(isinstance(x, jax.sharding.NamedSharding) and x.mesh == mesh and tuple(tuple(names_of(q)) for q in x.spec) == tuple(tuple(names_of(q)) for q in y), "shardings of the mesh", lambda: f"{x} vs {y}; {txt}")

def jobs(tier):
  T = tier == 'thorough'
  J = []
  def j(name, fn, world=None, **cfg):
    d = dict(name=name, fn=fn, cfg=cfg)
    if world: d['world'] = world
    J.append(d)
  j("two dims two rules", "h_axes", nd=2, nr=2, tup=2)
  j("three dims three rules", "h_axes", nd=3, nr=3, tup=0)
  j("two dims three rules", "h_axes", nd=2, nr=3, tup=1)
  j("ambient", "h_ambient", nd=2, nr=1)
  j("scopes", "h_scopes", depth=2 if not T else 3)
  j("trees", "h_tree")
  j("constraint", "h_constraint", world='plain', nr=2)
  j("shardings", "h_sharding", world='plain', nr=2)
  if T:
    j("four dims four rules", "h_axes", nd=4, nr=4, tup=-1)
    j("two dims three rules tuples", "h_axes", nd=2, nr=3, tup=2)
    j("ambient two rules", "h_ambient", nd=2, nr=2, tup=0)
    j("constraint three rules", "h_constraint", world='plain', nr=3)
  return J
