"""Bounded module graphs with array inputs and bounded programs over them (transform checks)."""
import jax, jax.numpy as jnp, numpy as np
from sx import jx

_C = {}
def classes(nnx):
  if id(nnx) not in _C:
    class M(nnx.Module): pass
    class N(nnx.Module): pass
    _C[id(nnx)] = dict(M=M, N=N)
  return _C[id(nnx)]

# graph shape: edges (parent, attr, child), children created in order; module 0 is the root
SHAPES = dict(
  single=(1, []),
  chain=(2, [(0, 'p', 1)]),
  pair=(3, [(0, 'p', 1), (0, 'q', 2)]),
  shared=(2, [(0, 'p', 1), (0, 'q', 1)]),
  cycle=(2, [(0, 'p', 1), (1, 'up', 0)]),
  selfref=(1, [(0, 'me', 0)]),
  diamond=(4, [(0, 'p', 1), (0, 'q', 2), (1, 's', 3), (2, 's', 3)]),
  sharedlate=(3, [(0, 'a', 2), (0, 'p', 1), (1, 'z', 2)]),
  ring=(3, [(0, 'p', 1), (1, 'q', 2), (2, 'up', 0), (0, 'b', 2)]),
)

def build(nnx, shape, inp, leaf='mix', kk=3):
  """modules of the graph with their nodes filled from the inputs w{i}, c{i}, r{i}"""
  n, edges = SHAPES[shape]
  C = classes(nnx)
  ms = [C['M' if i % 2 == 0 else 'N']() for i in range(n)]
  for i, m in enumerate(ms):
    m.w = nnx.Param(inp[f"w{i}"], sharding=('d',))
    m.c = nnx.BatchStat(inp[f"c{i}"])
    if leaf == 'mix': m.r = inp[f"r{i}"]
    m.k = kk + i
    m.st = nnx.Static("s")
  for a, name, b in edges: setattr(ms[a], name, ms[b])
  return ms

def inputs(S, shape, leaf='mix', extra=True, vec=2):
  n, _ = SHAPES[shape]
  I = jx.Inputs(S)
  for i in range(n):
    I.f32(f"w{i}", (vec,)); I.f32(f"c{i}")
    if leaf == 'mix': I.f32(f"r{i}", (vec,))
  if extra: I.f32("x", (vec,))
  return I

def paths(shape):
  """attribute paths to every module, alias paths included (no path passes a module twice)"""
  n, edges = SHAPES[shape]
  out = {0: [()]}
  todo = [((), 0, (0,))]
  while todo:
    p, i, seen = todo.pop(0)
    for a, name, b in edges:
      if a != i: continue
      out.setdefault(b, []).append(p + (name,))
      if b not in seen: todo.append((p + (name,), b, seen + (b,)))
  return [(p, i) for i in sorted(out) for p in out[i]]

def canonical(shape):
  """path of every module in the state: depth first in the order of the attribute names"""
  n, edges = SHAPES[shape]
  out = {}
  def walk(i, p):
    if i in out: return
    out[i] = p
    for name in sorted(nm for a, nm, _ in edges if a == i):
      b = next(b for a, nm, b in edges if a == i and nm == name)
      walk(b, p + (name,))
  walk(0, ())
  return out

def at(m, path):
  for p in path: m = getattr(m, p)
  return m

def facts(nnx, root):
  """structure and containers of everything reachable, and the node values"""
  index, order, out, vals = {}, [], [], {}
  def visit(m):
    if id(m) in index: return index[id(m)]
    index[id(m)] = len(order); order.append(m); i = index[id(m)]
    rec = {}
    out.append((type(m), rec))
    for n, v in sorted(vars(m).items()):
      if n.startswith('_module__'): continue
      if isinstance(v, nnx.Module): rec[n] = ('module', visit(v))
      elif isinstance(v, nnx.Static): rec[n] = ('static', type(v), v.value)
      elif isinstance(v, nnx.Node):
        rec[n] = ('node', type(v), {k: q for k, q in vars(v).items() if k != 'value'})
        vals[f"{i}.{n}"] = v.value
      elif isinstance(v, (jax.Array, np.ndarray)):
        rec[n] = ('array',); vals[f"{i}.{n}"] = v
      else: rec[n] = ('value', type(v), v)
    return i
  visit(root)
  return out, vals, order

def vec(v): return jnp.asarray(v, jnp.float32)

OPS = ['scale', 'add', 'raw', 'read', 'swap', 'new', 'newraw', 'upd', 'static2node', 'clone', 'sow', 'k']
def step(nnx, op, root, t, acc, x, i):
  """one operation of a program on module t; returns the new accumulator"""
  if op == 'scale': t.w = t.w * x
  elif op == 'add': t.c = t.c + jnp.sum(acc)
  elif op == 'raw': t.r = t.r - acc
  elif op == 'read': acc = acc * t.w + t.c
  elif op == 'swap': t.w, root.w = root.w + 1, t.w
  elif op == 'new': setattr(t, f"new{i}", nnx.Param(acc * t.c, sharding=('e',)))
  elif op == 'newraw': setattr(t, f"new{i}", acc * 2)
  elif op == 'upd': t.update_state(nnx.State({'w': nnx.Param(acc + t.w, sharding=('d',))}))
  elif op == 'static2node': t.k = t.w * t.k if not hasattr(t.k, 'shape') else t.k + acc
  elif op == 'clone':
    c = t.clone(); c.w = c.w * 5; acc = acc + c.w
  elif op == 'sow': t.sow(nnx.Variable, 'h', acc)
  elif op == 'k': acc = acc * t.k
  elif op == 'noop': pass
  else: raise KeyError(op)
  return acc

def choose_prog(S, shape, n, ops=OPS, lab="", alias=True):
  ps = paths(shape)
  if not alias:
    seen, q = set(), []
    for p, i in ps:
      if i not in seen: seen.add(i); q.append((p, i))
    ps = q
  out = []
  for k in range(n):
    op = S.choose(0, f"{lab}op{k}", values=list(ops))
    if op == 'noop': out.append((op, ())); continue
    out.append((op, ps[S.choose(len(ps), f"{lab}at{k}")][0]))
  return out

def run(nnx, prog, root, x, pre=""):
  acc = x
  for k, (op, path) in enumerate(prog):
    acc = step(nnx, op, root, at(root, path), acc, x, f"{pre}{k}")
  return acc
