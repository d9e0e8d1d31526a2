H = "import jax, jax.numpy as jnp, numpy as np, nnx\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
M="nnx/module.py"; T="nnx/transforms.py"; C="nnx/containers.py"

bug("b01-inplace-replace", "C01", [(M, '''      vars_dict[name] = vars_dict[name].replace(value=value)
    else:''', '''      # keep the container object, only its value changes
      vars(vars_dict[name]).update(vars(vars_dict[name].replace(value=value)))
    else:''')],
 "a state taken from the module before one of its variables is assigned again, and used afterwards",
 "assigning a variable writes through to states split off earlier, so the original and its parts are no longer independent",
'''m = nnx.Dict(w=nnx.Param(1))
s, d = m.partition()
m.w = 2
assert d.merge(s).w == 1
''')

bug("b02-def-order", "C02", [(M, '''  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
    value_path = (*path, name)''', '''  for name, value in vars(module).items():
    value_path = (*path, name)''')],
 "two modules of the same structure whose attributes were assigned in a different order",
 "the definition depends on the order in which attributes were assigned",
'''a = nnx.Dict(x=1, y=2); b = nnx.Dict(y=2, x=1)
assert a.get_module_def() == b.get_module_def()
''')

bug("b03-empty-tuple-filter", "C03", [("nnx/partitioning.py", '''  elif isinstance(filter, tp.Tuple):
    return Any(*filter)''', '''  elif isinstance(filter, tp.Tuple):
    return Any(*filter) if filter else Everything()''')],
 "an empty tuple used as a filter, for example a computed list of types that happens to be empty",
 "an empty union of filters matches every node instead of none",
'''s = nnx.Dict(w=nnx.Param(1), c=nnx.BatchStat(2)).get_state()
none, rest = s.partition((), ...)
assert not list(none) and list(rest) == ["c", "w"]
''')

bug("b04-update-order", "C04", [(M, '''    if isinstance(updates, Pure):
      updates = updates.states
    elif isinstance(updates, Module):
      assert type(self) == type(updates)''', '''    if isinstance(updates, Pure):
      updates = updates.get_state()
    elif isinstance(updates, tuple):
      # merge the parts up front
      merged = {}
      for part in updates:
        for path, value in part.items():
          merged.setdefault(path, value)
      updates = State(merged)
    elif isinstance(updates, Module):
      assert type(self) == type(updates)''')],
 "a tuple of states in which two states name the same node with different values",
 "the first instead of the last update of a node wins",
'''m = nnx.Dict(w=nnx.Param(1))
a = nnx.Dict(w=nnx.Param(2)).get_state(); b = nnx.Dict(w=nnx.Param(3)).get_state()
m.update_state((a, b))
assert m.w == 3
''')

bug("b05-pop-arrays", "C05", [(M, '''    elif not nodes.is_node(value):
      continue

    path = "/".join((*path_parts, name))''', '''    elif not isinstance(value, Node):
      continue

    path = "/".join((*path_parts, name))''')],
 "a module holding a plain array (or state) as attribute and a filter that matches it",
 "nodes that are not variables are never popped",
'''m = nnx.Dict(w=nnx.Param(1)); m.a = jnp.ones(2)
s = m.pop_state(...)
assert set(s) == {"w", "a"} and not hasattr(m, "a")
''')

bug("b06-apply-merge-once", "C06", [(M, '''    accessesor = DelayedAccessor()

    def _context(accessesor, *args, **kwargs) -> tp.Tuple[tp.Any, Pure[State, M]]:
      module = self.merge(state, *states)
      fn''', '''    accessesor = DelayedAccessor()
    module = self.merge(state, *states)

    def _context(accessesor, *args, **kwargs) -> tp.Tuple[tp.Any, Pure[State, M]]:
      fn''')],
 "one apply caller that is kept and called twice on a module that updates its state",
 "the second call sees the state updates of the first",
'''class Foo(nnx.Module):
  def __init__(self): self.c = nnx.Param(0)
  def __call__(self):
    self.c = self.c + 1
    return self.c
s, d = Foo().partition()
f = d.apply(s)
assert f()[0] == 1 and f()[0] == 1
''')

bug("b07-count-before-check", "C07", [("nnx/contextlib.py", '''    elif not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")

    stream = self._rngs[name]
    fold_data = _stable_hash(stream.count_path + (stream.count,))
    stream.count += 1
    return''', '''
    stream = self._rngs[name]
    fold_data = _stable_hash(stream.count_path + (stream.count,))
    stream.count += 1
    if not self._trace_state.is_valid():
      raise errors.TraceContextError("Cannot use Context from a different trace level")
    return''')],
 "a draw from a context that is rejected inside a transform, followed by a draw outside",
 "a rejected draw still advances the key counter",
'''c = nnx.context(0)
def f(x):
  try: c.make_rng("params")
  except nnx.TraceContextError: pass
  return x
jax.jit(f)(1)
assert (c.make_rng("params") == nnx.context(0).make_rng("params")).all()
''')

bug("b08-hash-separator", "C08", [("nnx/contextlib.py", '''  hash_str = " ".join(str(x) for x in data)''', '''  hash_str = "".join(str(x) for x in data)''')],
 "more than ten draws or splits, so that the digits of two different count paths read the same",
 "different histories hash the same text and yield the same key",
'''c = nnx.context(0)
for _ in range(1): c.make_rng("params")
d = c.partition().merge()       # path (1,)
first = d.make_rng("params")    # 1 0
keys = [c.make_rng("params") for _ in range(12)]
assert not any((k == first).all() for k in keys)
''')

bug("b09-falsy-flags", "C09", [("nnx/contextlib.py", '''    return PureContext.new(keys, ContextDef(rng_counts, tuple(self._flags.items())))''', '''    flags = tuple((name, value) for name, value in self._flags.items() if value)
    return PureContext.new(keys, ContextDef(rng_counts, flags))''')],
 "a flag explicitly set to False that goes through partition and merge",
 "false flags are lost by splitting a context",
'''c = nnx.context(0, flags=dict(train=False)).partition().merge()
assert c.has_flag("train") and c.get_flag("train") is False
''')

bug("b10-extra-metadata", "C10", [(C, '''    return type(self) is type(other) and metadata_fields(self) == metadata_fields(other)''', '''    if type(self) is not type(other):
      return False
    theirs = metadata_fields(other)
    return all(theirs.get(k) == v for k, v in metadata_fields(self).items())''')],
 "assigning a variable that has metadata the present one lacks",
 "a variable with other metadata is accepted silently and its metadata dropped",
'''m = nnx.Dict(w=nnx.Param(1))
try: m.w = nnx.Param(2, note="x"); ok = False
except ValueError: ok = True
assert ok and m.w == 1
''')

bug("b11-none-metadata", "C11", [(C, '''      attributes = vars(x).copy()
      value = attributes.pop("value")
      if with_keys''', '''      attributes = {k: v for k, v in vars(x).items() if v is not None}
      value = attributes.pop("value", None)
      if with_keys''')],
 "a variable with custom metadata whose value is None",
 "flattening drops metadata that is None, so the rebuilt variable is different",
'''p = nnx.Param(1, note=None)
l, t = jax.tree_util.tree_flatten(p)
assert jax.tree_util.tree_unflatten(t, l) == p and jax.tree_map(lambda x: x, p) == p
''')

bug("b12-type-name", "C12", [(M, '''        self._type == other._type
        and self._submodules''', '''        self._type.__qualname__ == other._type.__qualname__
        and self._submodules''')],
 "two different classes of the same name at the same position",
 "definitions of modules of different classes compare equal",
'''def make(k):
  class Foo(nnx.Module):
    def __init__(self): self.w = nnx.Param(1)
    def __call__(self): return self.w * k
  return Foo()
assert make(2).get_module_def() != make(3).get_module_def()
''')

bug("b13-field-order", "C13", [("nnx/pytreelib.py", '''    vars(obj)["_pytree__sorted_fields"] = sorted(vars(obj))''', '''    vars(obj)["_pytree__sorted_fields"] = list(vars(obj))''')],
 "two objects of one class whose fields were assigned in a different order",
 "the order of the leaves depends on the order of assignment",
'''class Foo(nnx.Pytree):
  def __init__(self, flip):
    for n in ("ba" if flip else "ab"): setattr(self, n, nnx.Node(n))
a, b = Foo(False), Foo(True)
assert jax.tree_util.tree_leaves(a) == jax.tree_util.tree_leaves(b) == ["a", "b"]
''')

bug("b14-flax-none", "C14", [("nnx/pytreelib.py", '''      value_state = state.pop(name)
      updates[name]''', '''      value_state = state.pop(name)
      if getattr(pytree, name) is None:
        continue
      updates[name]''')],
 "restoring into a target whose node field holds None",
 "a node field that is None in the target is not restored",
'''from flax import serialization
class Foo(nnx.Pytree):
  def __init__(self, x): self.x = nnx.Node(x)
d = serialization.to_state_dict(Foo(3))
assert serialization.from_state_dict(Foo(None), d).x == 3
''')

bug("b15-jit-new-only", "C15", [(T, '''        module = pure_module.merge()
        out = fun(module, *args, **kwargs)

      if self.stateful:
        updates = module.get_state()
        out = (updates, out)''', '''        module = pure_module.merge()
        before = module.get_state()
        out = fun(module, *args, **kwargs)

      if self.stateful:
        # only send back what the function replaced
        updates = State(
            (path, node)
            for path, node in module.get_state().items()
            if path not in before or not isinstance(node, containers.Variable)
            or node.value is not before[path].value
        )
        out = (updates, out)''')],
 "plain containers or donated buffers do not matter; two attributes swapped so that one gets the value of a node of the ... (see demo)",
 "n/a", "assert False")
BUGS.pop()

bug("b16-grad-updates-diff", "C16", [(T, '''      if self.stateful:
        updates = module.get_state()
        if self.has_aux:''', '''      if self.stateful:
        # nodes that are differentiated are updated by the optimiser
        updates = module.get_state() - diff
        if self.has_aux:''')],
 "a function that assigns a node selected by wrt (for example weight normalisation) under stateful grad",
 "assignments to differentiated nodes are lost",
'''m = nnx.Dict(w=nnx.Param(jnp.float32(2.)), c=nnx.BatchStat(jnp.float32(0.)))
def f(m):
  l = m.w ** 2
  m.w = m.w * 0.5
  m.c = m.c + 1
  return l
nnx.grad(f)(m)
assert float(m.w) == 1.0 and float(m.c) == 1.0
''')

bug("b17-scan-neg-out-axis", "C17", [(T, '''  out = tree_map_upto_left(
      lambda axis, node: jax.tree_map(lambda x: jnp.moveaxis(x, 0, axis), node),
      options.out_axes,''', '''  out = tree_map_upto_left(
      lambda axis, node: jax.tree_map(
          lambda x: jnp.swapaxes(x, 0, axis) if axis else x, node
      ),
      options.out_axes,''')],
 "an output axis two or more positions away from the front, with outputs of at least two dimensions per step",
 "stacked outputs of rank 3 and more come out with two other axes swapped",
'''class Foo(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.ones((3,)))
  @nnx.Scan.__class__ if False else (lambda f: f)
  def __call__(self, c, x): return c, x * self.w
m = Foo.__new__(Foo)
class L(nnx.Module):
  def __init__(self, *, ctx): self.w = nnx.Param(jnp.ones(()))
  def __call__(self, c, x): return c, x * self.w
m = nnx.Scan(L, variable_axes={nnx.Param: 0}, out_axes=2, length=3)(ctx=nnx.context(0))
x = jnp.arange(3 * 2 * 5.).reshape(3, 2, 5)
_, y = m(0., x)
assert y.shape == (2, 5, 3) and (y == jnp.moveaxis(x, 0, 2)).all()
''')

bug("b18-split-other-streams", "C18", [(T, '''        if options.length is None:
          raise ValueError("Cannot split RNGs without specifying a length")
        key = jax.random.split(key, options.length)
        key_axes.append(0)''', '''        if options.length is None:
          raise ValueError("Cannot split RNGs without specifying a length")
        key = jnp.stack([key] * options.length) if name in key_axes else jax.random.split(
            next(iter(keys.values())), options.length
        )
        key_axes.append(0)''')],
 "two streams split with different seeds, drawn from by the layer constructor",
 "all split streams of the scanned initialisation are split from the first stream's key",
'''class L(nnx.Module):
  def __init__(self, *, ctx): self.w = nnx.Param(jax.random.uniform(ctx.make_rng("params"))); self.n = nnx.BatchStat(jax.random.uniform(ctx.make_rng("noise")))
m = nnx.Scan(L, variable_axes={...: 0}, split_rngs=["params", "noise"], length=2)(ctx=nnx.context(params=0, noise=1)).scan_module
assert not (m.w == m.n).any()
''')

bug("b19-remat-partial-state", "C19", [(T, '''    state, _ = module.partition()

    return state, out''', '''    # parameters are not modified by the forward pass
    _, state = module.filter(containers.Param, partitioning.Not(containers.Param))

    return state, out''')],
 "a rematerialised method that assigns a Param",
 "assignments to parameters inside a remat call are lost",
'''class Foo(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.float32(1.)); self.c = nnx.BatchStat(jnp.float32(1.))
  @nnx.remat
  def __call__(self, x):
    self.w = self.w * 2
    self.c = self.c + 1
    return x * self.w
m = Foo(); y = m(jnp.float32(1.))
assert float(m.w) == 2.0 and float(y) == 2.0 and float(m.c) == 2.0
''')

bug("b20-empty-sharding", "C20", [("nnx/spmd.py", '''  def _remove_axis(x: tp.Any):
    if (
        isinstance(x, containers.Node)
        and isinstance(x, HasSharding)
        and x.sharding is not None
    ):
      sharding = list(x.sharding)
      assert sharding.pop(index) == axis_name
      return x.replace(sharding=tuple(sharding))''', '''  def _remove_axis(x: tp.Any):
    if (
        isinstance(x, containers.Node)
        and isinstance(x, HasSharding)
        and x.sharding is not None
        and axis_name in x.sharding
    ):
      sharding = list(x.sharding)
      sharding.remove(axis_name)
      return x.replace(sharding=tuple(sharding))''')],
 "a variable that uses the partition name for another dimension before the scan axis",
 "removing a scan axis removes the first occurrence of the name, not the scan axis",
'''from nnx import spmd
s = nnx.State({"w": nnx.Param(1, sharding=("layers", None, "b"))})
r = spmd.remove_axis(spmd.add_axis(s, 2, {"partition_name": "layers"}), 2, {"partition_name": "layers"})
assert r["w"].sharding == ("layers", None, "b")
''')

bug("b21-rules-after-none", "C21", [("nnx/spmd.py", '''          _mesh_assignment_free(rule_mesh_names, result)
          and result[pos] == _unassigned_axis''', '''          _mesh_assignment_free(rule_mesh_names, result)
          and not result[pos]''')],
 "an explicit rule to None for a dimension followed by a later rule that shards it",
 "a first rule that leaves the dimension unsharded is overridden by a later one",
'''from nnx import spmd
r = spmd.logical_to_mesh_axes(("a", "b"), (("a", None), ("b", "X"), ("a", "Y")))
assert tuple(r) == (None, "X"), r
''')

bug("b22-circular-dilated", "C22", [("nnx/nn/linear.py", '''((k - 1) // 2, k // 2) for k in kernel_size_dilated]''', '''((k - 1) // 2 * d, k // 2 * d) for k, d in zip(kernel_size, kernel_dilation)]''')],
 "circular padding with an even kernel size and a dilation above one",
 "the wrap-around padding of dilated kernels of even size is wrong",
'''c = nnx.Conv(1, 1, (4,), padding="CIRCULAR", kernel_dilation=2, use_bias=False, ctx=nnx.context(0))
c.kernel = jnp.arange(1., 5.).reshape(4, 1, 1)
x = jnp.arange(1., 9.).reshape(1, 8, 1)
y = c(x)[0, :, 0]
k = 7
want = [sum(float(c.kernel[j, 0, 0]) * float(x[0, (i + 2 * j - 3) % 8, 0]) for j in range(4)) for i in range(8)]
assert y.shape == (8,) and np.allclose(y, want), (y, want)
''')

bug("b23-ln-negative-axes", "C23", [("nnx/nn/normalization.py", '''  return tuple(set([rank + axis if axis < 0 else axis for axis in axes]))''', '''  return tuple(dict.fromkeys(rank + axis if axis < 0 else axis for axis in axes))''')],
 "feature axes given in another than increasing order", "scale", "x")
BUGS.pop()

bug("b24-broadcast-last", "C24", [("nnx/nn/stochastic.py", '''    for dim in self.broadcast_dims:
      broadcast_shape[dim] = 1''', '''    for dim in self.broadcast_dims:
      broadcast_shape[dim % 2 if dim < 0 else dim] = 1''')],
 "a negative broadcast dimension on an input that is not two-dimensional",
 "the mask is shared along a wrong dimension",
'''d = nnx.Dropout(0.5, broadcast_dims=(-1,), deterministic=False)
y = d(jnp.ones((4, 8, 16)), ctx=nnx.context(dropout=0))
assert (y == y[..., :1]).all()
''')

bug("b25-sow-subclass", "C25", [(M, '''      elif type(variable) != variable_type:''', '''      elif not isinstance(variable, variable_type):''')],
 "sowing a base variable type onto a name that holds a variable of a subclass",
 "a value is appended to a variable of another type",
'''class Log(nnx.Intermediate): pass
m = nnx.Dict(); m.sow(Log, "y", 1)
try: m.sow(nnx.Intermediate, "y", 2); ok = False
except ValueError: ok = True
assert ok and m.y == (1,)
''')

bug("b26-sequence-namedtuple", "C26", [("nnx/helpers.py", '''        if isinstance(output, tp.Tuple):
          args = output
          kwargs = {}
        elif''', '''        if isinstance(output, tp.Tuple):
          args = output
        elif''')],
 "a sequence whose first callable takes keyword arguments and returns a tuple",
 "keyword arguments of an earlier call leak into the next callable",
'''s = nnx.Sequence([lambda x, k=1: (x, k), lambda a, b, **kw: (a, b, kw)])
assert s(1, k=2) == (1, 2, {}), s(1, k=2)
''')

bug("b27-params-stale", "C27", [("nnx/helpers.py", '''    updates, opt_state = self.tx.update(grads, self.opt_state, self.params)''', '''    updates, opt_state = self.tx.update(grads, self.opt_state)''')],
 "an optimiser whose update rule uses the parameters, for example weight decay",
 "the parameters are not handed to the optimiser", 
'''import optax
(p, ), d = None, None
''')
BUGS.pop()
bug("b27-step-replaced", "C27", [("nnx/helpers.py", '''    step = self.step + 1
    return self.replace(
        params=params,
        opt_state=opt_state,
        step=step,
        **kwargs,
    )''', '''    step = self.step + 1
    tx = kwargs.pop("tx", self.tx)
    if tx is not self.tx:
      opt_state = tx.init(params)
    return self.replace(
        params=params,
        opt_state=opt_state,
        step=step,
        **kwargs,
    )''')],
 "passing a new optimiser to apply_gradients",
 "an explicitly passed field is dropped and the optimiser state reset",
'''import optax
m = nnx.Dict(w=nnx.Param(jnp.ones(2)))
p, d = m.partition()
t = nnx.TrainState(d, params=p, tx=optax.sgd(0.5, momentum=0.5))
new = optax.sgd(0.25, momentum=0.5)
u = t.apply_gradients(p, tx=new)
assert u.tx is new
''')

bug("b28-visit-type-first", "C28", [(M, '''    if self._module__state.id in visited:
      return

    visited.add(self._module__state.id)

    if isinstance(self, module_type):
      fn(self)
''', '''    if self._module__state.id in visited:
      return

    if isinstance(self, module_type):
      visited.add(self._module__state.id)
      fn(self)
''')],
 "a shared module of another type above instances of the visited type",
 "n/a", "x")
BUGS.pop()
bug("b28-visit-depth", "C28", [(M, '''    for value in vars(self).values():
      if isinstance(value, Module):
        value._on_all(module_type, fn, visited)''', '''    for value in vars(self).values():
      if isinstance(value, Module) and value._module__state.id not in visited:
        value._on_all(module_type, fn, set(visited))''')],
 "a module shared by two different parents",
 "shared modules are visited once per route instead of once",
'''s = nnx.Dict(); m = nnx.Dict(a=nnx.Dict(s=s), b=nnx.Dict(s=s))
seen = []
m.for_each(nnx.Module, seen.append)
assert len(seen) == len({id(x) for x in seen}) == 4
''')

bug("b29-default-wrapped", "C29", [(M, '''        container_fn = field.metadata["nnx_container_fn"]
        value = vars(module)[field.name]
        value = container_fn(value)
        vars(module)[field.name] = value''', '''        container_fn = field.metadata["nnx_container_fn"]
        value = vars(module)[field.name]
        if value is None and field.default is None:
          # optional field that was not given
          continue
        value = container_fn(value)
        vars(module)[field.name] = value''')],
 "a node or variable field with default None",
 "an optional variable field loses its role",
'''@nnx.dataclass
class Foo(nnx.Module):
  w: object = nnx.param_field(default=None)
m = Foo()
m.w = 3
assert isinstance(vars(m)["w"], nnx.Param) and list(m.get_state()) == ["w"]
''')

bug("b30-id-outside-lock", "C30", [("nnx/ids.py", '''    with self._lock:
      self._id += 1
      return UUID(self._id)''', '''    with self._lock:
      self._id += 1
    return UUID(self._id)''')],
 "two threads creating modules with the right interleaving",
 "two modules get the same identity",
'''import sys, threading
from nnx import ids
# run the second creation while the first is between leaving the lock and reading the counter
out = []
state = dict(done=False)
def tracer(frame, event, arg):
  if frame.f_code is ids.UUIDManager.__call__.__code__:
    def local(f, e, a):
      if e == "line" and not state["done"] and not ids.uuid._lock.locked() and ids.uuid._id > state["start"]:
        state["done"] = True
        t = threading.Thread(target=lambda: out.append(ids.uuid())); t.start(); t.join()
      return local
    return local
state["start"] = ids.uuid._id
sys.settrace(tracer); out.append(ids.uuid()); sys.settrace(None)
if not state["done"]: out.append(ids.uuid())
assert len(set(out)) == 2, out
''')
