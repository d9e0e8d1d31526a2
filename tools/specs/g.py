H = "import jax, jax.numpy as jnp, numpy as np, nnx, copy\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
M="nnx/module.py"; T="nnx/transforms.py"; C="nnx/containers.py"; X="nnx/contextlib.py"; P="nnx/pytreelib.py"; S="nnx/state.py"; F="nnx/partitioning.py"; L="nnx/nn/linear.py"; N="nnx/nn/normalization.py"; D="nnx/dataclasses.py"; HP="nnx/helpers.py"; SP="nnx/spmd.py"; R="nnx/reprlib.py"; I="nnx/ids.py"; ND="nnx/nodes.py"; DR="nnx/nn/stochastic.py"; TR="nnx/tracers.py"; DT="nnx/nn/dtypes.py"

bug("g01-stateless-shared", "C01", [(M, "  index = len(module_index)\n  module_index[module._module__state.id] = index\n", "  index = len(module_index)\n  if not path or any(name != \"_module__state\" for name in vars(module)):\n    module_index[module._module__state.id] = index\n")],
 "a shared submodule without any attribute (an activation, say)", "the merged module has two modules instead of a shared one",
'''class Act(nnx.Module):
  def __call__(self, x): return x
act = Act(); m = nnx.Dict(a=act, b=act, w=nnx.Param(1)).clone()
assert m.a is m.b
''')
bug("g02-type-cache", "C02", [(ND, "def is_node(obj: object) -> bool:\n  return isinstance(obj, node_types)\n", "_is_node_cache: tp.Dict[type, bool] = {}\n\n\ndef is_node(obj: object) -> bool:\n  node_type = type(obj)\n  if node_type not in _is_node_cache:\n    _is_node_cache[node_type] = isinstance(obj, node_types)\n  return _is_node_cache[node_type]\n")],
 "a type registered as a node after an object of it was looked at", "its objects are kept out of the state",
'''class K: pass
m = nnx.Dict(k=K())
assert not m.get_state()
nnx.register_node_type(K)
assert list(m.get_state()) == ["k"], m.get_state()
''')
bug("g03-not-falsy", "C03", [(F, "    return not self.predicate(path, x)", "    return self.predicate(path, x) is False")],
 "Not of a predicate that returns a false value other than False", "the node is not matched",
'''s = nnx.State({"a": nnx.Param(1)})
assert list(s.filter(nnx.Not(lambda path, x: None))) == ["a"]
''')
bug("g04-skip-same", "C04", [(M, "    path_parts = path.split(\"/\")\n    _set_value_at_path(module, path_parts, value)", "    path_parts = path.split(\"/\")\n    if current_state.get(path, _MISSING) is value:\n      continue  # unchanged\n    _set_value_at_path(module, path_parts, value)"), (M, "def _update_module(\n", "_MISSING = object()\n\n\ndef _update_module(\n")],
 "restoring the old value of a shared node in a later update, after an earlier one that named it by its other path", "the earlier update wins",
'''c = nnx.Dict(w=nnx.Param(1)); m = nnx.Dict(a=c, b=c)
old = m.get_state()
m.update_state((nnx.State({"b/w": nnx.Param(2)}), old))
assert m.a.w == 1, m.a.w
''')
bug("g05-revisit", "C05", [(M, "  module_index: tp.Dict[ids.UUID, int] = {}\n  path_parts: PathParts = ()\n  predicates = tuple", "  module_index: tp.Dict[tp.Any, int] = {}\n  path_parts: PathParts = ()\n  predicates = tuple"),
  (M, "  module_index[module._module__state.id] = len(module_index)\n\n  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):\n    if isinstance(value, Module):\n      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)\n      continue", "  module_index[module._module__state.id] = len(module_index)\n\n  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):\n    if isinstance(value, Module):\n      _pop_recursive(value, module_index, (*path_parts, name), states, predicates)\n      if not any(isinstance(v, Module) for v in vars(value).values()):\n        module_index.pop(value._module__state.id, None)\n      continue")],
 "popping by path from a shared leaf module", "nodes are popped under a path the state does not use",
'''c = nnx.Dict(w=nnx.Param(1)); m = nnx.Dict(a=c, b=c)
s = m.pop_state(lambda path, x: path.startswith("b"))
assert not s and m.a.w == 1, s
''')
bug("g06-none-output", "C06", [(M, "      out = fn(*args, **kwargs)\n      return out, module.partition()", "      out = fn(*args, **kwargs)\n      if out is module:\n        out = None  # fluent methods return the module itself\n      return out, module.partition()")],
 "a method that returns the module itself, called through the apply of a definition or split module", "None is returned",
'''class A(nnx.Module):
  def __init__(self): self.a = nnx.Param(1)
  def inc(self): self.a += 1; return self
m = A(); p = m.partition()
out, _ = p.apply.inc()
assert isinstance(out, A) and out.a == 2
''')
bug("g07-same-trace", "C07", [(TR, "  TRACE_CONTEXT.nnx_trace_stack.append(trace)\n", "  if trace is not TRACE_CONTEXT.nnx_trace_stack[-1]:\n    TRACE_CONTEXT.nnx_trace_stack.append(trace)\n")],
 "nnx.grad with a filter that matches nothing (no new trace), or nested transforms of the same trace", "the trace stack is emptied and every later use fails",
'''m = nnx.Dict(a=nnx.Param(jnp.ones(())), b=nnx.BatchStat(jnp.ones(())))
nnx.grad(lambda m: m.b, wrt=nnx.Cache)(m)
m.a = 3.0
assert m.a == 3.0
''')
bug("g08-zero-skipped", "C08", [(X, '  hash_str = " ".join(str(x) for x in data)\n', '  *path, count = data\n  # leading zeros carry no information\n  while path and path[0] == 0:\n    path = path[1:]\n  hash_str = " ".join(str(x) for x in (*path, count))\n')],
 "a context that is split before its first draw", "a key of the split context is a key of the original",
'''c = nnx.context(params=0)
d = c.partition().merge()
k = [d.make_rng("params"), d.make_rng("params")] + [c.make_rng("params"), c.make_rng("params")]
assert len({tuple(np.asarray(x).tolist()) for x in k}) == 4
''')
bug("g09-mapping-first", "C09", [(X, "    return lambda name: any(predicate(name) for predicate in predicates)\n  elif isinstance(filter, tp.Sequence):", "    return lambda name: len(predicates) > 0 and predicates[0](name)\n  elif isinstance(filter, tp.Sequence):")],
 "a mapping filter with two included entries", "only the first entry selects streams",
'''from nnx.contextlib import to_rng_predicate
p = to_rng_predicate({"a": True, "b": True})
assert p("a") and p("b") and not p("c")
''')
bug("g10-subclass", "C10", [(C, "    return type(self) is type(other) and metadata_fields(self) == metadata_fields(other)", "    return isinstance(other, type(self)) and metadata_fields(self) == metadata_fields(other)")],
 "assigning a variable of a subclass of the attribute's variable type", "accepted instead of rejected",
'''class P2(nnx.Param): pass
m = nnx.Dict(a=nnx.Param(1))
try: m.a = P2(2); raise SystemExit("accepted")
except ValueError: pass
assert m.a == 1
''')
bug("g11-subdef-index", "C11", [(M, "  return ModuleDef(*metadata)\n", "  type, _index, *rest = metadata\n  return ModuleDef(type, 0, *rest)  # the root of a definition\n")],
 "mapping over the definition of a submodule, which is not the root", "the definition changes its index and cannot be merged if it refers to itself",
'''c = nnx.Dict(w=nnx.Param(1)); c.me = c
m = nnx.Dict(c=c)
(_, sub), = m.get_module_def().submodules
assert jax.tree_map(lambda x: x, sub).index == sub.index
''')
bug("g12-hash-shortcut", "C12", [(M, "    if not isinstance(other, ModuleDef):\n      return False\n    return (", "    if not isinstance(other, ModuleDef):\n      return False\n    if hash(self) != hash(other):\n      return False\n    return (")],
 "comparing definitions with unhashable static attributes (lists)", "the comparison raises",
'''a = nnx.Dict(s=[1]); b = nnx.Dict(s=[1])
assert a.get_module_def() == b.get_module_def()
''')
bug("g13-inherit-mutable", "C13", [(P, "    cls._pytree__class_is_mutable = mutable\n", "    cls._pytree__class_is_mutable = mutable or getattr(\n        cls, \"_pytree__class_is_mutable\", False\n    )\n")],
 "an immutable subclass of a mutable Pytree class", "its fields can be assigned",
'''class A(nnx.Pytree, mutable=True):
  def __init__(self): self.a = 1
class B(A): pass
b = B()
try: b.a = 2; raise SystemExit("accepted")
except AttributeError: pass
assert b.a == 1
''')
bug("g14-consume", "C14", [(P, "    state = state.copy()  # copy the state so we can pop the restored fields.\n", "    # the restored fields are popped\n")],
 "restoring twice from one state dict", "the saved state dict is emptied, the second restore fails",
'''from flax import serialization as z
class A(nnx.Pytree):
  def __init__(self, x): self.a = jnp.asarray(x)
d = z.to_state_dict(A(7)); z.from_state_dict(A(0), d)
assert z.from_state_dict(A(1), d).a == 7
''')
bug("g15-static-name", "C15", [(T, "  elif isinstance(static_argnames, str):\n    static_argnames = [static_argnames]\n  else:", "  else:")],
 "one static argument name given as a string", "the argument is traced",
'''m = nnx.Dict(a=nnx.Param(jnp.ones(())))
f = nnx.jit(lambda m, *, mode: m.a + (1 if mode == "x" else 2), static_argnames="mode")
assert f(m, mode="x") == 2
''')
bug("g16-allow-int", "C16", [(T, "      allow_int=allow_int,\n      reduce_axes=reduce_axes,\n  )\n  ref_grad = functools", "      allow_int=allow_int and not has_aux,\n      reduce_axes=reduce_axes,\n  )\n  ref_grad = functools")],
 "integer parameters with allow_int and an auxiliary output", "the gradient is refused",
'''m = nnx.Dict(a=nnx.Param(jnp.ones((), int)), b=nnx.Param(jnp.ones(())))
g, aux = nnx.grad(lambda m: (m.b * 2, 1), allow_int=True, has_aux=True)(m)
assert g["b"].value == 2
''')
bug("g17-len1-key", "C17", [(T, "      if split_predicate(name):\n        axes_keys[name] = jax.random.split(key, length)", "      if split_predicate(name) and length > 1:\n        axes_keys[name] = jax.random.split(key, length)")],
 "a split stream in a scan of length 1", "the layer gets the key of the unsplit stream",
'''class A(nnx.Module):
  def __call__(self, x, _, *, ctx): return x, jax.random.key_data(ctx.make_rng("dropout")) if hasattr(jax.random, "key_data") else ctx.make_rng("dropout")
f = nnx.scan(A.__call__, split_rngs="dropout", length=1)
c = nnx.context(dropout=0); p = nnx.context(dropout=0).partition()
_, k = f(A(), 0.0, None, ctx=c)
want = p.contextdef.merge({"dropout": jax.random.split(p.keys["dropout"], 1)[0]}).make_rng("dropout")
assert np.array_equal(k[0], want), (k, want)
''')
bug("g18-sorted-axes", "C18", [(T, "    init_out_axes = (*options.variable_axes.values(), None, None)", "    init_out_axes = (*sorted(options.variable_axes.values()), None, None)")],
 "two variable types with different axes, the later axis first", "the variables are stacked along each other's axes",
'''class A(nnx.Module):
  def __init__(self, *, ctx):
    self.a = nnx.Param(jax.random.normal(ctx.make_rng("params"), (3, 3))); self.b = nnx.BatchStat(jnp.zeros((3, 3)))
m = nnx.Scan(A, variable_axes={nnx.Param: 1, nnx.BatchStat: 0}, split_rngs="params", length=2)(ctx=nnx.context(0))
assert m.scan_module.a.shape == (3, 2, 3) and m.scan_module.b.shape == (2, 3, 3)
''')
bug("g19-plain-arrays", "C19", [(T, "    state, _ = module.partition()\n\n    return state, out", "    state = module.filter(containers.Node)\n\n    return state, out")],
 "a rematerialised method that assigns a plain array attribute", "the assignment is lost",
'''class A(nnx.Module):
  def __init__(self): self.a = jnp.zeros(())
  def __call__(self, x): self.a = x; return x
m = A(); nnx.remat(A.__call__)(m, jnp.ones(()))
assert m.a == 1
''')
bug("g20-abstract", "C20", [(SP, '    if hasattr(x, "shape"):\n', '    if isinstance(x, jax.Array):\n')],
 "the partition spec of abstract (jax.eval_shape) or numpy leaves", "None instead of an empty spec",
'''s = nnx.State({"a": jnp.zeros(2), "b": np.zeros(2)})
assert nnx.get_partition_spec(s)["b"] == jax.sharding.PartitionSpec()
t = jax.eval_shape(lambda: s)
assert nnx.get_partition_spec(t)["a"] == jax.sharding.PartitionSpec()
''')
bug("g21-mesh-rules", "C21", [(SP, "      logical_to_mesh(tree, rules),\n", "      logical_to_mesh(tree, rules or None),\n")],
 "an empty list of rules given explicitly while other rules are ambient", "the ambient rules are used",
'''from nnx import spmd
mesh = jax.sharding.Mesh(np.array(jax.devices()[:1]), ("x",)); PS = jax.sharding.PartitionSpec
with nnx.logical_axis_rules((("a", "x"),)):
  s = spmd.logical_to_mesh_sharding({"w": PS("a")}, mesh, rules=())
assert s["w"].spec == PS(None), s
''')
bug("g22-grouped-mask", "C22", [(L, "    if self.mask_fn is not None:\n", "    if self.mask_fn is not None and self.feature_group_count == 1:\n")],
 "a masked convolution with feature groups", "the mask is ignored",
'''c = nnx.Conv(2, 2, [1], feature_group_count=2, mask_fn=lambda k: k * 0, ctx=nnx.context(0))
assert not np.any(c(jnp.ones((1, 3, 2))))
''')
bug("g23-groups", "C23", [(N, "            axis_index_groups=axis_index_groups,\n        ),\n        2,", "        ),\n        2,")],
 "statistics combined over groups of devices (axis_index_groups)", "they are combined over all devices",
'''import inspect
from nnx.nn import normalization as n
seen = []
orig = n.lax.pmean
n.lax.pmean = lambda x, **k: (seen.append(k), x)[1]
try: n._compute_stats(jnp.ones((2, 3)), (0,), None, "d", [[0, 1]])
finally: n.lax.pmean = orig
assert seen[0].get("axis_index_groups") == [[0, 1]], seen
''')
bug("g24-int-broadcast", "C24", [(DR, "    for dim in self.broadcast_dims:\n      broadcast_shape[dim] = 1\n", "    for dim in set(self.broadcast_dims):\n      broadcast_shape[dim] = min(1, broadcast_shape[dim - 1])\n")],
 "a broadcast dimension next to an empty one", "the mask has the wrong shape",
'''d = nnx.Dropout(0.5, broadcast_dims=(1,), deterministic=False)
class S(nnx.Module): pass
try: y = d(jnp.ones((0, 3)), ctx=nnx.context(dropout=0)); assert y.shape == (0, 3)
except AssertionError: raise
d = nnx.Dropout(0.5, broadcast_dims=(1, 0), deterministic=False)
import nnx.nn.stochastic as st
shapes = []
orig = st.random.bernoulli
st.random.bernoulli = lambda rng, p, shape: (shapes.append(tuple(shape)), orig(rng, p=p, shape=shape))[1]
try: d2 = nnx.Dropout(0.5, broadcast_dims=(1,), deterministic=False); d2(jnp.ones((0, 3)), ctx=nnx.context(dropout=0))
finally: st.random.bernoulli = orig
assert shapes[-1] == (0, 1), shapes
''')
bug("g25-instance-only", "C25", [(M, "    if hasattr(self, name):\n      variable = vars(self)[name]\n      if not isinstance(variable, containers.Variable):", "    if getattr(self, name, ()) != ():\n      variable = vars(self)[name]\n      if not isinstance(variable, containers.Variable):")],
 "sowing into an attribute whose tuple is empty and whose variable has another type", "the wrong type is accepted or raises the wrong way",
'''m = nnx.Dict(a=nnx.Intermediate((), tag=1))
m.sow(nnx.Intermediate, "a", 5)
assert m.a == (5,) and vars(m)["a"].tag == 1
''')
bug("g26-positional-ctx", "C26", [(HP, "      and param.kind in (param.KEYWORD_ONLY, param.POSITIONAL_OR_KEYWORD)\n", "      and param.kind in (param.KEYWORD_ONLY,)\n")],
 "a callable whose ctx parameter may also be given by position", "it does not get the context",
'''s = nnx.Sequence([lambda x, ctx=None: ctx is not None])
assert s(1, ctx=nnx.context(0))
''')
bug("g27-int-step", "C27", [(HP, "    step = self.step + 1\n", "    step = jnp.asarray(self.step + 1, jnp.int32) if self.step.ndim == 0 else self.step\n")],
 "a train state with one step counter per replica (an array of steps)", "the steps do not advance",
'''import optax
m = nnx.Dict(a=nnx.Param(jnp.ones(())))
s, d = m.partition()
t = nnx.TrainState(d, params=s, tx=optax.sgd(0.1), step=jnp.zeros(2, int))
t = t.apply_gradients(s)
assert t.step.tolist() == [1, 1]
''')
bug("g28-after-children", "C28", [(M, "    if isinstance(self, module_type):\n      fn(self)\n\n    for value in vars(self).values():\n      if isinstance(value, Module):\n        value._on_all(module_type, fn, visited)", "    children = [value for value in vars(self).values() if isinstance(value, Module)]\n    if isinstance(self, module_type):\n      fn(self)\n\n    for value in children:\n      value._on_all(module_type, fn, visited)")],
 "a function given to for_each that adds a submodule to the module it visits", "the new submodule is not visited",
'''m = nnx.Dict(); seen = []
def f(x):
  seen.append(x)
  if x is m: m.c = nnx.Dict()
m.for_each(nnx.Module, f)
assert len(seen) == 2
''')
bug("g29-subclass", "C29", [(M, "    if dataclasses.is_dataclass(module):\n", "    if \"__dataclass_fields__\" in vars(type(module)):\n")],
 "a plain subclass of a dataclass module", "its declared fields are not wrapped",
'''@nnx.dataclass
class A(nnx.Module):
  a: int = nnx.param_field()
class B(A): pass
assert isinstance(vars(B(1))["a"], nnx.Param)
''')
bug("g30-eq-hash", "C30", [(I, "    return isinstance(other, UUID) and other.id == self.id", "    return isinstance(other, UUID) and (other.id == self.id or str(other.id) in self._aliases)"), (I, "  def __init__(self, rawid):\n    self.id = rawid\n", "  _aliases = frozenset()\n\n  def __init__(self, rawid):\n    self.id = rawid & 0xFFFFF\n")],
 "more than a million modules", "modules share an identity",
'''from nnx import ids
a = ids.UUID(1); b = ids.UUID(1 + 2**20)
assert a != b
''')
bug("g31-class-name", "C31", [(R, "  type_repr = config.type if isinstance(config.type, str) else config.type.__name__\n", "  type_repr = config.type if isinstance(config.type, str) else config.type.__name__.strip(\"_\")\n")],
 "a class whose name starts or ends with underscores", "the printed class name is wrong",
'''class _A(nnx.Module): pass
assert repr(_A()).startswith("_A")
''')
bug("g32-shared-metadata", "C32", [(C, "    return ContainerMetadata(initializer(*args, **kwargs), metadata=metadata)\n", "    container_metadata.value = initializer(*args, **kwargs)\n    return container_metadata\n"), (C, "  @functools.wraps(initializer)\n  def wrapper(*args, **kwargs):\n    container_metadata", "  container_metadata = ContainerMetadata(None, metadata=metadata)\n\n  @functools.wraps(initializer)\n  def wrapper(*args, **kwargs):\n    container_metadata")],
 "calling one wrapped initializer twice before making the variables", "both variables get the second value",
'''i = nnx.with_metadata(lambda x: x, tag=1)
a = i(1); b = i(2)
assert nnx.Param(a).value == 1 and nnx.Param(b).value == 2
''')
