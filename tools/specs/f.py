H = "import jax, jax.numpy as jnp, numpy as np, nnx, copy\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
M="nnx/module.py"; T="nnx/transforms.py"; C="nnx/containers.py"; X="nnx/contextlib.py"; P="nnx/pytreelib.py"; S="nnx/state.py"; F="nnx/partitioning.py"; L="nnx/nn/linear.py"; N="nnx/nn/normalization.py"; D="nnx/dataclasses.py"; HP="nnx/helpers.py"; SP="nnx/spmd.py"; R="nnx/reprlib.py"; I="nnx/ids.py"; ND="nnx/nodes.py"; DR="nnx/nn/stochastic.py"; TR="nnx/tracers.py"

bug("f02-case-order", "C02", [(M, "  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):\n    value_path", "  for name, value in sorted(vars(module).items(), key=lambda x: x[0].lower()):\n    value_path")],
 "static attributes whose names differ only in case", "the definition depends on the order in which attributes were assigned",
'''class A(nnx.Module): pass
a = A(); a.n = 1; a.N = 2
b = A(); b.N = 2; b.n = 1
assert a.get_module_def() == b.get_module_def()
''')
bug("f07-grad-trace", "C07", [(T, "      with tracers.nnx_trace(tracers.get_top_trace(diff)):\n", "      with tracers.nnx_trace(tracers.current_jax_trace()):\n")],
 "mutating, inside the function given to nnx.grad, a module that was created outside", "the mutation is accepted and leaks a tracer",
'''m = nnx.Dict(a=nnx.Param(jnp.ones(()))); other = nnx.Dict(b=nnx.Param(1.0))
def f(m):
  other.b = m.a
  return m.a
try: nnx.grad(f)(m); raise SystemExit("accepted")
except nnx.TraceContextError if hasattr(nnx, "TraceContextError") else Exception: pass
assert other.b == 1.0
''')
bug("f08-wrap-256", "C08", [(X, "stream.count_path + (stream.count,))\n", "stream.count_path + (stream.count % 65536,))\n")],
 "more than 65536 draws from one stream", "the first keys are handed out again",
'''from nnx.contextlib import RngStream
k = jax.random.PRNGKey(0)
a = nnx.context(params=RngStream(k, count=3)); b = nnx.context(params=RngStream(k, count=65539))
assert not np.array_equal(a.make_rng("params"), b.make_rng("params"))
''')
bug("f10-sharding-free", "C10", [(C, '      return {k: v for k, v in vars(container).items() if k != "value"}', '      return {k: v for k, v in vars(container).items() if k not in ("value", "sharding")}')],
 "assigning a variable whose sharding differs from that of the variable in place", "accepted instead of rejected",
'''m = nnx.Dict(a=nnx.Param(1, sharding=("x",)))
try: m.a = nnx.Param(2, sharding=("y",)); raise SystemExit("accepted")
except ValueError: pass
assert m.a == 1
''')
bug("f12-static-repr", "C12", [(M, "        and self._static_fields == other._static_fields\n", "        and repr(self._static_fields) == repr(other._static_fields)\n")],
 "static attributes that are equal but print differently, or differ but print alike", "equal structures have unequal definitions",
'''a = nnx.Dict(s=1.0); b = nnx.Dict(s=1)
assert a.get_module_def() == b.get_module_def()
class K:
  def __init__(s, i): s.i = i
  def __repr__(s): return "K"
  def __eq__(s, o): return s.i == o.i
  def __hash__(s): return s.i
assert nnx.Dict(s=K(1)).get_module_def() != nnx.Dict(s=K(2)).get_module_def()
''')
bug("f13-inplace", "C13", [(P, "      vars_dict[name] = vars_dict[name].replace(value=value)\n", "      current = vars_dict[name]\n      updated = current.replace(value=value)\n      vars(current).update(vars(updated))\n")],
 "replace on a Pytree that is not a dataclass and has a variable field", "the original object changes too",
'''class A(nnx.Pytree):
  def __init__(self): self.a = nnx.TreeNode(1) if hasattr(nnx, "TreeNode") else nnx.Node(1)
x = A(); y = x.replace(a=2)
assert (x.a, y.a) == (1, 2)
''')
bug("f14-plain-arrays", "C14", [(P, "      if not nodes.is_node(value):\n        continue\n      if name not in state:", "      if not isinstance(value, (containers.Container, Pytree)):\n        state.pop(name, None)\n        continue\n      if name not in state:")],
 "restoring a Pytree whose fields hold plain arrays", "the saved arrays are dropped",
'''from flax import serialization as z
class A(nnx.Pytree):
  def __init__(self, x): self.a = jnp.asarray(x)
r = z.from_state_dict(A(0), z.to_state_dict(A(7)))
assert r.a == 7
''')
bug("f15-state-key-order", "C15", [(T, "      module.update_state(updates)\n    return out\n\n  def __repr__(self):\n    return f\"JitTransform", "      current = module.get_state()\n      module.update_state(State({k: v for k, v in updates.items() if type(v) is type(current.get(k, v))}))\n    return out\n\n  def __repr__(self):\n    return f\"JitTransform")],
 "a jitted function that turns a plain array attribute into one of another type (numpy to jax)", "the assignment is lost",
'''m = nnx.Dict(); m.a = np.zeros(2)
@nnx.jit
def f(m): m.a = m.a + 1
f(m); assert np.array_equal(m.a, np.ones(2)), m.a
''')
bug("f16-int-nondiff", "C16", [(T, "    (diff, nondiff), moduledef = module.partition(self.predicate, ...)\n", "    (diff, nondiff), moduledef = module.partition(self.predicate, ...)\n    frozen = State({k: v for k, v in diff.items() if jnp.ndim(jax.tree_util.tree_leaves(v)[0] if jax.tree_util.tree_leaves(v) else 0) == 0})\n    diff, nondiff = diff - frozen, nondiff | frozen\n")],
 "a scalar parameter among the nodes selected by wrt", "its gradient is missing",
'''m = nnx.Dict(a=nnx.Param(jnp.ones(())), b=nnx.Param(jnp.ones(2)))
g = nnx.grad(lambda m: m.a * m.b.sum())(m)
assert list(g) == ["a", "b"]
''')
bug("f17-bcast-tree", "C17", [(T, '''      lambda axis, node: jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), node),
      options.in_axes,
      axes_arg,
''', '''      lambda axis, node: jax.tree_map(
          lambda x: jnp.moveaxis(x, axis % min(jnp.ndim(x), 2), 0), node
      ),
      options.in_axes,
      axes_arg,
''')],
 "a scanned input of rank 3 or more with its axis beyond the second", "the input is sliced along another axis",
'''class A(nnx.Module):
  @nnx.scan if False else (lambda f: nnx.scan(f, in_axes=2, out_axes=0, length=2, variable_carry=...))
  def __call__(self, c, x): return c, x
_, y = A()(0.0, jnp.arange(8.0).reshape(2, 2, 2))
assert np.array_equal(y, jnp.moveaxis(jnp.arange(8.0).reshape(2, 2, 2), 2, 0))
''')
bug("f18-kwargs", "C18", [(T, "    module = module_constructor(*module_init_args, **module_init_kwargs)\n", "    module = module_constructor(\n        *module_init_args,\n        **{k: v for k, v in module_init_kwargs.items() if v is not None},\n    )\n")],
 "a keyword argument None of the constructor whose default is something else", "the layers are built with the default",
'''class A(nnx.Module):
  def __init__(self, n=3, *, ctx): self.n = n; self.w = nnx.Param(jnp.ones(2))
s = nnx.Scan(A, variable_axes={nnx.Param: 0}, length=2)(n=None, ctx=nnx.context(0))
assert s.scan_module.n is None
''')
bug("f19-ctx-positional", "C19", [(T, "    if keys is not None:\n      assert ctxdef is not None\n      kwargs[\"ctx\"] = ctxdef.merge(keys)\n\n    module = moduledef.merge(state)\n    out = f(module, *args, **kwargs)\n\n    state, _ = module.partition()\n", "    if keys:\n      assert ctxdef is not None\n      kwargs[\"ctx\"] = ctxdef.merge(keys)\n\n    module = moduledef.merge(state)\n    out = f(module, *args, **kwargs)\n\n    state, _ = module.partition()\n")],
 "a context with flags but without streams", "the context is not passed to the method",
'''class A(nnx.Module):
  @nnx.remat
  def __call__(self, x, *, ctx=None): return x * (2.0 if ctx is not None and ctx.get_flag("t") else 1.0)
assert A()(jnp.ones(()), ctx=nnx.context(flags=dict(t=True))) == 2
''')
bug("f21-dup-empty", "C21", [(SP, "  dups = tuple(k for k, v in axis_name_counts.items() if v > 1 and k is not None)\n", "  rule_names = {name for name, _ in rules}\n  dups = tuple(k for k, v in axis_name_counts.items() if v > 1 and k in rule_names)\n")],
 "a dimension name that occurs twice and has no rule", "the duplicate is accepted",
'''from nnx import spmd
try: spmd.logical_to_mesh_axes(("a", "a"), (("b", "X"),)); raise SystemExit("accepted")
except ValueError: pass
''')
bug("f22-causal-dilated", "C22", [(L, "      left_pad = kernel_dilation[0] * (kernel_size[0] - 1)\n", "      left_pad = kernel_dilation[0] * kernel_size[0] - 1\n")],
 "CAUSAL padding with a kernel dilation above 1", "the output is too long and shifted",
'''c = nnx.Conv(1, 1, (2,), padding="CAUSAL", kernel_dilation=2, ctx=nnx.context(0))
assert c(jnp.ones((1, 5, 1))).shape == (1, 5, 1)
''')
bug("f22-embed-dtype", "C22", [(L, "    self.dtype = dtype or self.embedding.dtype\n", "    self.dtype = dtype or param_dtype\n")],
 "an embedding initializer that yields another dtype than param_dtype, and no dtype", "the rows come in another dtype than the table",
'''e = nnx.Embed(2, 2, embedding_init=lambda k, s, d: jnp.ones(s, jnp.float16), ctx=nnx.context(0))
assert e(jnp.array([0])).dtype == jnp.float16
''')
bug("f23-ln-feature", "C23", [(N, "  feature_axes = _canonicalize_axes(x.ndim, feature_axes)\n  stats_shape", "  feature_axes = _canonicalize_axes(x.ndim, feature_axes)\n  reduction_axes = tuple(a for a in reduction_axes if a not in feature_axes) or reduction_axes\n  stats_shape")],
 "LayerNorm that reduces over its feature axis and another one", "the statistics are broadcast wrongly or rejected",
'''l = nnx.LayerNorm(3, reduction_axes=(1, 2), feature_axes=-1, ctx=nnx.context(0))
y = l(jnp.arange(12.0).reshape(2, 2, 3))
assert np.allclose(y.mean((1, 2)), 0, atol=1e-5)
''')
bug("f23-half", "C23", [(N, "  dtype = jnp.promote_types(dtype, jnp.float32)\n  x = jnp.asarray(x, dtype)\n", "  x = jnp.asarray(x, jnp.promote_types(dtype, jnp.result_type(x)))\n")],
 "half precision inputs", "the statistics are computed in half precision",
'''b = nnx.BatchNorm(1, use_running_average=False, ctx=nnx.context(0))
b(jnp.array([[1000.0], [1001.0]], jnp.float16))
assert b.var.dtype == jnp.float32 and abs(float(b.mean[0]) - 10.005) < 1e-4 and np.isfinite(float(b.var[0])), (b.mean, b.var)
''')
bug("f24-draw-early", "C24", [(DR, "    if (self.rate == 0.0) or deterministic:\n      return inputs\n", "    rng = ctx.make_rng(self.rng_collection) if ctx and ctx.has_rng(self.rng_collection) else None\n    if (self.rate == 0.0) or deterministic:\n      return inputs\n"), (DR, "    rng = ctx.make_rng(self.rng_collection)\n    broadcast", "    if rng is None:\n      rng = ctx.make_rng(self.rng_collection)\n    broadcast")],
 "a deterministic call with a context, followed by another draw", "a key is drawn although no mask is needed",
'''a, b = nnx.context(dropout=0), nnx.context(dropout=0)
nnx.Dropout(0.5)(jnp.ones(2), deterministic=True, ctx=a)
assert np.array_equal(a.make_rng("dropout"), b.make_rng("dropout"))
''')
bug("f26-output-mutated", "C26", [(HP, "          kwargs = dict(output)\n", "          kwargs = output\n")],
 "a callable that keeps the dict it returns, followed by one that accepts a context", "the dict of the callable gets a ctx entry",
'''kept = {"x": 1}
s = nnx.Sequence([lambda: kept, lambda x, *, ctx=None: x])
s(ctx=nnx.context(0)); assert kept == {"x": 1}
''')
bug("f29-init-false", "C29", [(M, "        if \"nnx_container_fn\" not in field.metadata:\n          continue\n", "        if \"nnx_container_fn\" not in field.metadata or not field.init:\n          continue\n")],
 "a declared field with init=False that gets its value from a default or __post_init__", "it stays a plain attribute",
'''from nnx import dataclasses as nd
@nd.dataclass
class A(nnx.Module):
  a: int = nd.node_field(init=False, default=3)
assert list(A().get_state()) == ["a"]
''')
bug("f28-first-type", "C28", [(M, "    for value in vars(self).values():\n      if isinstance(value, Module):\n        value._on_all(module_type, fn, visited)\n", "    for name, value in vars(self).items():\n      if isinstance(value, Module) and not name.startswith(\"_\"):\n        value._on_all(module_type, fn, visited)\n")],
 "a submodule under a name that starts with an underscore", "it is not visited",
'''class A(nnx.Module): pass
m = A(); m._sub = A(); seen = []
m.for_each(A, seen.append); assert len(seen) == 2
''')
bug("f27-kwargs-first", "C27", [(HP, "        params=params,\n        opt_state=opt_state,\n        step=step,\n        **kwargs,\n    )", "        **{\"params\": params, \"opt_state\": opt_state, \"step\": step, **{k: v for k, v in kwargs.items() if k in vars(self) and v is not getattr(self, k)}},\n    )")],
 "an explicitly passed unknown field", "the unknown field is ignored instead of rejected",
'''import optax
m = nnx.Dict(a=nnx.Param(jnp.ones(())))
params, d = m.partition()
t = nnx.TrainState(d, params=params, tx=optax.sgd(0.1))
try: t.apply_gradients(params, extra=1); raise SystemExit("accepted")
except ValueError: pass
''')
bug("f30-view-array", "C30", [(M, "    return {path: MutableLeaf(self, path) for path, _ in _iter_state(self)}", "    return {path: MutableLeaf(self, path) for path, v in _iter_state(self) if isinstance(v, Container)}")],
 "a module with a plain array attribute", "there is no view for it",
'''m = nnx.Dict(); m.a = jnp.ones(2)
assert list(m.mutable_state_dict()) == ["a"]
''')
bug("f32-empty-rules", "C32", [(SP, "  if rules is None:\n    rules = _axis_rules.rules\n  if not rules or logical", "  rules = rules or _axis_rules.rules\n  if not rules or logical")],
 "a variable with explicit empty rules read while ambient rules are set", "the value is constrained by the ambient rules",
'''from nnx import spmd
from jax.sharding import Mesh
mesh = Mesh(np.array(jax.devices()[:1]), ("X",))
init = spmd.with_logical_partitioning(lambda k, s, d: jnp.ones(s), ("a",), mesh=mesh, rules=())
v = nnx.Dict(w=nnx.Param(init(None, (2,), None)))
with spmd.logical_axis_rules((("a", "X"),)):
  j = str(jax.make_jaxpr(lambda p: p.merge().w)(v.partition()))
assert "sharding_constraint" not in j, j
''')
bug("f11-pure-tuple1", "C11", [(M, "  return tuple(bounded), None\n", "  states, moduledef = bounded\n  if isinstance(states, tuple):\n    states = tuple(state for state in states if state)\n  return (states, moduledef), None\n")],
 "a split module of several parts one of which is empty", "the empty part is lost by flattening",
'''p = nnx.Dict(a=nnx.Param(1)).partition(nnx.BatchStat, ...)
q = jax.tree_map(lambda x: x, p)
assert len(q.states) == 2
''')
bug("f06-positional-key", "C06", [(M, "    return CallableProxy(self._proxy_context, self._proxy_callable[key])\n", "    if isinstance(key, int) and key < 0:\n      key = str(key)\n    return CallableProxy(self._proxy_context, self._proxy_callable[key])\n")],
 "a negative index in an apply chain", "the call fails",
'''s = nnx.Sequence([nnx.Sequence([lambda x: x]), nnx.Sequence([lambda x: x + 1])])
y, _ = s.partition().apply[-1](1)
assert y == 2
''')
bug("f04-static-override", "C04", [(M, "  for path, value in state.items():\n    path_parts", "  for path, value in sorted(state.items(), key=lambda kv: kv[0].count(\"/\")):\n    path_parts")],
 "an update that names a node of a shared module by two routes of different length, the longer one first", "the first instead of the last named value wins",
'''class A(nnx.Module): pass
m = A(); m.b = A(); m.b.c = A(); m.c = m.b.c; m.c.w = nnx.Param(0)
m.update_state((nnx.State({"c/w": nnx.Param(1)}), nnx.State({"b/c/w": nnx.Param(2)})))
assert m.c.w == 2
m.update_state((nnx.State({"b/c/w": nnx.Param(3)}), nnx.State({"c/w": nnx.Param(4)})))
assert m.c.w == 4
''')
bug("f05-pop-shared-path", "C05", [(M, "        state[path] = value\n        delattr(module, name)\n        break\n", "        if any(value is v for s in states for v in s.values()):\n          break\n        state[path] = value\n        delattr(module, name)\n        break\n")],
 "the same node object stored by two plain attributes", "the second attribute stays in the module",
'''class A(nnx.Module): pass
m = A(); x = jnp.ones(2); m.a = x; m.b = x
s = m.pop_state(...)
assert list(s) == ["a", "b"] and not m.get_state()
''')
bug("f25-zero-dim", "C25", [(M, "      value = current_value + (value,)\n", "      if not current_value or value is not current_value[-1]:\n        current_value += (value,)\n      value = current_value\n")],
 "sowing the same object twice in a row", "the second value is dropped",
'''m = nnx.Dict(); x = jnp.ones(2)
m.sow(nnx.Intermediate, "h", x); m.sow(nnx.Intermediate, "h", x)
assert len(m.h) == 2
''')
bug("f31-long-tuple", "C31", [(M, "          yield reprlib.Attr(name, value)\n    finally:", "          if value is not None:\n            yield reprlib.Attr(name, value)\n    finally:")],
 "a public static attribute None", "it is not printed",
'''m = nnx.Dict(a=None)
assert "a=None" in repr(m), repr(m)
''')
bug("f03-all-short", "C03", [(F, "    return all(predicate(path, x) for predicate in self.predicates)", "    return all(predicate(path, x) for predicate in self.predicates[:2]) and (\n        len(self.predicates) <= 3 or all(p(path, x) for p in self.predicates[2:])\n    )")],
 "All of exactly three filters", "the third is ignored",
'''m = nnx.Dict(a=nnx.Param(1))
assert not m.filter(nnx.partitioning.All(nnx.Param, ..., nnx.BatchStat))
''')
bug("f09-flag-none", "C09", [(X, "    return self._flags.get(name, None)\n", "    value = self._flags.get(name)\n    return bool(value) if name in self._flags else None\n")],
 "a flag whose value is None", "it reads as False",
'''c = nnx.context(flags=dict(a=None)); assert c.get_flag("a") is None
''')
bug("f20-remove-last", "C20", [(SP, "      assert sharding.pop(index) == axis_name\n", "      if axis_name in sharding:\n        assert sharding.pop(index) == axis_name\n")],
 "removing an axis from a variable whose sharding lacks it", "the variable is left as it is instead of an error",
'''from nnx import spmd
s = nnx.State({"a": nnx.Param(1, sharding=("x", "y"))})
try: spmd.remove_axis(s, 0, {"partition_name": "l"}); raise SystemExit("accepted")
except AssertionError: pass
''')
