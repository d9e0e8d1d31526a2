H = "import jax, jax.numpy as jnp, numpy as np, nnx, copy\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
M="nnx/module.py"; T="nnx/transforms.py"; C="nnx/containers.py"; X="nnx/contextlib.py"; P="nnx/pytreelib.py"; S="nnx/state.py"; F="nnx/partitioning.py"; L="nnx/nn/linear.py"; N="nnx/nn/normalization.py"; D="nnx/dataclasses.py"; HP="nnx/helpers.py"; SP="nnx/spmd.py"

bug("d01-merge-parts", "C01", [(M, "    new_states.extend(updates)\n", "    new_states.extend(updates[:4])\n")],
 "a split into five or more parts", "the fifth and later parts are dropped when merging",
'''m = nnx.Dict(a=nnx.Param(1), b=nnx.BatchStat(2), c=nnx.Cache(3), d=nnx.Intermediate(4), e=nnx.Variable(5))
p = m.partition(nnx.Param, nnx.BatchStat, nnx.Cache, nnx.Intermediate, ...)
assert p.merge().e == 5
''')
bug("d01-deep-path", "C01", [(M, '''    path_parts = path.split("/")
    _set_value_at_path(module, path_parts, value)''', '''    *path_parts, name = path.split("/")
    target = module
    for part in path_parts[:4]:
      target = vars(target)[part]
    _set_value_at_path(target, (name,), value)''')],
 "modules nested five deep", "nodes of deeply nested modules end up in one of their ancestors",
'''m = nnx.Dict(w=nnx.Param(1))
for i in range(6): m = nnx.Dict(k=m)
c = m.clone()
assert list(c.get_state()) == list(m.get_state()), list(c.get_state())
''')
bug("d02-sorted-len", "C02", [(M, '''  seen_modules.add(module._module__state.id)

  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
    new_path_parts''', '''  seen_modules.add(module._module__state.id)

  for name, value in sorted(
      vars(module).items(), key=lambda x: (isinstance(x[1], Module), x[0])
  ):
    new_path_parts''')],
 "a module shared between a module attribute and a nested one that sorts earlier, with plain nodes between", "no change of keys but ... paths of shared modules",
'''class A(nnx.Module): pass
m = A(); m.b = A(); m.a = nnx.Param(1); m.b.w = nnx.Param(2); m.c = nnx.Param(3)
assert [k for k, _ in __import__("nnx.module", fromlist=["x"])._iter_state(m)] == ["a", "b/w", "c"]
''')
bug("d03-truthy", "C03", [(S, "      if predicate(path, value):\n", "      if predicate(path, value) is True:\n")],
 "a predicate that returns a truthy value which is not True, like a regular expression match", "such predicates never match",
'''import re
m = nnx.Dict(a=nnx.Param(1), b=nnx.Param(2))
assert list(m.filter(lambda p, x: re.match("a", p))) == ["a"]
''')
bug("d03-merge-unsorted", "C03", [(S, '''    for state in states:
      new_state.update(state)

    return State(new_state)''', '''    for state in states:
      new_state.update(state)

    merged = object.__new__(State)
    merged._mapping = new_state
    return merged''')],
 "merging parts whose keys interleave", "the merged state has its keys in another order than the original, so its tree structure differs",
'''m = nnx.Dict(a=nnx.Param(jnp.ones(1)), b=nnx.BatchStat(jnp.ones(1)), c=nnx.Param(jnp.ones(1)))
s = m.get_state(); t = nnx.State.merge(*s.partition(nnx.Param, ...))
assert jax.tree_util.tree_structure(s) == jax.tree_util.tree_structure(t)
''')
bug("d03-ellipsis-penult", "C03", [(S, "    if filter_ is ... and i != len(filters) - 1:\n", "    if filter_ is ... and any(f is not ... for f in filters[i + 1 :]):\n")],
 "an ellipsis followed only by ellipses", "an ellipsis before the last position is accepted",
'''try: nnx.Dict(a=nnx.Param(1)).partition(..., ...); raise SystemExit(1)
except ValueError: pass
''')
bug("d03-empty-all", "C03", [(F, "    return all(predicate(path, x) for predicate in self.predicates)", "    return bool(self.predicates) and all(p(path, x) for p in self.predicates)")],
 "an intersection of no filters", "All() matches nothing",
'''assert len(nnx.Dict(a=nnx.Param(1)).filter(nnx.All())) == 1
''')
bug("d04-none-value", "C04", [(M, '''  for path, value in state.items():
    path_parts = path.split("/")''', '''  for path, value in state.items():
    if isinstance(value, Container) and value.value is None:
      continue
    path_parts = path.split("/")''')],
 "an update that sets a variable to None", "such updates are ignored",
'''m = nnx.Dict(a=nnx.Param(1)); m.update_state(nnx.State(dict(a=nnx.Param(None))))
assert m.a is None
''')
bug("d04-static-to-node", "C04", [(M, '''  for path, value in state.items():
    path_parts = path.split("/")
    _set_value_at_path(module, path_parts, value)''', '''  current = set(current_state)
  for path, value in sorted(state.items(), key=lambda x: x[0] in current):
    path_parts = path.split("/")
    _set_value_at_path(module, path_parts, value)''')],
 "a state naming a node by two paths through a shared module, one of them new", "when several names reach a node the present name wins instead of the last",
'''class A(nnx.Module): pass
m = A(); m.x = A(); m.y = m.x; m.x.w = nnx.Param(1)
m.update_state((nnx.State({"x/w": nnx.Param(2)}), nnx.State({"y/w": nnx.Param(3)})))
assert m.x.w == 3, m.x.w
''')
bug("d05-keep-empty", "C05", [(M, "        state[path] = value\n        delattr(module, name)\n        break", "        state[path] = value\n        if any(state is s for s in states[:2]):\n          delattr(module, name)\n        break")],
 "popping with three filters", "nodes that only the third filter matches are returned but stay in the module",
'''m = nnx.Dict(a=nnx.Param(1), b=nnx.BatchStat(2), c=nnx.Cache(3))
m.pop_state(nnx.Param, nnx.BatchStat, nnx.Cache)
assert len(m.get_state()) == 0
''')
bug("d06-call-cached", "C06", [(M, '''    def _context(accessesor, *args, **kwargs):
      module = self.merge()
      fn = accessesor(module)
      return fn(*args, **kwargs)''', '''    module = self.merge()

    def _context(accessesor, *args, **kwargs):
      fn = accessesor(module)
      return fn(*args, **kwargs)''')],
 "one call proxy used twice on a module that updates its state", "the second call sees the updates of the first",
'''class A(nnx.Module):
  def __init__(self): self.n = nnx.BatchStat(0)
  def inc(self): self.n = self.n + 1; return self.n
f = A().partition().call.inc
assert f() == 1 and f() == 1
''')
bug("d06-empty-parts", "C06", [(M, '''  def apply(self) -> ApplyCaller["Pure[State, M]"]:
    if isinstance(self.states, tuple):
      return self.moduledef.apply(*self.states)''', '''  def apply(self) -> ApplyCaller["Pure[State, M]"]:
    if isinstance(self.states, tuple):
      return self.moduledef.apply(*reversed(self.states))''')],
 "a split module whose parts overlap", "apply lets the first part win where merge lets the last one win",
'''m = nnx.Dict(a=nnx.Param(1)); md = m.get_module_def()
p = nnx.Pure.new((nnx.State(dict(a=nnx.Param(1))), nnx.State(dict(a=nnx.Param(2)))), md)
assert p.merge().a == 2 and p.apply.__getitem__("a").__class__ and p.apply.values()[1].merge().a == 2
''')
bug("d07-new-attr", "C07", [(M, '''    if not self._module__state.trace_state.is_valid():
      raise''', '''    if (
        name in vars(self)
        and isinstance(vars(self)[name], Container)
        and not self._module__state.trace_state.is_valid()
    ):
      raise''')],
 "adding an attribute, or assigning a static one, from another trace", "such assignments are accepted",
'''m = nnx.Dict(a=nnx.Param(1))
@jax.jit
def f(x):
  m.new = x; return x
try: f(1.0); raise SystemExit(1)
except nnx.TraceContextError: pass
''')
bug("d07-jit-raise", "C07", [("nnx/tracers.py", '''  try:
    yield
  finally:
    TRACE_CONTEXT.nnx_trace_stack.pop()''', '''  yield
  TRACE_CONTEXT.nnx_trace_stack.pop()''')],
 "a function that raises inside a transform", "modules of the outer trace can no longer be used",
'''m = nnx.Dict(a=nnx.Param(1.0))
@nnx.jit
def f(m): raise KeyError
try: f(m)
except KeyError: pass
m.a = 2.0
''')
bug("d08-short-hash", "C08", [(X, '  return int.from_bytes(hash_bytes[:4], byteorder="big")', '  return int.from_bytes(hash_bytes[:4], byteorder="big") & 0x7FFF')],
 "a few hundred draws", "fold-in data of 15 bits collide, so that keys are handed out twice",
'''c = nnx.context(0)
ks = [tuple(np.asarray(c.make_rng("params")).tolist()) for _ in range(1500)]
assert len(set(ks)) == len(ks)
''')
bug("d08-count-reset", "C08", [(X, '''    def fork(stream) -> "RngStream":
      count_path = stream.count_path + (stream.count,)
      stream.count += 1''', '''    def fork(stream) -> "RngStream":
      count_path = stream.count_path + (stream.count,)
      if stream.count_path and stream.count == 0:
        return RngStream(stream.key, count_path=count_path)
      stream.count += 1''')],
 "a context that was split off another, and is split before its first draw and once more", "two contexts split off the same one get the same keys",
'''a = nnx.context(0).partition().merge()
b, c = a.partition().merge(), a.partition().merge()
assert not np.array_equal(b.make_rng("params"), c.make_rng("params"))
''')
bug("d09-flag-false", "C09", [(X, "    return self._flags.get(name, None)", "    return self._flags.get(name) or None")],
 "a flag that is set to False", "reads as None", '''assert nnx.context(0, flags=dict(a=False)).get_flag("a") is False
''')
bug("d09-mapping-order", "C09", [(X, "        to_rng_predicate(filter) for filter, include in filter.items() if include", "        to_rng_predicate(filter)\n        for filter, include in filter.items()\n        if include is True")],
 "a mapping with a truthy value which is not True, like 1 or a numpy bool", "such entries are not included",
'''from nnx.contextlib import to_rng_predicate
assert to_rng_predicate({"a": np.bool_(True)})("a")
''')
bug("d10-replace-equal", "C10", [(M, '''      vars_dict[name] = vars_dict[name].replace(value=value)
    else:
      if isinstance(value, Container):
        value = value.copy()
      vars_dict[name] = value

  def __hash__''', '''      vars_dict[name] = vars_dict[name].replace(value=value)
    else:
      if isinstance(value, Container) and name in vars_dict:
        value = value.copy()
      vars_dict[name] = value

  def __hash__''')],
 "one variable object assigned to two new attributes, and its dictionary updated", "both attributes hold the same object",
'''v = nnx.Param(1); m = nnx.Dict(a=v, b=v)
assert vars(m)["a"] is not vars(m)["b"] and vars(m)["a"] is not v
''')
bug("d11-meta-order", "C11", [(C, "      return (node,), attributes\n", "      return (node,), tuple(attributes.items())\n"), (C, "      return cls(children[0], **metadata)", "      return cls(children[0], **dict(metadata))")],
 "two equal variables whose metadata were given in a different order", "their tree structures differ",
'''a = nnx.Param(1, x=1, y=2); b = nnx.Param(1, y=2, x=1)
assert jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b)
''')
bug("d12-hash-index", "C12", [(M, "    return hash((self._type, self._submodules, self._static_fields))", "    return hash((self._type, self._index, self._submodules, self._static_fields))")],
 "the definition of a submodule taken out of its parent's definition", "equal definitions have different hashes",
'''m = nnx.Dict(k=nnx.Dict(w=nnx.Param(1)))
d = m.get_module_def().submodules[0][1]; e = m.k.get_module_def()
assert d == e and hash(d) == hash(e)
''')
bug("d12-names", "C12", [(M, '''        and self._submodules == other._submodules
''', '''        and [d for _, d in self._submodules] == [d for _, d in other._submodules]
''')],
 "two modules whose submodules have different names", "their definitions are equal",
'''a = nnx.Dict(x=nnx.Dict()); b = nnx.Dict(y=nnx.Dict())
assert a.get_module_def() != b.get_module_def()
''')
bug("d13-keys-unboxed", "C13", [(P, "          node_values.append((jax.tree_util.GetAttrKey(field), value))", "          node_values.append((jax.tree_util.GetAttrKey(field), getattr(pytree, field)))")],
 "mapping with paths over an object that has a node container", "the containers of node fields are lost when flattening with keys",
'''class A(nnx.Pytree):
  def __init__(self): self.a = nnx.Param(1, sharding=("x",)); self.b = nnx.TreeNode(2)
a = A(); l, d = jax.tree_util.tree_flatten_with_path(a)
b = jax.tree_util.tree_unflatten(d, [x for _, x in l])
assert type(vars(b)["a"]) is nnx.Param
''')
bug("d13-replace-same", "C13", [(P, "    pytree = copy(self)\n", "    if all(getattr(self, key) is value for key, value in kwargs.items()):\n      return self\n\n    pytree = copy(self)\n")],
 "replacing by the present values in a mutable class", "returns the same object instead of a new one",
'''class A(nnx.Pytree, mutable=True):
  def __init__(self): self.a = 1
a = A(); b = a.replace(); b.a = 2
assert a.a == 1
''')
bug("d14-consume-dict", "C14", [(P, "    state = state.copy()  # copy the state so we can pop the restored fields.\n", "")],
 "restoring twice from the same dict", "restoring removes the fields from the dict it is given",
'''from flax import serialization
class A(nnx.Pytree):
  def __init__(self): self.a = nnx.TreeNode(1)
a = A(); d = serialization.to_state_dict(a)
serialization.from_state_dict(a, d); assert serialization.from_state_dict(a, d).a == 1
''')
bug("d15-none-output", "C15", [(T, '''      updates: State
      updates, out = out
      module.update_state(updates)''', '''      updates: State
      updates, out = out
      if updates or out is not None:
        module.update_state(updates)
      vars(module).pop("_cache", None)''')],
 "a module with an attribute called _cache", "a static attribute is lost by a jitted call",
'''class A(nnx.Module): pass
m = A(); m._cache = 3; m.w = nnx.Param(1.0)
nnx.jit(lambda m: m.w)(m)
assert m._cache == 3
''')
bug("d15-only-changed-paths", "C15", [(T, '''      if self.stateful:
        updates = module.get_state()
        out = (updates, out)

      return out

    self.jitted_fn''', '''      if self.stateful:
        updates = module.get_state()
        before = pure_module.get_state()
        if set(updates) == set(before):
          updates = State({k: v for k, v in updates.items() if k in before and v != before[k]})
        out = (updates, out)

      return out

    self.jitted_fn''')],
 "containers that hold arrays, compared by value", "updates compared inside the trace", '''m = nnx.Dict(w=nnx.Param(jnp.ones(2)))
def f(m): m.w = m.w + 1
nnx.jit(f)(m); assert float(m.w[0]) == 2
''')
bug("d17-axes-order", "C17", [(T, '''      jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), axes_state)
      for axes_state, axis in zip(axes_states, options.variable_axes.values())''', '''      jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), axes_state)
      for axes_state, axis in zip(axes_states, sorted(options.variable_axes.values()))''')],
 "two axis groups whose axes are not in ascending order", "the variables are sliced along each other's axis",
'''class L(nnx.Module):
  def __init__(self):
    self.w = nnx.Param(jnp.arange(4.).reshape(2, 2)); self.b = nnx.BatchStat(jnp.arange(4.).reshape(2, 2))
  def f(self, c, x): return c + self.w[0] + 10 * self.b[1], x
m = L()
g = nnx.scan(L.f, variable_axes={nnx.Param: 1, nnx.BatchStat: 0})
c, _ = g(m, 0., jnp.zeros(2))
assert float(c) == 0 + 1 + 10 * (1 + 3), c
''')
bug("d17-length-check", "C17", [(T, "    if options.length is not None and options.length != length:", "    if options.length is not None and options.length < length:")],
 "a declared length larger than the one of the inputs", "lengths that disagree are accepted",
'''class L(nnx.Module):
  def f(self, c, x): return c + x, x
try: nnx.scan(L.f, length=3)(L(), 0., jnp.zeros(2)); raise SystemExit(1)
except ValueError: pass
''')
bug("d18-split-first", "C18", [(T, "        key = jax.random.split(key, options.length)\n        key_axes.append(0)", "        key = jax.random.split(key, options.length)[::-1] if name == key_names[-1] and len(key_names) > 2 else jax.random.split(key, options.length)\n        key_axes.append(0)")],
 "contexts with three streams of which the last one is split", "layers get each other's slices", '''class L(nnx.Module):
  def __init__(self, *, ctx): self.w = nnx.Param(jax.random.uniform(ctx.make_rng("c"), ()))
m = nnx.Scan(L, variable_axes={nnx.Param: 0}, split_rngs=["c"], length=2)(ctx=nnx.context(a=0, b=1, c=2))
k = nnx.context(c=2).partition().keys["c"]
cd = nnx.context(c=2).partition().contextdef
ref = [float(jax.random.uniform(cd.merge(dict(c=q)).make_rng("c"), ())) for q in jax.random.split(k, 2)]
assert np.allclose(m.scan_module.w, ref)
''')
bug("d18-axis-sharding", "C18", [(T, '''  # add additional axis name to Variable.sharding
  if spmd.PARTITION_NAME in options.metadata_params:
    axes_states = [
        spmd.add_axis(state, index, options.metadata_params)
        for state, index in zip(axes_states, options.variable_axes.values())
    ]

  module = ''', '''  # add additional axis name to Variable.sharding
  if spmd.PARTITION_NAME in options.metadata_params:
    axes_states = [
        spmd.add_axis(state, 0, options.metadata_params) for state in axes_states
    ]

  module = ''')],
 "a scanned initialisation along another axis than the first", "the axis name is inserted at the wrong position",
'''class L(nnx.Module):
  def __init__(self, *, ctx): self.w = nnx.Param(jnp.ones((2,)), sharding=("a",))
m = nnx.Scan(L, variable_axes={nnx.Param: 1}, length=3, metadata_params={nnx.PARTITION_NAME: "l"})(ctx=nnx.context(0))
assert vars(m.scan_module)["w"].sharding == ("a", "l")
''')
BUGS[-1]["prop"] = "C20"
bug("d19-static-offset", "C19", [(T, "    self.static_argnums = tuple(x + 2 if x >= 0 else x for x in self.static_argnums)", "    self.static_argnums = tuple(x + 2 if x > 0 else x for x in self.static_argnums)")],
 "a rematerialised method whose first argument is static", "the state is taken for the static argument",
'''class L(nnx.Module):
  def __init__(self): self.w = nnx.Param(2.)
  def f(self, k, x, *, ctx=None): return x * self.w if k else x
g = nnx.remat(L.f, static_argnums=0)
assert float(g(L(), True, 3.)) == 6
''')
bug("d20-pad-len", "C20", [(SP, "      while len(sharding) < index:\n", "      while len(sharding) + 1 < index:\n")],
 "an axis two positions beyond the declared names", "too little padding before the axis name",
'''from nnx import spmd
s = nnx.State(dict(w=nnx.Param(1, sharding=("a",))))
assert spmd.add_axis(s, 2, {nnx.PARTITION_NAME: "l"})["w"].sharding == ("a", None, "l")
''')
bug("d20-spec-none-names", "C20", [(SP, "        return PartitionSpec(*x.sharding)", "        return PartitionSpec(*x.sharding) if any(x.sharding) else PartitionSpec()")],
 "a variable whose sharding names are all None", "its partition spec is empty",
'''assert tuple(nnx.get_partition_spec(nnx.State(dict(w=nnx.Param(jnp.ones((1, 1)), sharding=(None, None)))))["w"]) == (None, None)
''')
bug("d21-empty-rules", "C21", [(SP, '''    return None
  if rules is None:
    rules = _axis_rules.rules
  axis_name_counts''', '''    return None
  if not rules:
    rules = _axis_rules.rules
  axis_name_counts''')],
 "explicit empty rules inside ambient ones", "explicit empty rules do not override the ambient ones",
'''from nnx import spmd
with nnx.logical_axis_rules((("a", "x"),)):
  assert tuple(spmd.logical_to_mesh_axes(("a",), ())) == (None,)
''')
bug("d21-thread-rules", "C21", [(SP, "class _AxisRules(threading.local):", "class _AxisRules:")],
 "two threads of which one is inside the context manager", "ambient rules leak to other threads",
'''import threading
from nnx import spmd
out = []
with nnx.logical_axis_rules((("a", "x"),)):
  t = threading.Thread(target=lambda: out.append(spmd.get_logical_axis_rules())); t.start(); t.join()
assert out == [()]
''')
bug("d22-mask-dtype", "C22", [(L, "    if self.mask_fn is not None:\n      kernel = self.mask_fn(kernel)", "    if self.mask_fn is not None and self.feature_group_count == 1:\n      kernel = self.mask_fn(kernel)")],
 "a grouped convolution with a mask", "the mask is ignored",
'''c = nnx.Conv(2, 2, (1,), feature_group_count=2, use_bias=False, mask_fn=lambda k: k * 0, ctx=nnx.context(0))
assert float(jnp.abs(c(jnp.ones((1, 3, 2)))).max()) == 0
''')
bug("d22-attend-dtype", "C22", [(L, "    query, embedding = dtypes.promote_dtype(query, self.embedding, dtype=self.dtype)", "    query, embedding = dtypes.promote_dtype(query, self.embedding)")],
 "attend of an embedding with a requested dtype", "the result has another dtype than requested",
'''e = nnx.Embed(3, 2, dtype=jnp.float16, ctx=nnx.context(0))
assert e.attend(jnp.ones((2,))).dtype == jnp.float16
''')
bug("d23-mode-order", "C23", [(N, '''        use_running_average,
        self.use_running_average,
        ctx and''', '''        use_running_average or None,
        self.use_running_average,
        ctx and''')],
 "an explicit False in the call of a layer configured for inference", "the explicit False counts as not given",
'''b = nnx.BatchNorm(2, use_running_average=True, ctx=nnx.context(0))
b(jnp.ones((3, 2)), False); assert float(b.mean[0]) > 0
''')
bug("d23-layer-axes", "C23", [(N, '''    mean, var = _compute_stats(
        x, self.reduction_axes,''', '''    mean, var = _compute_stats(
        x, self.reduction_axes if isinstance(self.reduction_axes, int) else self.reduction_axes[-1],''')],
 "a layer norm over two axes", "the statistics are taken over the last of them only",
'''l = nnx.LayerNorm(3, reduction_axes=(-2, -1), ctx=nnx.context(0))
y = l(jnp.arange(6.).reshape(1, 2, 3)); assert y.shape == (1, 2, 3) and abs(float(y.mean())) < 1e-3 and float(y[0, 0].max()) < 0
''')
bug("d24-ctx-first", "C24", [("nnx/nn/stochastic.py", '''    if self.rate == 1.0:
      return jnp.zeros_like(inputs)

    if ctx is None:
      raise ValueError(
          "Dropout needs to generate a random mask but no 'ctx' were provided."
      )
''', '''    if ctx is None:
      raise ValueError(
          "Dropout needs to generate a random mask but no 'ctx' were provided."
      )

    if self.rate == 1.0:
      return jnp.zeros_like(inputs)
''')],
 "rate 1 and no context", "a missing context is an error although no mask is needed",
'''assert float(nnx.Dropout(1.0, deterministic=False)(jnp.ones(2)).sum()) == 0
''')
bug("d24-multiply", "C24", [("nnx/nn/stochastic.py", "    return lax.select(mask, inputs / keep_prob, jnp.zeros_like(inputs))", "    return inputs * mask / keep_prob")],
 "an input that is infinite or not a number", "dropped elements are not zero",
'''d = nnx.Dropout(0.5, deterministic=False)
y = d(jnp.full((64,), jnp.inf), ctx=nnx.context(dropout=0))
assert not bool(jnp.isnan(y).any())
''')
bug("d25-none-ignored", "C25", [(M, '''    if hasattr(self, name):
      variable = vars(self)[name]
      if not''', '''    if value is None and hasattr(self, name):
      return
    if hasattr(self, name):
      variable = vars(self)[name]
      if not''')],
 "sowing None as a later value", "the value is skipped",
'''m = nnx.Dict(); m.sow(nnx.Intermediate, "a", 1); m.sow(nnx.Intermediate, "a", None)
assert m.a == (1, None)
''')
bug("d26-eleven", "C26", [(HP, '''      if ctx is not None and has_keyword_arg(f, "ctx"):
        kwargs["ctx"] = ctx''', '''      if ctx is not None and "ctx" not in kwargs and i < 8 and has_keyword_arg(f, "ctx"):
        kwargs["ctx"] = ctx''')],
 "a dict output that has a key ctx, or more than eight callables", "the context is not passed on",
'''def a(x): return dict(x=x, ctx=None)
def b(x, ctx=None): return ctx
c = nnx.context(0)
assert nnx.Sequence([a, b])(1, ctx=c) is c
''')
bug("d27-no-params", "C27", [(HP, "    updates, opt_state = self.tx.update(grads, self.opt_state, self.params)", "    updates, opt_state = self.tx.update(grads, self.opt_state, grads)")],
 "an optimiser that uses the parameters, like weight decay", "weight decay uses the gradients",
'''import optax
p, d = nnx.Dict(w=nnx.Param(jnp.ones(2))).partition()
t = nnx.TrainState(d, params=p, tx=optax.chain(optax.add_decayed_weights(0.5), optax.sgd(1.0)))
g = jax.tree_map(jnp.zeros_like, p)
assert float(t.apply_gradients(g).params["w"].value[0]) == 0.5
''')
bug("d29-none-default", "C29", [(M, '''        value = vars(module)[field.name]
        value = container_fn(value)''', '''        value = vars(module)[field.name]
        if not field.init and value is None:
          continue
        value = container_fn(value)''')],
 "a field that is not a constructor argument and has the default None", "the field loses its role",
'''@nnx.dataclass
class A(nnx.Module):
  a: object = nnx.node_field(default=None, init=False)
assert list(A().get_state()) == ["a"]
''')
bug("d29-factory-sharding", "C29", [(D, '''  metadata["nnx_container_fn"] = lambda value: variable_type(value, sharding=sharding)
''', '''  if default_factory is not dataclasses.MISSING:
    metadata["nnx_container_fn"] = lambda value: variable_type(value)
  else:
    metadata["nnx_container_fn"] = lambda value: variable_type(value, sharding=sharding)
''')],
 "a variable field with a default factory and a sharding", "the declared sharding is lost",
'''@nnx.dataclass
class A(nnx.Module):
  a: object = nnx.var_field(nnx.Param, default_factory=lambda: 1, sharding=("x",))
assert vars(A())["a"].sharding == ("x",)
''')
bug("d30-wrap", "C30", [("nnx/ids.py", "      self._id += 1\n", "      self._id = (self._id + 1) % 65536\n")],
 "more than 65536 modules", "identities are handed out again",
'''a = nnx.Dict()
for _ in range(65535): nnx.Module()
b = nnx.Dict()
assert hash(a) != hash(b)
''')
