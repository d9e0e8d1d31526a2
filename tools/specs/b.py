H = "import jax, jax.numpy as jnp, numpy as np, nnx\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
M="nnx/module.py"; T="nnx/transforms.py"; C="nnx/containers.py"; X="nnx/contextlib.py"; P="nnx/pytreelib.py"

bug("c01-private-prefix", "C01", [(M, '''not name.startswith("_module__"):''', '''not name.startswith("_module"):''')],
 "a static attribute whose name starts with _module, for example _modules_order",
 "such static attributes are missing after split and merge",
'''m = nnx.Dict(w=nnx.Param(1)); m._module_kind = "abc"
assert m.clone()._module_kind == "abc"
''')

bug("c02-static-in-state", "C02", [(M, '''    elif nodes.is_node(value):
      path = "/".join(new_path_parts)
      yield path, value''', '''    elif nodes.is_node(value) or isinstance(value, Container):
      path = "/".join(new_path_parts)
      yield path, value''')],
 "a module with an attribute in a Static container",
 "static containers show up in the state as well",
'''m = nnx.Dict(w=nnx.Param(1)); m.s = nnx.Static("x")
assert list(m.get_state()) == ["w"]
''')

bug("c03-oftype-value", "C03", [("nnx/partitioning.py", '''    return isinstance(x, self.type)''', '''    return isinstance(x, self.type) or isinstance(
        getattr(x, "value", None), self.type
    )''')],
 "a type filter that the value inside a variable satisfies, for example jax.Array",
 "type filters also match variables by the type of their value",
'''m = nnx.Dict(w=nnx.Param(jnp.ones(2))); m.a = jnp.ones(2)
assert list(m.filter(jax.Array)) == ["a"]
''')

bug("c03-ellipsis-filter", "C03", [("nnx/state.py", '''    if filter_ is ... and i != len(filters) - 1:''', '''    if filter_ is ... and i < len(filters) - 2:''')],
 "`...` in exactly the last but one position",
 "`...` before the last position is accepted",
'''s = nnx.Dict(w=nnx.Param(1)).get_state()
try: s.partition(..., nnx.Param); ok = False
except ValueError: ok = True
assert ok
''')

bug("c04-pure-split-order", "C04", [(M, '''      states = self.states + states
    else:''', '''      states = states + self.states
    else:''')],
 "updating a split module that is held in several parts",
 "the old values win over the updates",
'''m = nnx.Dict(w=nnx.Param(1), c=nnx.BatchStat(2))
p = m.partition(nnx.Param, ...)
q = p.update_state(nnx.State({"w": nnx.Param(5)}))
assert q.merge().w == 5
''')

bug("c05-pop-order", "C05", [(M, '''  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
    if isinstance(value, Module):
      _pop_recursive(''', '''  for name, value in list(vars(module).items()):
    if isinstance(value, Module):
      _pop_recursive(''')],
 "a module shared by two attributes that were assigned in another than alphabetical order",
 "popped nodes come under another path than the state's",
'''s = nnx.Dict(w=nnx.Param(1))
m = nnx.Dict(); m.b = s; m.a = s
k = list(m.get_state())
assert list(m.pop_state(nnx.Param)) == k
''')

bug("c06-proxy-mutate", "C06", [(M, '''  def __getitem__(self, key) -> "CallableProxy":
    return CallableProxy(self._proxy_context, self._proxy_callable[key])''', '''  def __getitem__(self, key) -> "CallableProxy":
    self._proxy_callable = self._proxy_callable[key]
    return self''')],
 "two items taken from the same apply caller",
 "indexing a caller changes it, so the second item is looked up inside the first",
'''m = nnx.Dict(a=nnx.Linear(2, 2, ctx=nnx.context(0)), b=nnx.Linear(2, 3, ctx=nnx.context(1)))
f = m.apply
x = jnp.ones((1, 2))
y, _ = f["a"](x); z, _ = f["b"](x)
assert z.shape == (1, 3)
''')

bug("c07-level-compare", "C07", [("nnx/tracers.py", '''        self._jax_trace is current_jax_trace()
        and self._nnx_trace is current_nnx_trace()''', '''        self._jax_trace.level == current_jax_trace().level
        and self._nnx_trace is current_nnx_trace()''')],
 "a module leaked out of one jitted function and mutated in another one at the same level",
 "mutation of a leaked module is accepted in another trace of the same level",
'''out = []
@jax.jit
def f(x):
  out.append(nnx.Dict(w=1)); return x
@jax.jit
def g(x):
  out[0].w = x; return x
f(1.)
try: g(1.); ok = False
except nnx.TraceContextError: ok = True
assert ok
''')

bug("c08-path-tail", "C08", [(X, '''      count_path = stream.count_path + (stream.count,)
      stream.count += 1
      return''', '''      count_path = stream.count_path[-2:] + (stream.count,)
      stream.count += 1
      return''')],
 "contexts split four levels deep",
 "the path of a context keeps only the last three splits, so a context and one split off it yield the same keys",
'''c = nnx.context(0)
for _ in range(3): c = c.partition().merge()
d = c.partition().merge()
d.make_rng("params")
assert not (c.make_rng("params") == d.make_rng("params")).all()
''')

bug("c09-substring", "C09", [(X, '''    return lambda name: name == filter
''', '''    return lambda name: name in filter
''')],
 "a stream whose name is contained in the name of the filter",
 "a name filter selects other streams too",
'''f = nnx.contextlib.to_rng_predicate("dropout") if hasattr(nnx, "contextlib") else __import__("nnx.contextlib").contextlib.to_rng_predicate("dropout")
assert f("dropout") and not f("drop") and not f("params")
''')

bug("c10-none-meta", "C10", [(C, '''      return {k: v for k, v in vars(container).items() if k != "value"}''', '''      return {
          k: v for k, v in vars(container).items() if k != "value" and v is not None
      }''')],
 "two variables of which one has a metadata field that is None and the other lacks it",
 "variables with different metadata are taken for equivalent",
'''m = nnx.Dict(w=nnx.Param(1))
try: m.w = nnx.Param(2, note=None); ok = False
except ValueError: ok = True
assert ok
''')

bug("c11-ctxdef-path", "C11", [(X, '''  return (), (contextdef._rng_counts, contextdef._flags)''', '''  counts = tuple((name, path[-1:]) for name, path in contextdef._rng_counts)
  return (), (counts, contextdef._flags)''')],
 "a context that was split off a split context and is passed through a jax transformation",
 "the split path of a context is cut by flattening",
'''c = nnx.context(0).partition().merge().partition()
d = jax.tree_map(lambda x: x, c)
assert (c.merge().make_rng("params") == d.merge().make_rng("params")).all()
''')

bug("c12-hash-initstate", "C12", [(M, '''    return hash((self._type, self._submodules, self._static_fields))''', '''    return hash(
        (self._type, self._submodules, self._static_fields, self._module_state)
    )''')],
 "a definition taken while the module is initialising",
 "equal definitions have different hashes",
'''class Foo(nnx.Module):
  def __init__(self): self.w = nnx.Param(1)
  def grab(self): return self.get_module_def()
m = Foo()
a = m.init.grab(); b = m.get_module_def()
assert a == b and hash(a) == hash(b)
''')

bug("c13-fields-class-cache", "C13", [(P, '''    vars(obj)["_pytree__sorted_fields"] = sorted(vars(obj))''', '''    if "_pytree__field_names" not in cls.__dict__:
      cls._pytree__field_names = tuple(sorted(vars(obj)))
    vars(obj)["_pytree__sorted_fields"] = [
        name for name in cls._pytree__field_names if name in vars(obj)
    ]''')],
 "two objects of one class, the second with a field that the first does not have",
 "fields that the first object of a class lacked are lost by flattening",
'''class Foo(nnx.Pytree):
  def __init__(self, b=None):
    self.a = nnx.Node(1)
    if b is not None: self.b = nnx.Node(b)
Foo(); f = Foo(2)
assert jax.tree_util.tree_leaves(f) == [1, 2] and jax.tree_map(lambda x: x, f).b == 2
''')

bug("c14-unknown-none", "C14", [(P, '''    if state:
      names = ",".join(state.keys())''', '''    if any(value is not None for value in state.values()):
      names = ",".join(state.keys())''')],
 "a state dict with an unknown field whose value is None",
 "an unknown field is ignored",
'''from flax import serialization
class Foo(nnx.Pytree):
  def __init__(self, x): self.x = nnx.Node(x)
d = serialization.to_state_dict(Foo(3)); d["y"] = None
try: serialization.from_state_dict(Foo(1), d); ok = False
except ValueError: ok = True
assert ok
''')

bug("c15-only-containers", "C15", [(T, '''        updates = module.get_state()
        out = (updates, out)

      return out

    self.jitted_fn''', '''        updates = module.filter(containers.Node)
        out = (updates, out)

      return out

    self.jitted_fn''')],
 "a jitted function that assigns a plain array attribute",
 "assignments to attributes that hold plain arrays are lost",
'''m = nnx.Dict(w=nnx.Param(jnp.ones(2))); m.a = jnp.ones(2)
@nnx.jit
def f(m): m.a = m.a + 1; m.w = m.w * 2
f(m)
assert (m.w == 2).all() and (m.a == 2).all()
''')

bug("c15-def-cache", "C15", [(T, '''    pure_module = module.partition()
    out = self.jitted_fn(pure_module, *args, **kwargs)''', '''    # the structure of a module seldom changes
    if self.seen is None or self.seen[0] is not module:
      self.seen = (module, module.get_module_def())
    pure_module = PureModule.new(module.get_state(), self.seen[1])
    out = self.jitted_fn(pure_module, *args, **kwargs)'''), (T, '''    self.jitted_fn = jitted_fn
    self.stateful = stateful

  def __call__(self, module: tp.Any, *args, **kwargs):''', '''    self.jitted_fn = jitted_fn
    self.stateful = stateful
    self.seen = None

  def __call__(self, module: tp.Any, *args, **kwargs):'''),
 (T, '''    PureModule,
)''', '''    Pure as PureModule,
)''') ],
 "a static attribute of a module that changes between two calls of the same jitted function",
 "the second call runs with the old static attributes",
'''class Foo(nnx.Module):
  def __init__(self): self.k = 2; self.w = nnx.Param(jnp.float32(1.))
m = Foo()
f = nnx.jit(lambda m, x: m.k * x * m.w)
assert float(f(m, 1.)) == 2
m.k = 3
assert float(f(m, 1.)) == 3
''')

bug("c16-new-nodes", "C16", [(T, '''      if self.stateful:
        updates = module.get_state()
        if self.has_aux:''', '''      if self.stateful:
        known = State.merge(diff, non_diff)
        updates = State((k, v) for k, v in module.get_state().items() if k in known)
        if self.has_aux:''')],
 "a function that creates a node (for example sows) under grad",
 "nodes created inside grad are not propagated",
'''m = nnx.Dict(w=nnx.Param(jnp.float32(2.)))
def f(m):
  m.sow(nnx.Intermediate, "h", m.w)
  return m.w ** 2
nnx.grad(f)(m)
assert hasattr(m, "h")
''')

bug("c17-swap-state-axes", "C17", [(T, '''      jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), axes_state)
      for axes_state''', '''      jax.tree_map(lambda x: jnp.swapaxes(x, axis, 0), axes_state)
      for axes_state'''), (T, '''      jax.tree_map(lambda x: jnp.moveaxis(x, 0, axis), axes_state)
      for axes_state''', '''      jax.tree_map(lambda x: jnp.swapaxes(x, 0, axis), axes_state)
      for axes_state''')],
 "variables of rank three or more mapped along axis 2 or later",
 "each layer sees its slice with dimensions swapped",
'''class L(nnx.Module):
  def __init__(self, *, ctx): self.w = nnx.Param(jnp.arange(6.).reshape(2, 3))
  def __call__(self, c, x): return c, self.w @ x
m = nnx.Scan(L, variable_axes={nnx.Param: 2}, length=4)(ctx=nnx.context(0))
_, y = m(0., jnp.ones((4, 3)))
assert y.shape == (4, 2)
''')

bug("c18-sorted-names", "C18", [(T, '''    key_names = tuple(keys.keys())''', '''    key_names = tuple(sorted(keys))''')],
 "a context whose streams were not declared in alphabetical order",
 "the streams of the scanned initialisation are exchanged",
'''class L(nnx.Module):
  def __init__(self, *, ctx): self.w = nnx.Param(ctx.make_rng("a")); self.v = nnx.Param(ctx.make_rng("z"))
m = nnx.Scan(L, variable_axes={nnx.Param: 0}, split_rngs=["a"], length=3)(ctx=nnx.context(z=0, a=1)).scan_module
assert not (m.w[0] == m.w[1]).all() and (m.v[0] == m.v[1]).all()
''')

bug("c19-empty-ctx", "C19", [(T, '''    if keys is not None:
      assert ctxdef is not None
      kwargs["ctx"] = ctxdef.merge(keys)''', '''    if keys:
      assert ctxdef is not None
      kwargs["ctx"] = ctxdef.merge(keys)''')],
 "a context without streams, holding only flags, passed to a rematerialised method",
 "the context is dropped",
'''class Foo(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.float32(1.))
  @nnx.remat
  def __call__(self, x, *, ctx=None): return x * (2 if ctx is not None and ctx.get_flag("train") else 1)
assert float(Foo()(jnp.float32(1.), ctx=nnx.context(flags=dict(train=True)))) == 2
''')

bug("c20-variable-only", "C20", [("nnx/spmd.py", '''  def _add_axis(x: tp.Any):
    if (
        isinstance(x, containers.Node)''', '''  def _add_axis(x: tp.Any):
    if (
        isinstance(x, containers.Variable)''')],
 "a Node (not a Variable) with sharding metadata",
 "sharding of nodes that are not variables is not extended",
'''from nnx import spmd
s = nnx.State({"w": nnx.Node(1, sharding=("a",))})
assert spmd.add_axis(s, 0, {"partition_name": "l"})["w"].sharding == ("l", "a")
''')

bug("c21-tuple-mesh", "C21", [("nnx/spmd.py", '''  new = set(jax.tree_util.tree_leaves(new_assignment))
''', '''  new = {new_assignment} - {None}
''')],
 "a rule that assigns a tuple of mesh axes of which one is in use",
 "one mesh axis is used for two dimensions",
'''from nnx import spmd
r = spmd.logical_to_mesh_axes(("a", "b"), (("a", "X"), ("b", ("X", "Y"))))
assert tuple(r) == ("X", None), r
''')

bug("c22-same-key", "C22", [("nnx/nn/linear.py", '''      bias_key = ctx.make_rng("params")
      self.bias = nnx.Param(bias_init(bias_key, bias_shape, param_dtype))''', '''      self.bias = nnx.Param(bias_init(kernel_key, bias_shape, param_dtype))''')],
 "a convolution with a random bias initializer",
 "kernel and bias are created from the same key",
'''n = jax.nn.initializers.normal()
c = nnx.Conv(1, 4, (1,), kernel_init=n, bias_init=n, ctx=nnx.context(0))
assert not np.allclose(c.kernel.reshape(-1), c.bias)
''')

bug("c22-int-stride-list", "C22", [("nnx/nn/linear.py", '''        lhs_dilation=input_dilation,
        rhs_dilation=kernel_dilation,''', '''        lhs_dilation=kernel_dilation if padding_lax == "VALID" and False else input_dilation,
        rhs_dilation=kernel_dilation[::-1] if len(kernel_dilation) == 3 else kernel_dilation,''')],
 "a three-dimensional convolution with different dilations per axis",
 "dilations of 3-d convolutions are applied in reverse order",
'''c = nnx.Conv(1, 1, (2, 2, 2), padding="VALID", kernel_dilation=(1, 2, 3), use_bias=False, ctx=nnx.context(0))
assert c(jnp.ones((1, 5, 5, 5, 1))).shape == (1, 4, 3, 2, 1)
''')

bug("c23-no-clip", "C23", [("nnx/nn/normalization.py", '''  var = jnp.maximum(0.0, mean2 - _abs_sq(mean))''', '''  var = mean2 - _abs_sq(mean)''')],
 "inputs with a large mean and hardly any spread, so that rounding makes the difference negative",
 "the variance can be negative and the output NaN",
'''b = nnx.BatchNorm(1, epsilon=0.0 + 1e-12, use_running_average=False, ctx=nnx.context(0))
bad = []
for k in range(200):
  x = jnp.full((7, 1), 1000.1 + k * 0.37, jnp.float32)
  b.var = jnp.zeros((1,)); b.momentum = 0.0
  b(x); bad.append(float(b.var[0]))
assert min(bad) >= 0, min(bad)
''')

bug("c23-momentum-var", "C23", [("nnx/nn/normalization.py", '''      self.var = self.momentum * self.var + (1 - self.momentum) * var''', '''      self.var = self.momentum * self.var + (1 - self.momentum) * var * (
          x.size // var.size / max(x.size // var.size - 1, 1)
      )''')],
 "the running variance after a training call",
 "the running variance moves towards the unbiased variance",
'''b = nnx.BatchNorm(1, use_running_average=False, momentum=0.0, ctx=nnx.context(0))
x = jnp.asarray([[0.], [1.]]); b(x)
assert np.allclose(b.var, 0.25)
''')

bug("c24-stream-fallback", "C24", [("nnx/nn/stochastic.py", '''    rng = ctx.make_rng(self.rng_collection)''', '''    rng = ctx.make_rng(
        self.rng_collection if ctx.has_rng(self.rng_collection) else "params"
    )''')],
 "a context without the configured stream but with a params stream",
 "the mask is drawn from another stream",
'''d = nnx.Dropout(0.5, deterministic=False)
try: d(jnp.ones((4,)), ctx=nnx.context(params=0)); ok = False
except ValueError: ok = True
assert ok
''')

bug("c24-deterministic-falsy", "C24", [("nnx/nn/stochastic.py", '''        deterministic,
        self.deterministic,
        ctx and''', '''        deterministic or None,
        self.deterministic,
        ctx and''')],
 "an explicit deterministic=False given to a layer configured deterministic",
 "an explicit False counts as not given",
'''d = nnx.Dropout(0.5, deterministic=True)
y = d(jnp.ones((64,)), deterministic=False, ctx=nnx.context(dropout=0))
assert (y == 0).any()
''')

bug("c25-sow-tuple", "C25", [(M, '''      value = current_value + (value,)
      setattr(self, name, value)''', '''      value = current_value + (value if type(value) is tuple else (value,))
      setattr(self, name, value)''')],
 "sowing a tuple onto a name that already holds values",
 "the tuple is spliced instead of appended",
'''m = nnx.Dict(); m.sow(nnx.Intermediate, "y", (1, 2)); m.sow(nnx.Intermediate, "y", (3, 4))
assert m.y == ((1, 2), (3, 4))
''')

bug("c26-list-output", "C26", [("nnx/helpers.py", '''        if isinstance(output, tp.Tuple):
          args = output''', '''        if isinstance(output, (tuple, list)):
          args = tuple(output)''')],
 "a callable in a sequence that returns a list",
 "a list output is spread over positional arguments",
'''s = nnx.Sequence([lambda x: [x], lambda y: y])
assert s(1) == [1]
''')

bug("c27-apply-order", "C27", [("nnx/helpers.py", '''    _states = (
        getattr(self, state) if isinstance(state, str) else state for state in states
    )
''', '''    fields = [getattr(self, state) for state in states if isinstance(state, str)]
    _states = [*fields, *(state for state in states if not isinstance(state, str))]
''')],
 "apply with a state given before the name of a field that holds some of the same paths",
 "states given directly always win over named fields",
'''import optax
class Foo(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.float32(1.))
  def __call__(self): return self.w
s, d = Foo().partition()
t = nnx.TrainState(d, params=s, tx=optax.sgd(0.1))
y, _ = t.apply(nnx.State({"w": nnx.Param(jnp.float32(5.))}), "params")()
assert float(y) == 1.0
''')

bug("c28-visited-matching", "C28", [(M, '''    visited.add(self._module__state.id)

    if isinstance(self, module_type):
      fn(self)''', '''    if isinstance(self, module_type):
      visited.add(self._module__state.id)
      fn(self)''')],
 "a cycle among modules that are not of the requested type",
 "for_each does not terminate",
'''class A(nnx.Module): pass
class B(nnx.Module): pass
a, b = A(), B(); a.b = b; a.me = a
n = []
a.for_each(B, n.append)
assert n == [b]
''')

bug("c29-wrapped-kept", "C29", [("nnx/dataclasses.py", '''  metadata["nnx_container_fn"] = lambda value: variable_type(value, sharding=sharding)''', '''  metadata["nnx_container_fn"] = (
      lambda value: value
      if type(value) is variable_type
      else variable_type(value, sharding=sharding)
  )''')],
 "a field declared with a sharding that is given a variable wrapped with another one",
 "a value wrapped with another sharding is accepted",
'''@nnx.dataclass
class Foo(nnx.Module):
  w: int = nnx.var_field(nnx.Param, sharding=("a",))
try: Foo(nnx.Param(1, sharding=("b",))); ok = False
except ValueError: ok = True
assert ok
''')

bug("c30-leaf-snapshot", "C30", [(M, '''  __slots__ = ("_module", "_name")''', '''  __slots__ = ("_module", "_name", "_attr")'''), (M, '''    self._module = module
    self._name = name

  @property''', '''    self._module = module
    self._name = name
    self._attr = vars(module)[name]

  @property'''), (M, '''    attr = vars(self._module)[self._name]
    if not isinstance(attr, Node):''', '''    attr = self._attr
    if not isinstance(attr, Node):''')],
 "a view whose attribute was deleted and set again with another sharding",
 "the view reports an old sharding", 
'''m = nnx.Dict(w=nnx.Param(1, sharding=("a",)))
v = m.mutable_state_dict()["w"]
del m.w
m.w = nnx.Param(2, sharding=("b",))
assert v.value == 2 and v.sharding == ("b",)
''')
