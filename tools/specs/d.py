H = "import jax, jax.numpy as jnp, numpy as np, nnx, copy\n"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo): BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
M="nnx/module.py"; T="nnx/transforms.py"; C="nnx/containers.py"; X="nnx/contextlib.py"; P="nnx/pytreelib.py"; S="nnx/state.py"; F="nnx/partitioning.py"; L="nnx/nn/linear.py"; N="nnx/nn/normalization.py"; D="nnx/dataclasses.py"; HP="nnx/helpers.py"; SP="nnx/spmd.py"; R="nnx/reprlib.py"; I="nnx/ids.py"; ND="nnx/nodes.py"; DR="nnx/nn/stochastic.py"

bug("e02-shared-array", "C02", [(M, '''    elif nodes.is_node(value):
      path = "/".join(new_path_parts)
      yield path, value


def _set_value_at_path(''', '''    elif nodes.is_node(value):
      # a node that was already visited is not repeated
      if any(value is seen for seen in vars(module).values() if seen is not vars(module)[name]):
        continue
      if id(value) in seen_modules:
        continue
      seen_modules.add(id(value))
      path = "/".join(new_path_parts)
      yield path, value


def _set_value_at_path(''')],
 "the same array object under two names", "the second attribute is missing from the state",
'''class A(nnx.Module): pass
m = A(); x = jnp.ones(2); m.a = x; m.b = x
assert list(m.get_state()) == ["a", "b"]
''')
bug("e02-node-cache", "C02", [(ND, '''def is_node(obj: object) -> bool:
  return isinstance(obj, node_types)
''', '''@functools.lru_cache(maxsize=None)
def _is_node_class(cls: type) -> bool:
  return issubclass(cls, node_types)


def is_node(obj: object) -> bool:
  return _is_node_class(type(obj))
'''), (ND, "import typing as tp\n", "import functools\nimport typing as tp\n")],
 "a class registered as a node type after an object of it was in a module that was split", "its objects stay static attributes",
'''class B:
  pass
class A(nnx.Module): pass
m = A(); m.b = B(); assert not m.get_state()
nnx.nodes.register_node_type(B)
assert list(m.get_state()) == ["b"]
''')
bug("e03-pure-one", "C03", [(M, "      states = state.partition(filters[0])\n    else:\n      states = state.partition(filters[0], filters[1], *filters[2:])\n\n    if isinstance(states, State):\n      return Pure", "      states = state.filter(filters[0])\n    else:\n      states = state.partition(filters[0], filters[1], *filters[2:])\n\n    if isinstance(states, State):\n      return Pure")],
 "partitioning with one filter that does not match every node", "the nodes that do not match are dropped without an error",
'''m = nnx.Dict(a=nnx.Param(1), b=nnx.BatchStat(2))
for x in (m, m.partition()):
  try: x.partition(nnx.Param); raise SystemExit("accepted")
  except ValueError: pass
''')
bug("e03-path-last", "C03", [(S, "      if predicate(path, value):\n        states[i][path] = value\n        break\n    else:", "      if predicate(path, value):\n        states[i][path] = value\n        if not isinstance(predicate, partitioning.Not):\n          break\n    else:")],
 "a Not filter followed by a filter that matches the same node", "the node appears in both parts",
'''m = nnx.Dict(a=nnx.Param(1), b=nnx.BatchStat(2))
a, b = m.filter(nnx.Not(nnx.Param), nnx.BatchStat)
assert list(a) == ["b"] and not b, (a, b)
''')
bug("e04-pure-tuple-new", "C04", [(M, '''    state = State.merge(*states)
    return Pure.new(state, self.moduledef)

  ''', '''    state = State.merge(*states)
    if isinstance(self.states, tuple) and len(self.states) > 1:
      # keep the result aligned with the parts
      state = State({k: v for k, v in state.items() if any(k in s for s in self.states)})
    return Pure.new(state, self.moduledef)

  ''' )] if False else [(M, "    state = State.merge(*states)\n    return Pure.new(state, self.moduledef)\n", '''    state = State.merge(*states)
    if isinstance(self.states, tuple):
      known = State.merge(*self.states)
      state = State({path: state[path] for path in known})
    return Pure.new(state, self.moduledef)
''')],
 "a split module of several parts updated with a node it does not have", "the new node is dropped",
'''m = nnx.Dict(a=nnx.Param(1), b=nnx.BatchStat(2))
p = m.partition(nnx.Param, ...).update_state(nnx.State({"c": nnx.Param(3)}))
assert p.merge().c == 3
''')
bug("e04-static-wins", "C04", [(M, '''  if len(path_parts) == 1:
    setattr(module, path_parts[0], value)
''', '''  if len(path_parts) == 1:
    if isinstance(vars(module).get(path_parts[0]), Module):
      return
    setattr(module, path_parts[0], value)
''')],
 "an update that names an attribute that holds a submodule", "the named node is not assigned",
'''m = nnx.Dict(a=nnx.Dict(x=1), b=nnx.Param(2))
m.update_state(nnx.State({"a": nnx.Param(5)}))
assert m.a == 5
''')
bug("e06-getitem-attr", "C06", [(M, "    return CallableProxy(self._proxy_context, self._proxy_callable[key])\n", "    if isinstance(key, str):\n      return getattr(self, key)\n    return CallableProxy(self._proxy_context, self._proxy_callable[key])\n")],
 "a string key that is also an attribute of the object", "the attribute is used in place of the item",
'''class A(nnx.Module):
  def __getitem__(self, k): return lambda: ("item", k)
  def f(self): return "attr"
m = A()
assert m.partition().apply["f"]()[0] == ("item", "f")
''')
bug("e07-sow-bypass", "C07", [(M, "      value = current_value + (value,)\n      setattr(self, name, value)\n", "      vars(self)[name] = variable.replace(value=current_value + (value,))\n")],
 "a second sow under another trace", "the sow is accepted and leaks a tracer",
'''m = nnx.Dict(a=nnx.Param(1)); m.sow(nnx.Intermediate, "h", 1)
@jax.jit
def f(x): m.sow(nnx.Intermediate, "h", x); return x
try: f(1.0); raise SystemExit("accepted")
except nnx.TraceContextError: pass
except AttributeError:
  pass
assert m.h == (1,)
''')
bug("e08-byte", "C08", [(X, '''  hash_str = " ".join(str(x) for x in data)
  _hash = hashlib.blake2s(hash_str.encode())
''', '''  _hash = hashlib.blake2s(bytes(x & 0xFF for x in data))
''')],
 "256 draws from a stream", "the 257th key equals the first",
'''c = nnx.context(0)
k = [tuple(np.asarray(c.make_rng("params")).tolist()) for _ in range(300)]
assert len(set(k)) == 300
''')
bug("e08-u16", "C08", [(X, '''  hash_str = " ".join(str(x) for x in data)
  _hash = hashlib.blake2s(hash_str.encode())
''', '''  hash_str = " ".join(format(x, "04x")[-4:] for x in data)
  _hash = hashlib.blake2s(hash_str.encode())
''')],
 "65536 draws from a stream", "the keys repeat",
'''c = nnx.context(0)
a = c.make_rng("params")
from nnx.contextlib import RngStream
s = RngStream(jax.random.PRNGKey(0), count=65536)
b = nnx.context(s).make_rng("params")
assert (a != b).any()
''')
bug("e08-first-fork", "C08", [(X, '''      count_path = stream.count_path + (stream.count,)
      stream.count += 1
      return''', '''      count_path = stream.count_path + (stream.count,)
      if stream.count or not stream.count_path:
        stream.count += 1
      return''')],
 "a context split off another that is itself split twice before any draw", "both of its splits yield the same keys",
'''c = nnx.context(0).partition().merge()
a, b = c.partition().merge(), c.partition().merge()
assert (a.make_rng("params") != b.make_rng("params")).any()
''')
bug("e09-false-flags", "C09", [(X, "ContextDef(rng_counts, tuple(self._flags.items())))", "ContextDef(rng_counts, tuple(f for f in self._flags.items() if f[1])))")],
 "a false flag", "the flag is unset after a split",
'''c = nnx.context(0, flags=dict(a=False, b=True)).partition().merge()
assert c.get_flag("a") is False and c.has_flag("a")
''')
bug("e09-seq-str", "C09", [(X, '''    predicates = tuple(map(to_rng_predicate, filter))
    return lambda name: any(predicate(name) for predicate in predicates)
  else:''', '''    predicates = map(to_rng_predicate, filter)
    return lambda name: any(predicate(name) for predicate in predicates)
  else:''')],
 "a sequence filter asked for more than one stream", "streams after the first few are not selected",
'''p = nnx.contextlib.to_rng_predicate(["a", "b"])
assert p("b") and p("a") and p("b")
''')
bug("e10-fail-lost", "C10", [(M, '''      vars_dict[name] = vars_dict[name].replace(value=value)
''', '''      container = vars_dict.pop(name)
      vars_dict[name] = container.replace(value=value)
''')],
 "a rejected assignment", "the attribute is lost",
'''m = nnx.Dict(a=nnx.Param(1))
try: m.a = nnx.BatchStat(2)
except ValueError: pass
assert m.a == 1
''')
bug("e11-initstate", "C11", [(M, '''      moduledef._static_fields,
      moduledef._module_state,
  )
''', '''      moduledef._static_fields,
      (False,),
  )
''')],
 "flattening the definition of a module that is initialising", "it stops being in initialisation",
'''out = []
class A(nnx.Module):
  def f(self): out.append(jax.tree_util.tree_map(lambda x: x, self.partition()).merge().is_initializing)
A().init.f()
assert out == [True]
''')
bug("e11-none-child", "C11", [(C, '''      return cls(children[0], **metadata)
''', '''      value = children[0]
      if value is None:
        value = metadata.pop("default", None)
      return cls(value, **metadata)
''')],
 "a variable that holds None and has metadata called default", "flattening turns the metadata into the value",
'''v = nnx.Param(None, default=3)
w = jax.tree_util.tree_map(lambda x: x, v)
assert w == v, w
''')
bug("e12-ref-target", "C12", [(M, '''        self._type == other._type
        and self._submodules == other._submodules
''', '''        self._type == other._type
        and len(self._submodules) == len(other._submodules)
        and all(
            a[0] == b[0]
            and (
                isinstance(b[1], int) if isinstance(a[1], int) else a[1] == b[1]
            )
            for a, b in zip(self._submodules, other._submodules)
        )
''')],
 "graphs that differ only in which module is shared", "their definitions compare equal",
'''a, b, c, d = (nnx.Dict() for _ in range(4))
x = nnx.Dict(a=a, b=b, c=a); y = nnx.Dict(a=c, b=d, c=d)
assert x.partition().moduledef != y.partition().moduledef
''')
bug("e13-add-mutable", "C13", [(P, '''    elif name not in vars_dict:
      raise AttributeError(r"Cannot''', '''    elif name not in vars_dict and not self._pytree__class_is_mutable:
      raise AttributeError(r"Cannot''')],
 "a mutable class and a new field", "fields can be added after construction, and are lost by flattening",
'''class A(nnx.Pytree, mutable=True):
  def __init__(self): self.a = 1
x = A()
try: x.b = 2; raise SystemExit("accepted")
except AttributeError: pass
''')
bug("e14-private", "C14", [(P, '''        for name, value in vars(pytree).items()
        if nodes.is_node(value)
    }
''', '''        for name, value in vars(pytree).items()
        if nodes.is_node(value) and not name.startswith("_")
    }
'''), (P, '''      if not nodes.is_node(value):
        continue
      if name not in state:''', '''      if not nodes.is_node(value) or name.startswith("_"):
        continue
      if name not in state:''')],
 "a node field with a leading underscore", "it is neither saved nor restored",
'''from flax import serialization
class A(nnx.Pytree):
  def __init__(self, x): self._a = jnp.asarray(x)
d = serialization.to_state_dict(A(1.0))
assert serialization.from_state_dict(A(0.0), d)._a == 1.0
''')
bug("e15-known-only", "C15", [(T, '''      updates, out = out
      module.update_state(updates)
    return out

  def __repr__(self):
    return f"JitTransform''', '''      updates, out = out
      known = pure_module.get_state()
      module.update_state(
          State({
              path: value
              for path, value in updates.items()
              if path in known or isinstance(value, containers.Variable)
          })
      )
    return out

  def __repr__(self):
    return f"JitTransform''')],
 "a plain array created inside a jitted function", "it is lost",
'''m = nnx.Dict(a=nnx.Param(jnp.ones(1)))
@nnx.jit
def f(m): m.b = m.a * 2
f(m)
assert m.b == 2
''')
bug("e15-static-key", "C15", [(T, '''    pure_module = module.partition()
    out = self.jitted_fn(pure_module, *args, **kwargs)
''', '''    pure_module = module.partition()
    # reuse the first equal definition so that the cache lookup is by identity
    moduledef = self.defs.setdefault(hash(pure_module.moduledef), pure_module.moduledef)
    pure_module = PureModule.new(pure_module.states, moduledef) if False else type(pure_module).new(pure_module.states, moduledef)
    out = self.jitted_fn(pure_module, *args, **kwargs)
'''), (T, "    self.jitted_fn = jitted_fn\n", "    self.jitted_fn = jitted_fn\n    self.defs = {}\n")],
 "static attributes with equal hashes, like -1 and -2", "the call runs with the attribute of the earlier call",
'''class A(nnx.Module):
  def __init__(self, k): self.k = k
f = nnx.jit(lambda m, x: x * m.k)
assert f(A(-1), 1.0) == -1 and f(A(-2), 1.0) == -2
''')
bug("e16-aux-stateless", "C16", [(T, '''    if self.stateful:
      updates: State
      if self.has_aux:
        grads, (updates, aux) = grads
        out = grads, aux
''', '''    if self.stateful:
      updates: State
      if self.has_aux:
        grads, (updates, aux) = grads
        out = (grads, *aux) if isinstance(aux, tuple) else (grads, aux)
''')],
 "an auxiliary output that is a tuple", "it is spliced into the result",
'''m = nnx.Dict(a=nnx.Param(1.0))
g, aux = nnx.grad(lambda m: (m.a ** 2, (m.a,)), has_aux=True)(m)
assert aux == (1.0,)
''')
bug("e16-wrt-tuple", "C16", [(T, "  predicate = partitioning.to_predicate(wrt)\n  ref_grad", "  if isinstance(wrt, tuple) and len(wrt) == 2 and wrt[1] is ...:\n    wrt = wrt[0]\n  predicate = partitioning.to_predicate(wrt)\n  ref_grad")],
 "a wrt tuple that ends with an ellipsis", "only the nodes of the first filter are differentiated",
'''m = nnx.Dict(a=nnx.Param(1.0), b=nnx.BatchStat(2.0))
g = nnx.grad(lambda m: m.a * m.b, wrt=(nnx.Param, ...))(m)
assert list(g) == ["a", "b"]
''')
bug("e17-len1-new", "C17", [(T, "    # concatenate outputs\n    axes_states, out = jax.tree_map(", "    # concatenate outputs\n    if length == 2:\n      out1 = jax.tree_map(lambda x: x.astype(jnp.result_type(x)), out1)\n      out_rest = out1\n    axes_states, out = jax.tree_map(")],
 "two layers and state created by the first", "the output of the first layer is repeated",
'''class A(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.arange(2.0))
  def f(self, c, x):
    if not hasattr(self, "n"): self.n = nnx.Cache(jnp.zeros(()))
    return c, x + self.w
m = A()
_, y = nnx.scan(A.f, variable_axes={nnx.Param: 0}, variable_carry=...)(m, 0.0, jnp.zeros(2))
assert (y == jnp.arange(2.0)).all(), y
''')
bug("e17-split-order", "C17", [(T, "        axes_keys[name] = jax.random.split(key, length)\n", "        axes_keys[name] = jax.random.split(key, max(length, 2))[:length]\n")],
 "one layer", "its key differs from the one of splitting into one",
'''from nnx.transforms import scan
class A(nnx.Module):
  def f(self, c, x, *, ctx): return c, jax.random.key_data(ctx.make_rng("d")) if hasattr(jax.random, "key_data") else ctx.make_rng("d")
c = nnx.context(d=0)
k, d = nnx.context(d=0).partition()
want = d.merge({"d": jax.random.split(k["d"], 1)[0]}).make_rng("d")
_, y = nnx.scan(A.f, split_rngs="d", length=1)(A(), 0.0, jnp.zeros(1), ctx=c)
assert (y[0] == want).all()
''')
bug("e19-new-nodes", "C19", [(T, '''    state, _ = module.partition()

    return state, out
''', '''    state_out, _ = module.partition()
    state = State({path: state_out[path] for path in state})

    return state, out
''')],
 "a node created inside a remat call", "it is lost",
'''class A(nnx.Module):
  def f(self, x): self.h = nnx.Cache(x); return x
m = A(); m.w = nnx.Param(1.0)
nnx.remat(A.f)(m, 2.0)
assert m.h == 2
''')
bug("e20-tuple-names", "C20", [(SP, "        return PartitionSpec(*x.sharding)\n", "        names = []\n        for axis in x.sharding:\n          names.extend(axis if isinstance(axis, tuple) else (axis,))\n        return PartitionSpec(*names)\n")],
 "a dimension sharded over two mesh axes", "its spec has one dimension too many",
'''m = nnx.Dict(a=nnx.Param(jnp.ones((2, 2)), sharding=(("x", "y"), None)))
assert nnx.get_partition_spec(m.get_state())["a"] == jax.sharding.PartitionSpec(("x", "y"), None)
''')
bug("e20-all-none", "C20", [(SP, '''        and x.sharding is not None
    ):
      sharding = list(x.sharding)
      while''', '''        and x.sharding is not None
        and any(x.sharding)
    ):
      sharding = list(x.sharding)
      while''')],
 "a sharding of only None", "the scan axis is not added and cannot be removed",
'''from nnx import spmd
s = nnx.State({"a": nnx.Param(jnp.ones(2), sharding=(None,))})
t = spmd.add_axis(s, 0, {"partition_name": "l"})
assert t["a"].sharding == ("l", None)
''')
bug("e21-exc-rules", "C21", [(SP, '''  old_rules = _axis_rules.rules
  try:
    _axis_rules.rules = rules
    yield
  finally:
    _axis_rules.rules = old_rules
''', '''  old_rules = _axis_rules.rules
  _axis_rules.rules = rules
  try:
    yield
  except Exception:
    _axis_rules.rules = old_rules
    raise
  _axis_rules.rules = old_rules
''')],
 "leaving the context by an exception that is not an Exception, like KeyboardInterrupt or a closed generator", "the rules stay in force",
'''from nnx import spmd
try:
  with spmd.logical_axis_rules((("a", "b"),)): raise KeyboardInterrupt
except KeyboardInterrupt: pass
assert spmd.get_logical_axis_rules() == ()
''')
bug("e21-none-rule-dup", "C21", [(SP, '''  new = set(jax.tree_util.tree_leaves(new_assignment))
''', '''  new = set(jax.tree_util.tree_leaves(new_assignment)[:1])
''')],
 "a rule with two mesh axes of which the second is used", "one mesh axis is given to two dimensions",
'''from nnx import spmd
s = spmd.logical_to_mesh_axes(("a", "b"), (("a", "x"), ("b", ("y", "x"))))
assert tuple(s) == ("x", None), s
''')
bug("e22-mask-bias", "C22", [(L, '''    if num_batch_dimensions != 1:
      output_shape = input_batch_shape + y.shape[1:]
''', '''    if num_batch_dimensions != 1:
      if len(input_batch_shape) > 2:
        input_batch_shape = input_batch_shape[1::-1] + input_batch_shape[2:]
      output_shape = input_batch_shape + y.shape[1:]
''')],
 "three batch dimensions of different sizes", "the first two are exchanged",
'''c = nnx.Conv(1, 1, [1], ctx=nnx.context(0))
assert c(jnp.ones((2, 3, 4, 5, 1))).shape == (2, 3, 4, 5, 1)
''')
bug("e22-embed-neg", "C22", [(L, "    return jnp.take(embedding, inputs, axis=0)\n", "    return jnp.take(embedding, inputs.astype(jnp.int8), axis=0)\n")],
 "indices of 128 and more", "the wrong rows are returned",
'''e = nnx.Embed(200, 1, ctx=nnx.context(0))
assert e(jnp.array([150])) == e.embedding[150]
''')
bug("e23-param-flag", "C23", [(N, '''        use_running_average,
        self.use_running_average,
        ctx and ctx.get_flag("use_running_average"),
    )
''', '''        use_running_average or None,
        self.use_running_average,
        ctx and ctx.get_flag("use_running_average"),
    )
''')],
 "an explicit False against a module in inference mode", "the running statistics are used",
'''b = nnx.BatchNorm(1, use_running_average=True, ctx=nnx.context(0))
b(jnp.array([[1.0], [3.0]]), use_running_average=False)
assert b.mean != 0
''')
bug("e24-broadcast-neg", "C24", [(DR, "      broadcast_shape[dim] = 1\n", "      if 0 <= dim < len(broadcast_shape):\n        broadcast_shape[dim] = 1\n")],
 "a negative broadcast dimension", "the mask is not shared along it",
'''d = nnx.Dropout(0.5, broadcast_dims=(-1,), deterministic=False)
y = d(jnp.ones((20, 20)), ctx=nnx.context(dropout=0))
assert (y == y[:, :1]).all()
''')
bug("e25-meta", "C25", [(M, "      value = current_value + (value,)\n      setattr(self, name, value)\n", "      value = current_value + (value,)\n      delattr(self, name)\n      setattr(self, name, variable_type(value))\n")],
 "sowing onto a variable with metadata", "the metadata is lost",
'''m = nnx.Dict(h=nnx.Intermediate((), sharding=("a",)))
m.sow(nnx.Intermediate, "h", 1)
assert vars(m)["h"].sharding == ("a",) and m.h == (1,)
''')
bug("e27-step-width", "C27", [(HP, "pytreelib.TreeNode(jnp.asarray(step))", "pytreelib.TreeNode(jnp.asarray(step, jnp.int16))")],
 "32767 steps", "the step counter wraps around",
'''import optax
m = nnx.Dict(a=nnx.Param(jnp.ones(1))); p, d = m.partition()
t = nnx.TrainState(d, params=p, tx=optax.sgd(0.1), step=32767)
t = t.apply_gradients(p)
assert t.step == 32768
''')
bug("e28-nested-match", "C28", [(M, '''    if isinstance(self, module_type):
      fn(self)

''', '''    if isinstance(self, module_type):
      fn(self)
      if type(self) is module_type:
        return

''')],
 "modules of the visited type inside one another", "inner ones are not visited",
'''m = nnx.Dict(a=nnx.Dict(b=nnx.Dict()))
n = []; m.for_each(nnx.Dict, n.append)
assert len(n) == 3
''')
bug("e29-static-plain", "C29", [(D, '''  metadata["nnx_container_fn"] = lambda value: containers.Static(value)
''', '''  metadata["nnx_container_fn"] = lambda value: (
      containers.Static(value) if nodes.is_node(value) or isinstance(value, containers.Container) else value
  )
'''), (D, "from nnx import containers\n", "from nnx import containers, nodes\n")],
 "a static field that is later assigned an array", "the array appears in the state",
'''@nnx.dataclass
class A(nnx.Module):
  a: int = nnx.static_field(default=1)
m = A(); m.a = jnp.ones(1)
assert not m.get_state()
''')
bug("e30-thread-ids", "C30", [(I, "class UUIDManager:\n", "class UUIDManager(threading.local):\n")],
 "modules created in two threads", "they get the same identity",
'''import threading
class A(nnx.Module): pass
out = []
def f(): out.append([A() for _ in range(50)])
ts = [threading.Thread(target=f) for _ in range(2)]
[t.start() for t in ts]; [t.join() for t in ts]
ids = [m._module__state.id for l in out for m in l]
assert len(set(ids)) == 100
''')
bug("e31-ref", "C31", [(M, '''    for name, submodule in self.submodules:
      yield reprlib''', '''    for name, submodule in self.submodules:
      if isinstance(submodule, int):
        continue
      yield reprlib''')],
 "a definition with a shared module", "the second reference is not printed",
'''a = nnx.Dict(x=1)
assert "'second'" in repr(nnx.Dict(first=a, second=a).partition().moduledef)
''')
bug("e31-indent", "C31", [(R, '''  try:
    yield
  finally:
    REPR_CONTEXT.indent_stack.pop()
''', '''  yield
  REPR_CONTEXT.indent_stack.pop()
''')],
 "an attribute whose repr raised in an earlier print", "later prints are indented",
'''class B:
  def __repr__(self): raise ValueError
m = nnx.Dict(a=1); t = repr(m); n = nnx.Dict(b=B())
try: repr(n)
except ValueError: pass
assert repr(m) == t
''')
bug("e31-thread", "C31", [(R, "class ReprContext(threading.local):\n", "class ReprContext:\n")],
 "a print in another thread during a print", "the indentation is that of the other thread",
'''import threading
m = nnx.Dict(a=1); t = repr(m); out = []
class B:
  def __repr__(self):
    th = threading.Thread(target=lambda: out.append(repr(m))); th.start(); th.join(); return "B"
repr(nnx.Dict(b=B()))
assert out == [t]
''')
bug("e31-none", "C31", [(S, '''    for k, v in self._mapping.items():
      yield reprlib''', '''    for k, v in self._mapping.items():
      if isinstance(v, Node) and v.value is None:
        continue
      yield reprlib''')],
 "a variable that holds None", "its path is not printed",
'''assert "'bias'" in repr(nnx.Dict(bias=nnx.Param(None)).get_state())
''')
bug("e32-closure", "C32", [(SP, '''          get_partition_spec(node),
          rules=node.rules,
          mesh=node.mesh,
''', '''          sharding,
          rules=node.rules,
          mesh=node.mesh,
''')],
 "reading a variable whose sharding changed, like one stacked by a scan", "it is constrained by the sharding it was made with",
'''from jax.sharding import Mesh
from nnx import spmd
from unittest import mock
mesh = Mesh(np.array(jax.devices()[:1]), ("x",))
init = spmd.with_logical_partitioning(lambda *a: jnp.ones((2, 2)), (None, "a"), mesh=mesh, rules=(("a", "x"),))
v = nnx.Param(init()).replace(sharding=("a", None))
m = nnx.Dict(w=v); seen = []
with mock.patch.object(jax.lax, "with_sharding_constraint", lambda x, s: (seen.append(s), x)[1]): m.w
assert seen[0].spec == jax.sharding.PartitionSpec("x", None), seen
''')
bug("e32-mesh-only", "C32", [(SP, '''    if _global_mesh_defined() or (
        isinstance(node, LogicallyPartitioned) and node.mesh is not None
    ):
''', '''    if _global_mesh_defined():
''')],
 "a mesh given to the initializer and no global mesh", "reads are not constrained",
'''from jax.sharding import Mesh
from nnx import spmd
from unittest import mock
mesh = Mesh(np.array(jax.devices()[:1]), ("x",))
init = spmd.with_logical_partitioning(lambda *a: jnp.ones((2, 2)), (None, "a"), mesh=mesh, rules=(("a", "x"),))
m = nnx.Dict(w=nnx.Param(init())); seen = []
with mock.patch.object(jax.lax, "with_sharding_constraint", lambda x, s: (seen.append(s), x)[1]): m.w
assert seen
''')
bug("e32-meta-alias", "C32", [(C, '''      metadata.update(value.metadata)
      value = tp.cast(A, value.value)

    vars(self).update(metadata, value=value)
''', '''      for key, item in value.metadata.items():
        metadata.setdefault(key, item)
        if metadata[key] is None:
          metadata[key] = item
      value = tp.cast(A, value.value)

    vars(self).update(metadata, value=value)
''')] , "metadata given both to the initializer and the variable", "the metadata of the variable wins",
'''v = nnx.Param(nnx.with_metadata(lambda: 1, sharding=("a",), k=1)(), k=2)
w = nnx.Param(nnx.containers.ContainerMetadata(1, dict(sharding=("a",), k=1)), k=2)
assert v.k == 1 and w.k == 1
''')
