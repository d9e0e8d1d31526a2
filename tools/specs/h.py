T="nnx/transforms.py"; M="nnx/module.py"; H="nnx/helpers.py"
BUGS=[
dict(id="h01-grad-pops", prop="C33", edits=[(T,"    (diff, nondiff), moduledef = module.partition(self.predicate, ...)\n","    (diff, nondiff), moduledef = module.partition(self.predicate, ...)\n    if self.stateful:\n      # every node comes back with the updates, free the old ones meanwhile\n      module.pop_state(self.predicate)\n")],
 needs="a loss function that raises, then any use of the module", breaks="the differentiated variables are gone after a failing nnx.grad",
 demo='''
import jax.numpy as jnp, nnx
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.ones(2))
m = M()
def f(m):
  if m.flag: raise KeyError("boom")
  return jnp.sum(m.w)
m.flag = True
try: nnx.grad(f)(m); assert False
except KeyError: pass
assert m.w.shape == (2,)
m.flag = False
g = nnx.grad(f)(m)
assert g["w"].value.shape == (2,)
'''),
dict(id="h02-base-exception", prop="C33", edits=[("nnx/tracers.py","  TRACE_CONTEXT.nnx_trace_stack.append(trace)\n  try:\n    yield\n  finally:\n    TRACE_CONTEXT.nnx_trace_stack.pop()\n","  TRACE_CONTEXT.nnx_trace_stack.append(trace)\n  try:\n    yield\n  except Exception:\n    TRACE_CONTEXT.nnx_trace_stack.pop()\n    raise\n  else:\n    TRACE_CONTEXT.nnx_trace_stack.pop()\n")],
 needs="an exception that is no Exception (KeyboardInterrupt, SystemExit) while a function is traced", breaks="every module made before is unusable afterwards",
 demo='''
import jax.numpy as jnp, nnx
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.ones(2))
m = M()
@nnx.jit
def f(m): raise KeyboardInterrupt()
try: f(m); assert False
except KeyboardInterrupt: pass
m.w = m.w + 1
'''),
dict(id="h03-scan-pops-carry", prop="C33", edits=[(T,"  # transpose axes state\n  axes_states = tuple(\n      jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), axes_state)","  # the carried variables travel with the loop, do not keep a second copy alive\n  if carry_state:\n    module.pop_state(lambda path, _: path in carry_state)\n\n  # transpose axes state\n  axes_states = tuple(\n      jax.tree_map(lambda x: jnp.moveaxis(x, axis, 0), axes_state)")],
 needs="a scanned function that raises or inputs of inconsistent lengths", breaks="carried variables are gone after a failing scan",
 demo='''
import jax.numpy as jnp, nnx
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.ones((3, 2))); self.c = nnx.BatchStat(jnp.zeros(()))
m = M()
def f(m, c, x): m.c = m.c + 1; return c * m.w, x
s = nnx.scan(f, variable_axes={nnx.Param: 0}, length=3)
try: s(m, jnp.ones(2), jnp.ones(4)); assert False
except ValueError: pass
assert float(m.c) == 0
s(m, jnp.ones(2), jnp.ones(3))
assert float(m.c) == 3
'''),
dict(id="h04-eager-clone", prop="C06", edits=[(M,"    accessesor = DelayedAccessor()\n\n    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, M]:\n      module = self.clone()\n","    accessesor = DelayedAccessor()\n    module = self.clone()\n\n    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, M]:\n")],
 needs="one accessor kept and called twice", breaks="the second call starts from the state the first one left",
 demo='''
import jax.numpy as jnp, nnx
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.zeros(()))
  def inc(self): self.w = self.w + 1; return self.w
m = M(); f = m.apply.inc
a, m1 = f(); b, m2 = f()
assert float(a) == float(b) == 1.0 and m1 is not m2
'''),
dict(id="h05-copy-forks-nothing", prop="C08", edits=[("nnx/contextlib.py","    return Context(rngs=self._rngs, flags=self._flags)","    rngs = {name: dataclasses.replace(stream) for name, stream in self._rngs.items()}\n    return Context(rngs=rngs, flags=dict(self._flags))")],
 needs="a context and its copy both drawing keys", breaks="the copy hands out the same keys again",
 demo='''
import nnx
c = nnx.context(0); d = c.copy()
a = c.make_rng("params"); b = d.make_rng("params")
assert a.tolist() != b.tolist()
'''),
dict(id="h06-restore-consumes", prop="C14", edits=[("nnx/pytreelib.py","    state = state.copy()  # copy the state so we can pop the restored fields.\n","    if not isinstance(state, dict):\n      state = dict(state)  # frozen dicts have no pop\n")],
 needs="restoring twice from the same state dict", breaks="the state dict is emptied by the first restore",
 demo='''
import jax.numpy as jnp, nnx
from flax import serialization as s
class P(nnx.Pytree):
  def __init__(self, v): self.a = jnp.asarray(v)
d = s.to_state_dict(P(3.0))
x = s.from_state_dict(P(0.0), d); y = s.from_state_dict(P(0.0), d)
assert float(x.a) == float(y.a) == 3.0
'''),
dict(id="h07-partial-restore", prop="C14", edits=[("nnx/pytreelib.py","      if name not in state:\n        raise ValueError(","      if name not in state:\n        if isinstance(value, nodes_none_type) and value.value is None:\n          continue\n        raise ValueError("),("nnx/pytreelib.py","# register node types\nnodes.register_node_type(Pytree)","nodes_none_type = containers.Node\n\n# register node types\nnodes.register_node_type(Pytree)")],
 needs="a node field that holds None missing in the dict", breaks="an incomplete dict is accepted",
 demo='''
import jax.numpy as jnp, nnx
from flax import serialization as s
class P(nnx.Pytree):
  def __init__(self, v, w): self.a = nnx.Param(v); self.b = nnx.Param(w)
p = P(None, jnp.ones(2)); d = s.to_state_dict(p); d.pop("a")
try: s.from_state_dict(p, d); ok = False
except ValueError: ok = True
assert ok
'''),
dict(id="h08-init-no-stats", prop="C23", edits=[("nnx/nn/normalization.py","      self.mean = self.momentum * self.mean + (1 - self.momentum) * mean\n      self.var = self.momentum * self.var + (1 - self.momentum) * var\n","      if not self.is_initializing:\n        self.mean = self.momentum * self.mean + (1 - self.momentum) * mean\n        self.var = self.momentum * self.var + (1 - self.momentum) * var\n")],
 needs="a training call through the init accessor", breaks="the running statistics are not moved",
 demo='''
import jax.numpy as jnp, nnx
b = nnx.BatchNorm(2, ctx=nnx.context(0))
b.init(jnp.asarray([[1.0, 2.0], [3.0, 4.0]]), use_running_average=False)
assert float(b.mean[0]) > 0
'''),
dict(id="h09-empty-batch", prop="C22", edits=[("nnx/nn/linear.py","      total_batch_size = int(np.prod(input_batch_shape))\n      flat_input_shape = (total_batch_size,) + inputs.shape[num_batch_dimensions:]","      flat_input_shape = (-1,) + inputs.shape[num_batch_dimensions:]")],
 needs="several batch dimensions, one of them empty", breaks="an empty batch raises",
 demo='''
import jax.numpy as jnp, nnx
c = nnx.Conv(1, 2, (2,), ctx=nnx.context(0))
assert c(jnp.ones((2, 0, 3, 1))).shape == (2, 0, 3, 2)
assert c(jnp.ones((2, 2, 3, 1))).shape == (2, 2, 3, 2)
assert c(jnp.ones((2, 2, 0, 1))).shape == (2, 2, 0, 2)
'''),
dict(id="h10-kwargs-kept", prop="C26", edits=[(H,"          args = (output,)\n          kwargs = {}\n","          args = (output,)\n")],
 needs="a later callable after a keyword argument or a dict output", breaks="keyword arguments of the first callable reach the later ones",
 demo='''
import nnx
def a(x, k=1): return x + k
def b(x, k=100): return x + k
class F(nnx.Module):
  def __init__(self, f): self.f = f
  def __call__(self, *a, **k): return self.f(*a, **k)
assert nnx.Sequence([a, b])(1, k=5) == 106
'''),
dict(id="h11-dict-private", prop="C26", edits=[(H,'(name for name in vars(self) if name != "_module__state")','(name for name in vars(self) if not name.startswith("_"))')],
 needs="a key that starts with an underscore", breaks="the key is not in the mapping",
 demo='''
import nnx
class E(nnx.Module): pass
d = nnx.Dict(_a=E(), b=E())
assert set(d) == {"_a", "b"} and len(d) == 2 and d["_a"] is not None
'''),
dict(id="h12-view-bypass", prop="C07", edits=[(M,"  def value(self, value: tp.Any) -> None:\n    setattr(self._module, self._name, value)","  def value(self, value: tp.Any) -> None:\n    attributes = vars(self._module)\n    current = attributes[self._name]\n    if isinstance(current, Container):\n      value = current.replace(value=value)\n    attributes[self._name] = value")],
 needs="assigning through a leaf view of a module of an outer trace inside a transform", breaks="the outer module is changed (a tracer leaks)",
 demo='''
import jax, jax.numpy as jnp, nnx
class M(nnx.Module):
  def __init__(self): self.w = nnx.Param(jnp.ones(()))
m = M(); v = m.mutable_state_dict()["w"]
def f(x): v.value = x; return x
try: jax.jit(f)(1.0); ok = False
except nnx.TraceContextError: ok = True
assert ok and float(m.w) == 1.0
v.value = jnp.zeros(()); assert float(m.w) == 0
'''),
dict(id="h13-sow-empty", prop="C25", edits=[(M,"    if hasattr(self, name):\n      variable = vars(self)[name]","    if hasattr(self, name) and getattr(self, name) != ():\n      variable = vars(self)[name]")],
 needs="sowing onto a variable that holds the empty tuple and has another type or metadata", breaks="the type check is skipped, metadata is compared instead",
 demo='''
import jax.numpy as jnp, nnx
class M(nnx.Module):
  def __init__(self): self.h = nnx.Variable((), sharding=("a",))
m = M(); m.sow(nnx.Variable, "h", 1); m.sow(nnx.Variable, "h", 2)
assert m.h == (1, 2) and vars(m)["h"].sharding == ("a",)
'''),
dict(id="h14-submodule-init-flag", prop="C28", edits=[(M,'  vars(module)["_module__state"] = ModuleState.from_tuple(moduledef.module_state)','  vars(module)["_module__state"] = (\n      ModuleState.from_tuple(moduledef.module_state)\n      if moduledef.index == 0\n      else ModuleState()\n  )')],
 needs="a submodule reached through a transform while the module initialises", breaks="the submodule does not report that it is initialising",
 demo='''
import jax.numpy as jnp, nnx
seen = []
class A(nnx.Module):
  def __call__(self): seen.append(self.is_initializing); return jnp.ones(())
class M(nnx.Module):
  def __init__(self): self.a = A()
  def __call__(self): return nnx.jit(lambda m: m.a())(self)
M().init()
assert seen == [True], seen
c = M()
c.init.go = None if False else None
''' .replace("c = M()\nc.init.go = None if False else None\n","")),
dict(id="h15-pad-drop-none", prop="C20", edits=[("nnx/spmd.py","      while len(sharding) < index:\n        sharding.append(None)","      if index > 0:\n        sharding += [None] * (index - len(sharding) - 1)")],
 needs="a sharding shorter than the new axis position", breaks="the new name lands one position too early",
 demo='''
import nnx
from nnx import spmd
s = nnx.State({"w": nnx.Param(1.0, sharding=("a",))})
for i in (0, 1, 2, 3):
  out = spmd.add_axis(s, i, {nnx.PARTITION_NAME: "l"})["w"].sharding
  assert out[i] == "l" and len(out) == max(2, i + 1), (i, out)
'''),
dict(id="h16-squeeze-vector", prop="C23", edits=[("nnx/nn/normalization.py","  mean = mean.reshape(stats_shape)\n  var = var.reshape(stats_shape)\n","  mean = jnp.expand_dims(mean, tuple(range(x.ndim - mean.ndim)))\n  var = jnp.expand_dims(var, tuple(range(x.ndim - var.ndim)))\n  if mean.ndim == x.ndim and reduction_axes == (x.ndim - 1,):\n    mean, var = mean.reshape(stats_shape), var.reshape(stats_shape)\n")],
 needs="a feature axis that is not the last one", breaks="statistics are broadcast along the wrong axis",
 demo='''
import jax.numpy as jnp, nnx
x = jnp.arange(4.0).reshape(2, 2) ** 2
b = nnx.BatchNorm(2, axis=0, ctx=nnx.context(0), use_running_average=False)
y = b(x)
assert abs(float(jnp.sum(y[0]))) < 1e-3 and abs(float(jnp.sum(y[1]))) < 1e-3
l = nnx.LayerNorm(2, ctx=nnx.context(0))(x)
assert abs(float(jnp.sum(l[0]))) < 1e-3
'''),
dict(id="h17-empty-parts", prop="C01", edits=[(M,"    if isinstance(self.states, tuple):\n      return self.moduledef.merge(*self.states)\n    else:\n      return self.moduledef.merge(self.states)\n\n  @property\n  def apply","    if isinstance(self.states, tuple):\n      # empty parts have nothing to assign\n      return self.moduledef.merge(*(state for state in self.states if state))\n    else:\n      return self.moduledef.merge(self.states)\n\n  @property\n  def apply")],
 needs="a module without nodes, or one whose parts are all empty, split by several filters", breaks="merging raises",
 demo='''
import nnx, jax.numpy as jnp
class M(nnx.Module):
  def __init__(self): self.k = 3
p = M().partition(nnx.Param, ...)
assert p.merge().k == 3
'''),
dict(id="h18-state-or", prop="C03", edits=[("nnx/state.py","    new_state: StateDict = {}\n\n    for state in states:\n      new_state.update(state)\n","    new_state: StateDict = {}\n\n    for state in states:\n      for path, value in state.items():\n        new_state.setdefault(path, value)\n")],
 needs="merging states that name the same path", breaks="the first value is kept instead of the last",
 demo='''
import nnx
a, b = nnx.State({"w": 1}), nnx.State({"w": 2})
assert nnx.State.merge(a, b)["w"] == 2 and (a | b)["w"] == 2
'''),
]
