From 5abb2d3a7238c1729c28c9b967a4289f58f2bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 01/32] fix: empty Sequence has length 0 and negative indices
 work as for lists

---
 nnx/helpers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 25187c5..0d6b06d 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -49,15 +49,17 @@ class Dict(Module, tp.Mapping[str, A]):
 class Sequence(Module, tp.Generic[A]):
 
   def __init__(self, iterable: tp.Iterable[A]):
-    i = 0
+    length = 0
     for i, value in enumerate(iterable):
       setattr(self, str(i), value)
-    self._length = i + 1
+      length = i + 1
+    self._length = length
 
   def __getitem__(self, key: int) -> A:
-    if key >= len(self):
+    index = key + len(self) if key < 0 else key
+    if not 0 <= index < len(self):
       raise IndexError(f"index {key} out of range for {self}")
-    return getattr(self, str(key))
+    return getattr(self, str(index))
 
   def __iter__(self) -> tp.Iterator[A]:
     for i in range(len(self)):
-- 
2.43.0


From a585690648819df450b0b52c12c602ef8f1bbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 02/32] fix: Dict hides its module state and raises KeyError
 for missing keys

---
 nnx/helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index 0d6b06d..c2d8f1c 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -27,7 +27,13 @@ class Dict(Module, tp.Mapping[str, A]):
     for name, value in dict(*args, **kwargs).items():
       setattr(self, name, value)
 
+  # modules compare by identity
+  __eq__ = Module.__eq__
+  __hash__ = Module.__hash__
+
   def __getitem__(self, key) -> A:
+    if key not in iter(self):
+      raise KeyError(key)
     return getattr(self, key)
 
   def __setitem__(self, key, value):
@@ -40,10 +46,10 @@ class Dict(Module, tp.Mapping[str, A]):
     super().__setattr__(key, value)
 
   def __iter__(self) -> tp.Iterator[str]:
-    return iter(vars(self))
+    return (name for name in vars(self) if name != "_module__state")
 
   def __len__(self) -> int:
-    return len(vars(self))
+    return sum(1 for _ in self)
 
 
 class Sequence(Module, tp.Generic[A]):
-- 
2.43.0


From e38c11a2c61429ec795eae20f80c8867ca1859de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 03/32] fix: Pure.update_state lets the updates win over the
 old values

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 6c7b113..ef42369 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -354,9 +354,9 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
       )
 
     if isinstance(self.states, tuple):
-      states += self.states
+      states = self.states + states
     else:
-      states += (self.states,)
+      states = (self.states,) + states
 
     state = State.merge(*states)
     return Pure.new(state, self.moduledef)
-- 
2.43.0


From 49e701b0c4d96c7da99f6ef09ee0ec1e73058ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 04/32] fix: chained accesses of apply/call/init proxies
 compose

---
 nnx/module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index ef42369..2ce7edc 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -54,10 +54,10 @@ class DelayedAccessor:
     return self.accessor(x)
 
   def __getattr__(self, name):
-    return DelayedAccessor(lambda x: getattr(x, name))
+    return DelayedAccessor(lambda x: getattr(self(x), name))
 
   def __getitem__(self, key):
-    return DelayedAccessor(lambda x: x[key])
+    return DelayedAccessor(lambda x: self(x)[key])
 
 
 class ApplyCaller(tp.Protocol, tp.Generic[A]):
-- 
2.43.0


From ad3dab12ea20e60ea53c194299f1c8526ebc468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 05/32] fix: MutableLeaf.sharding reads the sharding of the
 variable

---
 nnx/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 2ce7edc..a8684b6 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -761,7 +761,7 @@ class MutableLeaf(reprlib.Representable):
     if not isinstance(attr, Node):
       return None
 
-    return attr.metadata.get("sharding", None)
+    return vars(attr).get("sharding", None)
 
 
 def _get_module_state(module: Module) -> State:
-- 
2.43.0


From 40928d1a87ea4b34fc5947f73f3e2e88038b6cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 06/32] fix: pop_state handles cyclic modules and uses the same
 paths as get_state

---
 nnx/module.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index a8684b6..d595a04 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -904,7 +904,9 @@ def _pop_recursive(
   if module._module__state.id in module_index:
     return
 
-  for name, value in list(vars(module).items()):
+  module_index[module._module__state.id] = len(module_index)
+
+  for name, value in sorted(vars(module).items(), key=lambda x: x[0]):
     if isinstance(value, Module):
       _pop_recursive(value, module_index, (*path_parts, name), states, predicates)
       continue
@@ -918,8 +920,6 @@ def _pop_recursive(
         delattr(module, name)
         break
 
-  module_index[module._module__state.id] = len(module_index)
-
 
 def _update_module(
     module: Module, current_state: State, updates: tp.Union[State, tp.Tuple[State, ...]]
-- 
2.43.0


From b0c01ff55f70a5d7d1a6a6b8eed323d2902a59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 07/32] fix: error message of invalid filters

---
 nnx/partitioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/partitioning.py b/nnx/partitioning.py
index 89ed81d..f92a86e 100644
--- a/nnx/partitioning.py
+++ b/nnx/partitioning.py
@@ -32,7 +32,7 @@ def to_predicate(filter: Filter) -> Predicate:
   elif isinstance(filter, tp.Tuple):
     return Any(*filter)
   else:
-    raise TypeError(f"Invalid collection filter: {filter:!r}. ")
+    raise TypeError(f"Invalid collection filter: {filter!r}. ")
 
 
 @dataclasses.dataclass
-- 
2.43.0


From 1dfb0c9d0ab0b6dac267832c0b5a1f83877ab128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 08/32] fix: restore container fields of a Pytree using their
 value as target

---
 nnx/pytreelib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index e33cc14..77a53e9 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -220,7 +220,9 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
             f" at path {serialization.current_path()}"
         )
       value_state = state.pop(name)
-      updates[name] = serialization.from_state_dict(value, value_state, name=name)
+      updates[name] = serialization.from_state_dict(
+          getattr(pytree, name), value_state, name=name
+      )
     if state:
       names = ",".join(state.keys())
       raise ValueError(
-- 
2.43.0


From 5fa33d637ace14aa897e85c3bd6bd9a68646778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 09/32] fix: replace of a dataclass Pytree keeps node values of
 plain fields

---
 nnx/pytreelib.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index 77a53e9..b9ff2c7 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -240,6 +240,14 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     type as the original object.
     """
     if dataclasses.is_dataclass(self):
+      # keep the containers that plain fields may hold
+      for field in dataclasses.fields(self):
+        value = vars(self)[field.name]
+        if field.init and isinstance(value, containers.Container):
+          if field.name in kwargs:
+            kwargs[field.name] = value.replace(value=kwargs[field.name])
+          else:
+            kwargs[field.name] = value
       return dataclasses.replace(self, **kwargs)
 
     unknown_keys = set(kwargs) - set(vars(self))
-- 
2.43.0


From a1279bcfb6023de0b66eabc56250b35d688eb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 10/32] fix: add_axis with a negative index is the inverse of
 remove_axis

---
 nnx/spmd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nnx/spmd.py b/nnx/spmd.py
index 981494c..a474041 100644
--- a/nnx/spmd.py
+++ b/nnx/spmd.py
@@ -45,7 +45,9 @@ def add_axis(state: State, index: int, params: tp.Mapping[tp.Any, tp.Any]) -> St
       sharding = list(x.sharding)
       while len(sharding) < index:
         sharding.append(None)
-      sharding.insert(index, axis_name)
+      # a negative index is a position in the resulting sharding
+      position = index if index >= 0 else len(sharding) + 1 + index
+      sharding.insert(position, axis_name)
       return x.replace(sharding=tuple(sharding))
     return x
 
-- 
2.43.0


From 482c469a5d8cb0048685169d3e38607f70990718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 11/32] fix: replace of a dataclass Pytree with fields set
 outside of the constructor

---
 nnx/pytreelib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index b9ff2c7..f1fe560 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -242,7 +242,7 @@ class Pytree(reprlib.Representable, metaclass=PytreeMeta):
     if dataclasses.is_dataclass(self):
       # keep the containers that plain fields may hold
       for field in dataclasses.fields(self):
-        value = vars(self)[field.name]
+        value = vars(self).get(field.name)
         if field.init and isinstance(value, containers.Container):
           if field.name in kwargs:
             kwargs[field.name] = value.replace(value=kwargs[field.name])
-- 
2.43.0


From 82ab7b3268491b018eb919ca37ab7b48ed324e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 12/32] fix: contexts can be passed to nnx.jit and split
 contexts through JAX transforms

---
 nnx/contextlib.py | 11 +++++++++++
 nnx/transforms.py |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/nnx/contextlib.py b/nnx/contextlib.py
index ff07918..1ee4299 100644
--- a/nnx/contextlib.py
+++ b/nnx/contextlib.py
@@ -39,6 +39,17 @@ class ContextDef:
     return Context(rngs=rngs, flags=dict(self._flags))
 
 
+def _contextdef_flatten(contextdef: ContextDef):
+  return (), (contextdef._rng_counts, contextdef._flags)
+
+
+def _contextdef_unflatten(metadata, _) -> ContextDef:
+  return ContextDef(*metadata)
+
+
+jtu.register_pytree_node(ContextDef, _contextdef_flatten, _contextdef_unflatten)
+
+
 class PureContext(tp.Tuple[tp.Dict[str, KeyArray], ContextDef]):
 
   @classmethod
diff --git a/nnx/transforms.py b/nnx/transforms.py
index fe22bed..f22032a 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -42,11 +42,11 @@ class JitTransform(jax.stages.Wrapped):
   ):
     @functools.partial(jax.jit, **jit_kwargs)
     def jitted_fn(pure_module: PureModule[Module], *args, **kwargs):
-      if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
-        kwargs["ctx"] = kwargs["ctx"].merge()
-
       nnx_trace = tracers.get_top_trace((args, kwargs))
       with tracers.nnx_trace(nnx_trace):
+        if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.PureContext):
+          kwargs["ctx"] = kwargs["ctx"].merge()
+
         module = pure_module.merge()
         out = fun(module, *args, **kwargs)
 
-- 
2.43.0


From eff4637df28a080d3924f41a81b0e0852be72133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 13/32] fix: copies of modules have their own identity and
 trace state

---
 nnx/module.py  | 9 +++++++++
 nnx/tracers.py | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index d595a04..2592710 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -470,6 +470,15 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def __hash__(self) -> int:
     return hash(self._module__state.id)
 
+  def __copy__(self: M) -> M:
+    module = object.__new__(type(self))
+    vars(module).update(vars(self))
+    # a copy is a new module with its own identity
+    vars(module)["_module__state"] = ModuleState.from_tuple(
+        self._module__state.to_tuple()
+    )
+    return module
+
   def __nnx_repr__(self):
     global SEEN_MODULES_REPR
 
diff --git a/nnx/tracers.py b/nnx/tracers.py
index cb8ce13..2160cbf 100644
--- a/nnx/tracers.py
+++ b/nnx/tracers.py
@@ -93,6 +93,14 @@ class TraceState(reprlib.Representable):
         and self._nnx_trace is current_nnx_trace()
     )
 
+  # copies belong to the trace in which they are made
+
+  def __copy__(self) -> "TraceState":
+    return TraceState()
+
+  def __deepcopy__(self, memo) -> "TraceState":
+    return TraceState()
+
   def __nnx_repr__(self):
     yield reprlib.Object(f"{type(self).__name__}")
     yield reprlib.Attr("jax_trace", self._jax_trace)
-- 
2.43.0


From b0ca6aa3570eb7b6000c7e9233f5e15ff840437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 14/32] fix: scan keeps broadcast variables created by the
 scanned method

---
 nnx/transforms.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index f22032a..c1e8029 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -606,7 +606,7 @@ def scan_apply(
     )
 
     carry_state_new = carry_state_out - carry_state
-    broadcast_state_new = broadcast_state - broadcast_state_out
+    broadcast_state_new = broadcast_state_out - broadcast_state
 
     # remove new carry state
     carry_state_out = carry_state_out - carry_state_new
@@ -636,10 +636,12 @@ def scan_apply(
   axes = (axes_keys, axes_states, axes_arg)
 
   abstract_output = jax.eval_shape(scan_partial(length, options.unroll), carry, axes)
-  carry_state_new = abstract_output[1][2]
-  has_new_carry_state = len(jax.tree_util.tree_leaves(carry_state_new)) > 0
+  _, broadcast_state_new, carry_state_new, _ = abstract_output[1]
+  has_new_state = (
+      len(jax.tree_util.tree_leaves((broadcast_state_new, carry_state_new))) > 0
+  )
 
-  if has_new_carry_state:
+  if has_new_state:
     # run scan for 1 step
     axes1 = jax.tree_map(lambda x: x[:1], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
@@ -660,7 +662,9 @@ def scan_apply(
     axes_rest = jax.tree_map(lambda x: x[1:], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
-    axes_states_rest, broadcast_state_new, carry_state_new, out_rest = scan_out
+    axes_states_rest, _, _, out_rest = scan_out
+    # the rest of the steps may have updated the new carry state
+    carry_state_new = State({})
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-- 
2.43.0


From 5b630f12564f49a476aa6ceffa2b9b7bcf923bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 15/32] fix: reversed scan runs the last step first when it
 creates state

---
 nnx/transforms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index c1e8029..0ff1bd4 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -642,8 +642,11 @@ def scan_apply(
   )
 
   if has_new_state:
-    # run scan for 1 step
-    axes1 = jax.tree_map(lambda x: x[:1], axes)
+    # run scan for the step that comes first
+    first, rest = slice(None, 1), slice(1, None)
+    if options.reverse:
+      first, rest = slice(length - 1, None), slice(None, length - 1)
+    axes1 = jax.tree_map(lambda x: x[first], axes)
     carry, scan_out = scan_partial(1, 1)(carry, axes1)
     carry_state, carry_arg = carry
     axes_states1, broadcast_state_new, carry_state_new, out1 = scan_out
@@ -659,7 +662,7 @@ def scan_apply(
     carry = (carry_state, carry_arg)
 
     # run scan for the rest of the steps
-    axes_rest = jax.tree_map(lambda x: x[1:], axes)
+    axes_rest = jax.tree_map(lambda x: x[rest], axes)
     carry, scan_out = scan_partial(length - 1, options.unroll)(carry, axes_rest)
     carry_state, carry_out = carry
     axes_states_rest, _, _, out_rest = scan_out
@@ -668,7 +671,7 @@ def scan_apply(
 
     # concatenate outputs
     axes_states, out = jax.tree_map(
-        lambda x, y: jnp.concatenate((x, y), axis=0),
+        lambda x, y: jnp.concatenate((y, x) if options.reverse else (x, y), axis=0),
         (axes_states1, out1),
         (axes_states_rest, out_rest),
     )
-- 
2.43.0


From 875bb13ed9cbdda39b679f7ff53a1610bc37e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 16/32] fix: Pure.pop_state accepts an ellipsis filter

Module.pop_state(...) pops every node, but on a Pure the extra catch-all
filter put the user's ellipsis in a position that partition rejects.
---
 nnx/module.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 2592710..07bdc63 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -315,17 +315,11 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
   def pop_state(
       self, filter: partitioning.Filter, *filters: partitioning.Filter
   ) -> tp.Tuple[tp.Union[State, tp.Tuple[State, ...]], "Pure[State, M]"]:
-    filters = (filter, *filters)
-
     state = self.get_state()
-    *states, rest = state.partition(*filters, ...)
-
-    if len(states) == 1:
-      states = states[0]
-    else:
-      states = tuple(states)
+    states = state.filter(filter, *filters)
+    popped = states if isinstance(states, State) else State.merge(*states)
 
-    return states, Pure.new(rest, self.moduledef)
+    return states, Pure.new(state - popped, self.moduledef)
 
   def update_state(
       self,
-- 
2.43.0


From 2464ac5a200b56deb26d2dcde84fb9919d1a1887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 17/32] fix: Sequence does not write the context into a dict
 returned by a callable

---
 nnx/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nnx/helpers.py b/nnx/helpers.py
index c2d8f1c..e81f77f 100644
--- a/nnx/helpers.py
+++ b/nnx/helpers.py
@@ -86,7 +86,7 @@ class Sequence(Module, tp.Generic[A]):
           kwargs = {}
         elif isinstance(output, tp.Dict):
           args = ()
-          kwargs = output
+          kwargs = dict(output)
         else:
           args = (output,)
           kwargs = {}
-- 
2.43.0


From d6923690426da6773930cabf5de5abf377901158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:17 +0000
Subject: [PATCH 18/32] fix: init resets modules the call removed from the
 graph and can be nested

---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 07bdc63..273675d 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -507,12 +507,17 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
       def _set_is_initializing(module: Module, value: bool):
         module._module__state.is_initializing = value
 
+      # the call may remove modules from the graph or use `init` itself
+      previous: tp.List[tp.Tuple[Module, bool]] = []
+      self.for_each(Module, lambda m: previous.append((m, m.is_initializing)))
       self.for_each(Module, partial(_set_is_initializing, value=True))
 
       try:
         return accessor(self)(*args, **kwargs)
       finally:
         self.for_each(Module, partial(_set_is_initializing, value=False))
+        for module, value in previous:
+          _set_is_initializing(module, value)
 
     return CallableProxy(_init, accessor)  # type: ignore
 
-- 
2.43.0


From e25e30b445f322d5c9b496a892e71f5bcdc53418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 19/32] fix: initialisation through nnx.scan with sharding
 metadata

---
 nnx/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 0ff1bd4..c782b7a 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -739,6 +739,8 @@ def scan(
         return module
 
       lifted_module = scan_init(options, module_constructor, args, kwargs)
+      # drop the per-layer variables, their metadata differs from the lifted ones
+      module.pop_state(...)
       module.update_state(lifted_module)
 
     wrapper = init_wrapper
-- 
2.43.0


From 4ebc9271ef346da296fa74ba653c84941b9ce8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 20/32] fix: later steps of a scan see broadcast variables
 created by the first step

---
 nnx/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index c782b7a..1f55493 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -572,6 +572,7 @@ def scan_apply(
     broadcast_keys = None
 
   def scan_fn(
+      broadcast_state: State,
       carry: tp.Tuple[State, tp.Any],
       axes: tp.Tuple[
           tp.Optional[tp.Dict[str, jax.Array]], tp.Tuple[State, ...], tp.Any
@@ -623,8 +624,11 @@ def scan_apply(
 
     return carry, out
 
+  # the broadcast state is bound explicitly: JAX caches the traces of a function
+  # and would not notice that a variable it closes over was reassigned
+  step_fn = functools.partial(scan_fn, broadcast_state)
   scan_partial = lambda length, unroll: lambda carry, axes: jax.lax.scan(
-      scan_fn,
+      step_fn,
       carry,
       axes,
       length=length,
@@ -658,6 +662,7 @@ def scan_apply(
     # merge states
     broadcast_state = State.merge(broadcast_state, broadcast_state_new)
     carry_state = State.merge(carry_state, carry_state_new)
+    step_fn = functools.partial(scan_fn, broadcast_state)
     # udpate carry
     carry = (carry_state, carry_arg)
 
-- 
2.43.0


From 2ed1db45c6d2392387d6de1e323b661c1f389dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 21/32] fix: nnx.scan can initialise with a context when
 nothing is stacked and no length is given

---
 nnx/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index 1f55493..f444153 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -465,7 +465,8 @@ def scan_init(
 
     return states
 
-  if ctxdef is not None or options.variable_axes:
+  # without a length there is nothing to stack and no stream to split
+  if options.length is not None and (ctxdef is not None or options.variable_axes):
     init_out_axes = (*options.variable_axes.values(), None, None)
     _init_state = jax.vmap(
         _init_state,
-- 
2.43.0


From 1ba7265b5bed0cb0034c049e8da5d5f924b4cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 22/32] fix: clean up the repr iterator when printing an
 element fails

---
 nnx/reprlib.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/reprlib.py b/nnx/reprlib.py
index f267941..f04ed0b 100644
--- a/nnx/reprlib.py
+++ b/nnx/reprlib.py
@@ -76,8 +76,14 @@ def get_repr(obj: Representable) -> str:
 
     return f"{get_indent()}{elem.start}{elem.key}{config.value_sep}{value}{elem.end}"
 
-  with add_indent(config.elem_indent):
-    elems = list(map(_repr_elem, iterator))
+  try:
+    with add_indent(config.elem_indent):
+      elems = list(map(_repr_elem, iterator))
+  finally:
+    # run the iterator's cleanup code now, even if printing an element failed
+    close = getattr(iterator, "close", None)
+    if close is not None:
+      close()
   elems = ",\n".join(elems)
 
   if elems:
-- 
2.43.0


From 089761c15edb578652c971b180ff69c40e5b123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 23/32] fix: keep the modules seen while printing separate
 between threads

---
 nnx/module.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index 273675d..bae2971 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -1,4 +1,5 @@
 import dataclasses
+import threading
 import typing as tp
 from abc import ABCMeta
 from functools import partial
@@ -369,7 +370,12 @@ jtu.register_pytree_node(Pure, _pure_module_flatten, _pure_module_unflatten)
 PureModule = Pure[tp.Union[State, tp.Tuple[State, ...]], M]
 
 
-SEEN_MODULES_REPR: tp.Optional[tp.Set[ids.UUID]] = None
+@dataclasses.dataclass
+class ModuleReprContext(threading.local):
+  seen_modules: tp.Optional[tp.Set[ids.UUID]] = None
+
+
+MODULE_REPR_CONTEXT = ModuleReprContext()
 
 ModuleStateTuple = tuple[bool]
 
@@ -474,20 +480,18 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     return module
 
   def __nnx_repr__(self):
-    global SEEN_MODULES_REPR
-
-    if SEEN_MODULES_REPR is None:
-      SEEN_MODULES_REPR = set()
+    if MODULE_REPR_CONTEXT.seen_modules is None:
+      MODULE_REPR_CONTEXT.seen_modules = set()
       clear_seen = True
     else:
       clear_seen = False
 
-    if self._module__state.id in SEEN_MODULES_REPR:
+    if self._module__state.id in MODULE_REPR_CONTEXT.seen_modules:
       yield reprlib.Object(type=type(self), empty_repr="...")
       return
 
     yield reprlib.Object(type=type(self))
-    SEEN_MODULES_REPR.add(self._module__state.id)
+    MODULE_REPR_CONTEXT.seen_modules.add(self._module__state.id)
 
     try:
       for name, value in vars(self).items():
@@ -497,7 +501,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
           yield reprlib.Attr(name, value)
     finally:
       if clear_seen:
-        SEEN_MODULES_REPR = None
+        MODULE_REPR_CONTEXT.seen_modules = None
 
   @property
   def init(self: M) -> M:
-- 
2.43.0


From 59509009ee79328423fba71c2e7a8448c5109ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 24/32] fix: let the views returned by mutable_state_dict be
 printed

---
 nnx/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index bae2971..af03014 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -775,6 +775,10 @@ class MutableLeaf(reprlib.Representable):
 
     return vars(attr).get("sharding", None)
 
+  def __nnx_repr__(self):
+    yield reprlib.Object(type(self))
+    yield reprlib.Attr("value", repr(self.value))
+
 
 def _get_module_state(module: Module) -> State:
   return State(_iter_state(module))
-- 
2.43.0


From d3dd08f8d937dac5d41cb6e7eccbb769f06b6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:25 +0000
Subject: [PATCH 25/32] fix: initializers wrapped with metadata accept keyword
 arguments

---
 nnx/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nnx/containers.py b/nnx/containers.py
index 969645d..e94b9dd 100644
--- a/nnx/containers.py
+++ b/nnx/containers.py
@@ -193,8 +193,8 @@ def with_metadata(
     **metadata: tp.Any,
 ) -> F:
   @functools.wraps(initializer)
-  def wrapper(*args):
-    return ContainerMetadata(initializer(*args), metadata=metadata)
+  def wrapper(*args, **kwargs):
+    return ContainerMetadata(initializer(*args, **kwargs), metadata=metadata)
 
   return wrapper  # type: ignore
 
-- 
2.43.0


From a41ae0975a6720e13605c10c0cf39f0479a2e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 26/32] fix: nnx.jit's lower accepts the arguments of a call

---
 nnx/transforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nnx/transforms.py b/nnx/transforms.py
index f444153..42a64d9 100644
--- a/nnx/transforms.py
+++ b/nnx/transforms.py
@@ -76,8 +76,14 @@ class JitTransform(jax.stages.Wrapped):
   def __repr__(self):
     return f"JitTransform({self.jitted_fn})"
 
-  def lower(self, *args, **kwargs):
-    return self.jitted_fn.lower(*args, **kwargs)
+  def lower(self, module: tp.Any, *args, **kwargs):
+    # same arguments as __call__, but an already partitioned module is fine too
+    if isinstance(module, Module):
+      module = module.partition()
+    if "ctx" in kwargs and isinstance(kwargs["ctx"], contextlib.Context):
+      kwargs["ctx"] = kwargs["ctx"].partition()
+
+    return self.jitted_fn.lower(module, *args, **kwargs)
 
 
 UNSPECIFIED = object()
-- 
2.43.0


From 61f826de93bf4a7f85e3872a3b84e255e8b49dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 27/32] fix: names of attributes and arguments do not clash
 with those of apply's accessors

---
 nnx/module.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nnx/module.py b/nnx/module.py
index af03014..783dd4f 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -49,10 +49,11 @@ def _identity(x):
 
 @dataclasses.dataclass
 class DelayedAccessor:
-  accessor: tp.Callable[[tp.Any], tp.Any] = _identity
+  # private, the attributes of the object that is accessed must not clash with it
+  _delayed_accessor: tp.Callable[[tp.Any], tp.Any] = _identity
 
   def __call__(self, x):
-    return self.accessor(x)
+    return self._delayed_accessor(x)
 
   def __getattr__(self, name):
     return DelayedAccessor(lambda x: getattr(self(x), name))
@@ -155,7 +156,7 @@ class ModuleDef(tp.Generic[M], reprlib.Representable):
   def apply(self, state: State, *states: State) -> ApplyCaller["Pure[State, M]"]:
     accessesor = DelayedAccessor()
 
-    def _context(accessesor, *args, **kwargs) -> tp.Tuple[tp.Any, Pure[State, M]]:
+    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, Pure[State, M]]:
       module = self.merge(state, *states)
       fn = accessesor(module)
       out = fn(*args, **kwargs)
@@ -221,7 +222,7 @@ class Pure(tp.Tuple[S, ModuleDef[M]]):
   def call(self) -> M:
     accessesor = DelayedAccessor()
 
-    def _context(accessesor, *args, **kwargs):
+    def _context(accessesor, /, *args, **kwargs):
       module = self.merge()
       fn = accessesor(module)
       return fn(*args, **kwargs)
@@ -507,7 +508,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def init(self: M) -> M:
     accessor = DelayedAccessor()
 
-    def _init(accessor, *args, **kwargs):
+    def _init(accessor, /, *args, **kwargs):
       def _set_is_initializing(module: Module, value: bool):
         module._module__state.is_initializing = value
 
@@ -638,7 +639,7 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
   def apply(self: M) -> ApplyCaller[M]:
     accessesor = DelayedAccessor()
 
-    def _context(accessesor, *args, **kwargs) -> tp.Tuple[tp.Any, M]:
+    def _context(accessesor, /, *args, **kwargs) -> tp.Tuple[tp.Any, M]:
       module = self.clone()
       fn = accessesor(module)
       out = fn(*args, **kwargs)
-- 
2.43.0


From 9664d189e659518000f08d91bfc332cdbbd2b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:09 +0000
Subject: [PATCH 28/32] fix: a declared dataclass field with init=False takes
 its default

---
 nnx/module.py    | 3 +++
 nnx/pytreelib.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index 783dd4f..47d2677 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -427,6 +427,9 @@ class ModuleMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
+        if field.default is not dataclasses.MISSING:
+          # with init=False the default is only set on the class
+          vars(module).setdefault(field.name, field.default)
         value = vars(module)[field.name]
         value = container_fn(value)
         vars(module)[field.name] = value
diff --git a/nnx/pytreelib.py b/nnx/pytreelib.py
index f1fe560..5932c89 100644
--- a/nnx/pytreelib.py
+++ b/nnx/pytreelib.py
@@ -58,6 +58,9 @@ class PytreeMeta(ABCMeta):
           continue
 
         container_fn = field.metadata["nnx_container_fn"]
+        if field.default is not dataclasses.MISSING:
+          # with init=False the default is only set on the class
+          vars(obj).setdefault(field.name, field.default)
         value = vars(obj)[field.name]
         value = container_fn(value)
         vars(obj)[field.name] = value
-- 
2.43.0


From 1f4b0dd6497f90d6698afcf6d53ff1dc26ffdebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:32 +0000
Subject: [PATCH 29/32] fix: a later update wins over an earlier one that names
 the node by another path

---
 nnx/module.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nnx/module.py b/nnx/module.py
index 47d2677..dd8cc25 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -953,7 +953,10 @@ def _update_module(
 
   state: StateDict = {}
   for new_state in new_states:
-    state.update(new_state)
+    # later updates are assigned later, as a node may be reachable by several paths
+    kept = {path: value for path, value in state.items() if path not in new_state}
+    named = {path: new_state[path] for path in state if path in new_state}
+    state = {**kept, **named, **new_state}
 
   for path, value in state.items():
     path_parts = path.split("/")
-- 
2.43.0


From 0367f0ec2ad0c6839b1f48d13d5807c6882cd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:40 +0000
Subject: [PATCH 30/32] fix: deleting an attribute of a module from another
 trace level is rejected

---
 nnx/module.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nnx/module.py b/nnx/module.py
index dd8cc25..41b0ca6 100644
--- a/nnx/module.py
+++ b/nnx/module.py
@@ -459,6 +459,11 @@ class Module(reprlib.Representable, metaclass=ModuleMeta):
     def __setattr__(self, name: str, value: Any) -> None:
       self._setattr(name, value)
 
+    def __delattr__(self, name: str) -> None:
+      if not self._module__state.trace_state.is_valid():
+        raise errors.TraceContextError("Cannot mutate Module from different trace level")
+      object.__delattr__(self, name)
+
   def _setattr(self, name: str, value: Any) -> None:
     if not self._module__state.trace_state.is_valid():
       raise errors.TraceContextError("Cannot mutate Module from different trace level")
-- 
2.43.0


From b74102e21491cfe1be3ea7b9f3f83b1d35f81fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:40 +0000
Subject: [PATCH 31/32] fix: initializers wrapped several times with metadata
 give a plain value

---
 nnx/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nnx/containers.py b/nnx/containers.py
index e94b9dd..cd7ecd8 100644
--- a/nnx/containers.py
+++ b/nnx/containers.py
@@ -45,7 +45,8 @@ class Container(tp.Generic[A], reprlib.Representable, metaclass=ContainerMetacla
   value: A
 
   def __init__(self, value: tp.Union[A, ContainerMetadata[A]], **metadata: tp.Any):
-    if isinstance(value, ContainerMetadata):
+    # an initializer may be wrapped several times
+    while isinstance(value, ContainerMetadata):
       metadata.update(value.metadata)
       value = tp.cast(A, value.value)
 
-- 
2.43.0


From 4a1cc5efd53b73ae56b16a23953efeb082252944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:53 +0000
Subject: [PATCH 32/32] fix: modules and contexts loaded from a pickle are
 copies with their own identity and trace

---
 nnx/ids.py     | 8 ++++++++
 nnx/tracers.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/nnx/ids.py b/nnx/ids.py
index 7b14b93..fee68fe 100644
--- a/nnx/ids.py
+++ b/nnx/ids.py
@@ -63,3 +63,11 @@ class UUID:
 
   def __copy__(self):
     return uuid()
+
+  def __reduce__(self):
+    # what is loaded from a pickle is a copy too
+    return _new_uuid, ()
+
+
+def _new_uuid() -> UUID:
+  return uuid()
diff --git a/nnx/tracers.py b/nnx/tracers.py
index 2160cbf..0987128 100644
--- a/nnx/tracers.py
+++ b/nnx/tracers.py
@@ -101,6 +101,9 @@ class TraceState(reprlib.Representable):
   def __deepcopy__(self, memo) -> "TraceState":
     return TraceState()
 
+  def __reduce__(self):
+    return TraceState, ()
+
   def __nnx_repr__(self):
     yield reprlib.Object(f"{type(self).__name__}")
     yield reprlib.Attr("jax_trace", self._jax_trace)
-- 
2.43.0

