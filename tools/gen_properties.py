"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
      mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

MOD="nnx/module.py"
prop("C01","Splitting a module and merging it back rebuilds an equivalent module graph",
 "Splitting a module into state and definition and merging them back (whole, from any number of filtered parts in any order, or through clone) yields a graph isomorphic to the original: same classes and attribute names, same shared and cyclic references between modules, equal static attributes, and node attributes with the same type, metadata and value. The original is left unchanged, and assigning attributes on either graph afterwards is never visible in the other.",
 ["inputs","programs"],"every module graph (nesting, sharing, cycles, any mix of variables, arrays, other nodes and static values, any attribute order), every leaf value and every way of splitting it",
 "the tests build about five fixed graphs with concrete leaf values; sharing, cycles, falsy/None values, metadata and part order are sampled once each",
 [MOD,"nnx/state.py","nnx/containers.py"],
 [("recursive definition builder with module index",MOD+":_make_module_def_recursive"),("module rebuild by index",MOD+":_build_module_recursive"),("path assignment",MOD+":_update_module")],
 [("module identity","which modules have been visited",MOD+":ModuleState")],["Module.partition","ModuleDef.merge","Pure.merge","Module.clone"])
prop("C02","State and definition hold every attribute exactly once, in a fixed order",
 "The state of a module contains every node attribute reachable from the module exactly once, under a slash-separated path that leads to it from the root, and contains nothing else, while every static attribute is held by the definition. A module reachable by several routes or through a cycle contributes its nodes once, and the keys, their order and the definition depend only on the structure, not on the order in which attributes were assigned.",
 ["inputs","programs"],"every module graph, attribute insertion order and leaf kind (variable, array, pytree node, static value of any type or truth value)",
 "tests only count entries of a handful of fixed modules",
 [MOD,"nnx/state.py","nnx/nodes.py"],[("deduplicating state walk",MOD+":_iter_state_recursive"),("node test","nnx/nodes.py:is_node"),("sorted state keys","nnx/state.py:State.__init__")],[],["Module.get_state","Module.partition","Module.get_module_def"])
prop("C03","Filters split state into exact, first-match, lossless parts",
 "Partitioning a module, a split module or a state with a sequence of filters puts every node, value untouched, into the part of the first filter that matches it, and raises an error rather than dropping a node that no filter matches; `filter` does the same but leaves unmatched nodes out. Type, tuple, All, Not, None, `...` and predicate filters match exactly as documented (a predicate sees the node's path and its stored value), `...` before the last position is rejected, and merging the parts restores the original state.",
 ["inputs"],"every state, every sequence of filters, every user predicate (modelled as an arbitrary boolean of path and value)",
 "tests use three fixed filters on one fixed module; predicates, combinators and overlap are not quantified",
 ["nnx/state.py","nnx/partitioning.py",MOD],[("first-match split","nnx/state.py:_split_state"),("filter to predicate","nnx/partitioning.py:to_predicate")],[],["State.partition","State.filter","State.merge","Module.partition","Module.filter","Pure.partition","Pure.filter"])
prop("C04","Updating state assigns exactly the named nodes and keeps everything else",
 "Updating a module from a state, a tuple of states, a split module or another module assigns every node they name (where several name it, the last one wins) and adds named nodes that did not exist, keeping unnamed nodes, static attributes, the types and metadata of variables, and the identity and sharing of submodules. Updating a split module returns a split module whose state is changed in the same way, with the updates winning over the old values, and leaves its inputs untouched.",
 ["inputs","histories"],"every module graph, every set of updated, new and untouched paths, every number of update states, any leaf value",
 "tests update whole states of one or two modules; partial, overlapping and new-name updates are not quantified",
 [MOD,"nnx/state.py"],[("module update",MOD+":_update_module"),("split module update",MOD+":Pure.update_state"),("later-wins merge","nnx/state.py:State.merge")],[],["Module.update_state","Pure.update_state","State.merge","State.__or__","State.__sub__"])
prop("C05","Popping state removes and returns exactly the matching nodes",
 "Popping nodes by filters removes from the module exactly the nodes that match some filter and returns each, unchanged, in the state of the first filter that matches it and under the same path the module's state uses for it; all other attributes stay as they were, for shared and cyclic module graphs too. On a split module it returns the same states together with a split module holding the rest, and leaves the original untouched.",
 ["inputs","programs"],"every module graph including shared and cyclic ones, every sequence of filters and predicates",
 "tests pop one intermediate from a flat module; cycles, sharing and multi-filter pops are never exercised",
 [MOD],[("recursive pop",MOD+":_pop_recursive"),("split module pop",MOD+":Pure.pop_state")],[],["Module.pop_state","Pure.pop_state"])
prop("C06","Functional apply runs on an isolated copy and returns the updated state",
 "Calling a method, submodule or item through `apply` of a definition, split module or module, reached by any chain of `.name` and `[key]` accesses, returns what the same call on an equivalent module would return, together with a result holding every state update made by the call. The state, definition and module it was called on are never changed, so the same call can be repeated with the same result; `call` of a split module returns the output alone.",
 ["inputs","programs","histories"],"every accessor chain (bounded depth), every module method that reads and writes state, any argument values",
 "tests call only the root __call__ once; nested access and repeated application are not tested",
 [MOD],[("call proxy",MOD+":CallableProxy"),("delayed accessor",MOD+":DelayedAccessor"),("apply",MOD+":ModuleDef.apply")],[],["ModuleDef.apply","Pure.apply","Pure.call","Module.apply"])
prop("C07","Modules and contexts reject use from a different trace, without effect",
 "A module or context that was created under one JAX trace or nnx transform trace raises a trace-context error when it is mutated by attribute assignment, attribute deletion, state update, pop or sow, or asked to draw or split random keys, under a different one, and its attributes, values and key counters are left exactly as they were. Under the trace that created it, it stays usable, also after transforms that were entered in between have finished or raised. Plain jax.grad, jax.vmap and jax.jvp open no trace of their own.",
 ["programs","schedules"],"every nesting of traces in which an object is created and later used, every mutating operation",
 "tests try one jit and one grad level with one assignment",
 ["nnx/tracers.py",MOD,"nnx/contextlib.py","nnx/transforms.py"],[("trace validity","nnx/tracers.py:TraceState.is_valid"),("guarded setattr",MOD+":Module._setattr"),("nnx trace stack","nnx/tracers.py:nnx_trace"),("guarded rng use","nnx/contextlib.py:Context.make_rng")],
 [("trace stack","current nnx trace","nnx/tracers.py:TRACE_CONTEXT")],["Module.__setattr__","Module.__delattr__","Module.update_state","Module.pop_state","Module.sow","Context.make_rng","Context.partition"])
prop("C08","Random keys are never handed out twice and depend only on seed and history",
 "Keys drawn from one stream of a context and of all contexts split off it, directly or through further splits, in any interleaving of draws and splits, are derived from pairwise different inputs, so no derivation is ever used for two draws. The keys a stream yields are a function of its seed key and of the draws and splits made on that stream's context alone: other streams, flags and the order in which streams were declared do not change them, and different streams with different seeds never share a seed key.",
 ["histories","inputs"],"every history of draws and splits (bounded length), from streams whose counters and split paths are arbitrary non-negative integers, any number of streams",
 "tests draw two keys and split once; collisions between count paths need particular multi-digit counters or deep split chains",
 ["nnx/contextlib.py"],[("count-path hash","nnx/contextlib.py:_stable_hash"),("draw","nnx/contextlib.py:Context.make_rng"),("split","nnx/contextlib.py:Context.partition")],
 [("stream counter","draws and splits made so far","nnx/contextlib.py:RngStream")],["Context.make_rng","Context.partition","ContextDef.merge"])
prop("C09","Splitting and merging a context keeps its streams and flags",
 "Splitting a context and merging the result gives a context with exactly the same stream names, the same underlying seed keys and the same flags (including false ones), and merging the same split twice gives contexts that yield the same keys; the split parts can be passed through JAX transformations. Asking for an unknown stream is an error, an unset flag reads as None, and stream filters (name, sequence, mapping of filter to bool, predicate, `...`, None) select exactly the streams they name.",
 ["inputs","configurations"],"every set of streams and flags, every stream filter, any seed",
 "tests use one stream and never flags, filters or jit",
 ["nnx/contextlib.py","nnx/transforms.py"],[("split","nnx/contextlib.py:Context.partition"),("merge","nnx/contextlib.py:ContextDef.merge"),("stream filters","nnx/contextlib.py:to_rng_predicate")],[],["nnx.context","Context.partition","PureContext.merge","ContextDef.merge","Context.get_flag"])
prop("C10","Variable attributes keep their type and metadata and are never aliased",
 "Assigning a plain value to an attribute that holds a variable or node replaces only its value and keeps its type and metadata; assigning a variable of the same type and metadata replaces its value; assigning one of another type or metadata raises and leaves the attribute unchanged, and reading the attribute gives the current value. A variable object assigned to several attributes or modules is stored independently in each, so that updating one never changes another or the original object, and wrapping a variable in its own class is idempotent while wrapping it in a different class or with different metadata raises.",
 ["inputs","histories"],"every variable class, metadata mapping and value (including None, false and equal-but-distinct ones), every sequence of assignments",
 "tests check three class pairs without metadata",
 ["nnx/containers.py",MOD],[("replace","nnx/containers.py:Container.replace"),("equivalence","nnx/containers.py:Container.is_equivalent"),("copy on assignment",MOD+":Module._setattr"),("metaclass unwrapping","nnx/containers.py:ContainerMetaclass")],[],["Module.__setattr__","Module.__getattribute__","Container.replace","Container.copy","nnx.with_metadata"])
prop("C11","Variables, states and split modules are lossless pytrees",
 "Flattening and unflattening a variable, node, state, split module or split context as a pytree gives back an equal object: same classes, metadata, paths and order, and mapping a function over the leaves changes only the node values. Static containers and definitions contribute no leaves and survive unchanged, and two such objects have the same tree structure exactly when their classes, metadata, paths and static parts agree. A copy made by copy.deepcopy or a pickle has the same structure and rebuilds the same module or context.",
 ["inputs"],"every variable class, metadata, nested pytree value, state and split module",
 "tests flatten single variables without metadata",
 ["nnx/containers.py","nnx/state.py",MOD,"nnx/contextlib.py"],[("node registration","nnx/containers.py:NodeBase.__init_subclass__"),("state registration","nnx/state.py:_state_flatten_with_keys"),("definition registration",MOD+":_moddef_flatten"),("split module registration",MOD+":_pure_module_flatten")],[],["jax.tree_util.tree_flatten","jax.tree_util.tree_unflatten","jax.tree_util.tree_map"])
prop("C12","Definitions are equal exactly when the module structure is equal",
 "Two definitions compare equal, and then hash equal, exactly when the modules they came from have the same class at every position, the same submodule names, the same sharing between submodules and equal static attributes; node values never influence the comparison. Hence a jitted function taking a split module is retraced when the structure or a static attribute changes and is not retraced when only node values change.",
 ["inputs","histories"],"every pair of module graphs over bounded shapes, any static values with arbitrary equality",
 "one test counts retraces for one added attribute",
 [MOD],[("equality",MOD+":ModuleDef.__eq__"),("hash",MOD+":ModuleDef.__hash__")],[],["ModuleDef.__eq__","ModuleDef.__hash__","jax.jit over PureModule"])
prop("C13","nnx.Pytree objects flatten losslessly, keep their fields and stay immutable",
 "Flattening and unflattening an nnx.Pytree object restores its class, every static field and every node field with its type and metadata, in an order that does not depend on the order of assignment. After construction no field can be added, a field of an immutable class cannot be reassigned, and a failed assignment changes nothing; `replace` returns a new object in which exactly the named fields have the new values, all other fields keep their node or static role, and the original object is unchanged.",
 ["inputs","histories"],"every set of fields and field kinds, plain and dataclass classes, mutable and immutable classes, any value, any sequence of replace and assignment",
 "tests use two fixed classes with small integers",
 ["nnx/pytreelib.py","nnx/dataclasses.py"],[("flatten","nnx/pytreelib.py:Pytree._pytree__flatten"),("guarded setattr","nnx/pytreelib.py:Pytree._setattr"),("replace","nnx/pytreelib.py:Pytree.replace")],[("sorted field list","order of fields","nnx/pytreelib.py:PytreeMeta.call")],["nnx.Pytree","Pytree.replace","jax.tree_util"])
prop("C14","Flax serialization of nnx.Pytree restores exactly the saved node values",
 "Converting an nnx.Pytree object to a flax state dict records exactly its node fields, and restoring that dict into an object of the same shape sets every node field to the saved value, with nested containers and pytrees keeping their structure, and leaves static fields and the target object untouched. A dict that lacks a node field or has an unknown one is rejected.",
 ["inputs"],"every set of node and static fields, nested pytrees and container-valued nodes, any missing or extra key",
 "one test with integer leaves and one nesting level",
 ["nnx/pytreelib.py"],[("to state dict","nnx/pytreelib.py:Pytree._to_flax_state_dict"),("from state dict","nnx/pytreelib.py:Pytree._from_flax_state_dict")],[],["flax.serialization.to_state_dict","flax.serialization.from_state_dict"])
TR="nnx/transforms.py"
prop("C15","nnx.jit is transparent: same outputs and state updates as a direct call",
 "Calling a function through nnx.jit on a module returns the same output as calling it directly and leaves the module with the same values for every node assigned or created on existing modules of the graph, shared and cyclic graphs included, and with its static attributes and module identities kept, on every call including repeated calls after values or structure changed. With stateful=False the output is the same and the module is not changed, and if the function raises the module is not changed and stays usable. Static attributes that compare equal count as unchanged. Lowering with the arguments of a call compiles that call's computation and changes nothing.",
 ["programs","inputs","histories"],"every function body built from reads, writes, creations and state updates (bounded length) over bounded module graphs, all array values and arguments, sequences of calls",
 "two tests assign one constant",
 [TR,MOD,"nnx/tracers.py"],[("jit wrapper",TR+":JitTransform"),("state propagation",MOD+":_update_module")],[],["nnx.jit"])
prop("C16","nnx.grad equals the gradient of the functional form and propagates state",
 "nnx.grad returns, under the paths of the nodes selected by `wrt` and in their own node types, the derivatives that jax.grad gives for the split form of the module with all other nodes held fixed, together with the auxiliary output when requested. State updates made by the function are applied to the module when stateful (including to differentiated and newly created nodes) and are discarded otherwise, and unselected nodes and static attributes are unaffected.",
 ["programs","inputs"],"every differentiable loss (bounded programs) over bounded module graphs with shared submodules, every selection filter, all array values",
 "three tests differentiate a sum",
 [TR,MOD],[("grad wrapper",TR+":GradTransform")],[],["nnx.grad"])
prop("C17","nnx.scan equals running the layers one after the other",
 "Applying a scanned module or method gives the same carry output, stacked outputs and final state as a loop that, for each index in order, slices the axis-mapped variables and the scanned input along their declared axes, reads the broadcast variables, threads the carried variables and the carry through, and stacks the results along the declared output axes; broadcast arguments reach every step. Split random streams give each step its own key and the others give every step the same key, and lengths that disagree are rejected.",
 ["programs","inputs","configurations"],"every length up to the bound, axis assignment, filter assignment to axis/broadcast/carry, in/out axes, rng split set, all array values",
 "tests check output shapes only",
 [TR],[("scan apply",TR+":scan_apply"),("axis map over prefix trees",TR+":tree_map_upto_left")],[],["nnx.scan","nnx.Scan"])
prop("C18","Scanned initialisation stacks independently initialised layers",
 "Initialising through nnx.scan or nnx.Scan gives a module in which each axis-mapped variable is the stack, along its declared axis, of what the layer constructor yields with its own slice of the split random streams, and every other variable equals what the constructor yields for the unsplit streams. The streams named in split_rngs, and only those, differ between layers, constructor arguments reach every layer, and a missing length is rejected.",
 ["programs","inputs","configurations"],"every length up to the bound, axis position, split stream set, constructor arguments and keys",
 "tests check the leading dimension only",
 [TR,"nnx/contextlib.py"],[("scan init",TR+":scan_init")],[],["nnx.scan","nnx.Scan"])
prop("C19","nnx.remat changes neither results, gradients nor state updates",
 "A method or module wrapped with nnx.remat returns the same output, makes the same state updates and has the same gradients with respect to parameters and inputs as the unwrapped one, for all arguments, including when a context is passed, when it is nested in scan and when methods or submodules are reached through its call accessor.",
 ["programs","inputs"],"every method body (bounded programs) over bounded module graphs, all array values",
 "tests check output shapes only",
 [TR],[("remat apply",TR+":remat_apply"),("remat module",TR+":Remat")],[],["nnx.remat","nnx.Remat"])
prop("C20","Sharding metadata follows the axes of the value",
 "Adding a scan axis to a state inserts the axis name at the declared position (padding with None when the names are fewer) in the sharding of exactly the variables that have one, removing it is the exact inverse, and both change nothing else; inside a scanned method variables show their per-layer sharding and outside the stacked one. The partition spec of a tree gives each variable its sharding names, gives unannotated arrays an empty spec, and keeps the tree structure.",
 ["inputs"],"every sharding tuple up to the bound with arbitrary names, every index, every mix of annotated and unannotated nodes",
 "tests check two tuples at index 0",
 ["nnx/spmd.py",TR,"nnx/containers.py"],[("axis insertion","nnx/spmd.py:add_axis"),("axis removal","nnx/spmd.py:remove_axis"),("spec extraction","nnx/spmd.py:get_partition_spec")],[],["nnx.scan metadata_params","nnx.get_partition_spec"])
prop("C21","Logical axis rules assign mesh axes by priority, each at most once",
 "Translating logical dimension names to mesh axes goes through the rules in order and gives each named dimension the mesh axes of the first rule for it whose mesh axes are all still unused, uses no mesh axis for two dimensions, and leaves dimensions without an applicable rule and None dimensions unsharded; duplicate dimension names are rejected, explicit rules override the ambient ones, and the translation maps over trees of specs. Ambient rules set by the context manager are in force exactly inside it and the previous ones are restored on exit, also when it is left by an exception.",
 ["inputs","configurations","histories"],"every list of dimension names and rules up to the bound over arbitrary names, every nesting of rule scopes",
 "one test with two rules",
 ["nnx/spmd.py"],[("priority assignment","nnx/spmd.py:_logical_to_mesh_axes"),("mesh axis reuse test","nnx/spmd.py:_mesh_assignment_free"),("scoped rules","nnx/spmd.py:logical_axis_rules")],[("ambient rules","rules in force","nnx/spmd.py:_axis_rules")],["nnx.logical_to_mesh","nnx.logical_axis_rules","spmd.logical_to_mesh_axes","nnx.with_logical_constraint"])
prop("C22","Linear, Conv and Embed compute their documented functions",
 "Linear computes inputs times kernel plus bias over the last dimension for any number of batch dimensions; Conv computes the strided, dilated, grouped, padded convolution (SAME, VALID, CIRCULAR, CAUSAL, integer and explicit pair padding) over channels-last inputs with any number of batch dimensions, with the mask applied to the kernel; Embed returns the rows of its table for integer inputs and attend the inner products with every row. Omitted biases contribute nothing, a requested dtype is the dtype of the result (an Embed without one uses that of its table), and parameters are created with the documented shapes from separate keys. Options left out have their defaults: stride and dilation 1, one group, padding SAME for Conv, a bias, float32 parameters.",
 ["inputs","configurations"],"all array values in exact arithmetic for bounded shapes, strides, dilations, groups, paddings and batch ranks",
 "tests only use Linear for shape checks; Conv and Embed are untested",
 ["nnx/nn/linear.py","nnx/nn/dtypes.py"],[("linear","nnx/nn/linear.py:Linear.__call__"),("conv","nnx/nn/linear.py:Conv.__call__"),("padding","nnx/nn/linear.py:canonicalize_padding"),("embed","nnx/nn/linear.py:Embed")],[],["nnx.Linear","nnx.Conv","nnx.Embed"])
prop("C23","BatchNorm and LayerNorm compute documented statistics and outputs",
 "In training BatchNorm normalises with the mean and (biased, non-negative) variance of the input over all non-feature axes and moves its running statistics by the momentum rule; in inference it uses the running statistics and leaves them unchanged; LayerNorm normalises each example over its reduction axes. With a mapped axis name the statistics are those of all members of the axis, or of the member's group when groups are given. Both then apply scale and bias along the feature axes when enabled, computing in at least float32 when the input is of half precision, and the mode is taken from the call argument, else the module, else the context flag, an explicit False counting as given. Options left out have their defaults: scale and bias used, epsilon 1e-5 for BatchNorm and 1e-6 for LayerNorm, momentum 0.99, statistics over the last dimension only for LayerNorm.",
 ["inputs","configurations"],"all array values in exact arithmetic for bounded shapes and axes, every combination of mode sources and use_scale/use_bias",
 "tests run them only for shapes",
 ["nnx/nn/normalization.py",MOD],[("statistics","nnx/nn/normalization.py:_compute_stats"),("normalise","nnx/nn/normalization.py:_normalize"),("mode choice",MOD+":first_from")],[],["nnx.BatchNorm","nnx.LayerNorm"])
prop("C24","Dropout masks and rescales exactly as documented",
 "When not deterministic and with rate strictly between 0 and 1, Dropout returns, per element, either zero or the input divided by the keep probability according to one random mask drawn with that keep probability from the configured stream and shared along the broadcast dimensions; when deterministic or at rate 0 it returns the input unchanged without drawing a key, and at rate 1 it returns zeros. The mode is taken from the call argument, else the module, else the context flag, an explicit False counting as given, and a missing context is an error exactly when a mask is needed.",
 ["inputs","configurations"],"all array values and all masks for bounded shapes, every rate class, broadcast dims, mode source combination and stream name",
 "tests run it once inside scan for shapes",
 ["nnx/nn/stochastic.py",MOD],[("dropout","nnx/nn/stochastic.py:Dropout.__call__"),("mode choice",MOD+":first_from")],[],["nnx.Dropout"])
prop("C25","Sow appends every value in order and touches nothing else",
 "Sowing values under a name creates a variable of the requested type holding a one-element tuple and afterwards appends each value, so that after any sequence of sows it holds all values in order; other attributes are unchanged. Sowing onto something that is not such a variable, is of another variable type or does not hold a tuple raises and changes nothing, and popping the collection lets sowing start afresh.",
 ["inputs","histories"],"every sequence of sow and pop operations (bounded), any values including None, false and tuples, any variable type",
 "tests sow two integers",
 [MOD],[("sow",MOD+":Module.sow")],[],["Module.sow","Module.pop_state"])
prop("C26","Sequence and Dict modules behave like lists and dicts of modules",
 "A Sequence built from an iterable has its length, order and items, supports iteration, indexing by integers as a list does (negative ones included, out-of-range ones raise IndexError), and when called threads its callables: tuple outputs become positional arguments, dict outputs keyword arguments, anything else the single argument, with the context passed exactly to those that accept it. A Dict has exactly the given keys and values as a mapping, both for construction, item and attribute access, assignment, membership, iteration and length, and both survive splitting and merging. (Dict keys are valid attribute names that do not name a method or property of modules.)",
 ["inputs","programs"],"every sequence and mapping up to the bound, including empty ones, any values, every pattern of callable signatures and output kinds",
 "tests use them as fixtures only",
 ["nnx/helpers.py"],[("sequence","nnx/helpers.py:Sequence"),("dict","nnx/helpers.py:Dict"),("signature test","nnx/helpers.py:has_keyword_arg")],[],["nnx.Sequence","nnx.Dict"])
prop("C27","TrainState applies gradients exactly as the optimiser prescribes",
 "Applying gradients to a train state returns a new train state whose parameters and optimiser state are those that the optimiser's update and application rules give for its current ones, whose step is one larger, whose explicitly passed fields are replaced (passing one it does not have is an error) and whose other fields are unchanged; the old train state is not modified. Parameters, optimiser state, step and node-valued extra fields are its pytree leaves and everything else is static, and apply runs the module on the given states or on the fields named by strings, in order.",
 ["inputs","histories"],"all parameter and gradient values in bounded states, several optimisers, sequences of steps, any extra fields",
 "tests run one step and check membership of leaves",
 ["nnx/helpers.py","nnx/pytreelib.py"],[("apply gradients","nnx/helpers.py:TrainState.apply_gradients"),("apply by field name","nnx/helpers.py:TrainState.apply")],[],["nnx.TrainState"])
prop("C28","Visiting and initialising reach every module of the graph exactly once",
 "`for_each` calls its function exactly once on every module reachable from the root that is an instance of the given type, for nested, shared and cyclic graphs, including modules the function adds to the module it is called with. During a call through `init` every module of the graph, and of any copy of it that a transform or a split and merge inside the call works on, reports that it is initialising, and afterwards, whether the call returned or raised, none does; the call returns what the method returns.",
 ["inputs","programs"],"every module graph up to the bound and every type selection; returning and raising methods, any accessor chain",
 "one test visits a two-level graph",
 [MOD],[("visit",MOD+":Module._on_all"),("init scope",MOD+":Module.init")],[("initialising flag","set during init",MOD+":ModuleState.is_initializing")],["Module.for_each","Module.init","Module.is_initializing"])
prop("C29","Dataclass field declarations fix the role of each field",
 "In a dataclass Module or Pytree, a field declared as node, variable, param or static field stores what it is given in that container type (with the declared sharding), whatever the value and whether it came from the constructor, a default or a default factory, and a plain field stores it as it is; a value already wrapped in the same way is kept and one wrapped differently is rejected. Hence exactly the declared node fields and plain fields holding node values appear in the state or leaves, and reading any field gives the plain value. The other options of a declaration (default, repr, compare, hash, metadata) mean what they mean for `dataclasses.field`, and a metadata mapping used for several declarations is not changed.",
 ["inputs","configurations"],"every combination of field kinds, value sources and values, with inheritance, for Module and Pytree classes",
 "tests use one class each with integers",
 ["nnx/dataclasses.py",MOD,"nnx/pytreelib.py","nnx/containers.py"],[("field declarations","nnx/dataclasses.py:var_field"),("wrapping after construction",MOD+":ModuleMeta._meta_call"),("wrapping after construction","nnx/pytreelib.py:PytreeMeta.call")],[],["nnx.dataclass","nnx.node_field","nnx.static_field","nnx.param_field","nnx.var_field"])
prop("C30","Every module has its own identity, copies included, and views write through",
 "Modules obtained by construction, merge, clone, copy.copy, copy.deepcopy or loading from a pickle never share an identity, in any order or interleaving of creations across threads, so that two modules are treated as one by splitting, visiting and hashing only if they are the same object; a deep or unpickled copy is usable and independent like any new module and keeps the sharing inside it. The mutable leaf views of a module cover exactly its state paths, read the current value and sharding, and write through to the module.",
 ["histories","schedules","inputs"],"every interleaving of id allocations by bounded threads, every copy operation, every bounded module graph",
 "one test copies two ids",
 ["nnx/ids.py",MOD,"nnx/tracers.py"],[("id allocation","nnx/ids.py:UUIDManager"),("copies get new ids","nnx/ids.py:UUID"),("leaf views",MOD+":MutableLeaf")],[("id counter","last id handed out","nnx/ids.py:UUIDManager")],["copy.copy","copy.deepcopy","pickle","Module.mutable_state_dict","Module.__hash__"])
prop("C31","Printing shows every module and variable once and has no effect",
 "Printing a module, variable, state, definition, split module, Pytree or leaf view always ends, also for shared and cyclic module graphs, and names the class and every public static attribute and submodule of each reachable module (each module in full once), the metadata and value of a variable, and the path of every entry of a state. It changes nothing, gives the same text every time, is not affected by prints that raised before, by prints made while printing, by other threads or by the trace it happens in.",
 ["inputs","schedules","histories"],"every module graph (sharing, cycles, private names), every kind of value, every failing or printing attribute and every interleaving of two printing threads",
 "no test looks at a printed text",
 ["nnx/reprlib.py",MOD,"nnx/containers.py","nnx/state.py","nnx/pytreelib.py"],[("text builder","nnx/reprlib.py:get_repr"),("module text",MOD+":Module.__nnx_repr__"),("definition text",MOD+":ModuleDef.__nnx_repr__"),("container text","nnx/containers.py:Container.__nnx_repr__")],
 [("modules seen in this print","cuts cycles",MOD+":MODULE_REPR_CONTEXT"),("indentation stack","current indent","nnx/reprlib.py:REPR_CONTEXT")],["repr","str"])
prop("C32","Wrapped initializers attach their metadata and change no value",
 "An initializer wrapped by with_metadata or with_logical_partitioning takes the same arguments and yields the value of the wrapped one, and a variable made from it carries exactly the given metadata (sharding, mesh and rules included) besides what the variable is given itself, the initializer's first and, when it was wrapped several times, all the metadata of every wrapping, shared with no other variable and kept by splitting, merging, copying and value assignment; layers built with it compute the same values, stacked by a scan or not. Reading such a variable from its module gives its value, constrained exactly when a mesh is given or global and rules are given or ambient, to the mesh axes the rules assign to its sharding names; a custom read function given as metadata is applied to the stored variable on every read.",
 ["inputs","configurations"],"every variable class, metadata, sharding and rule set up to the bound, with mesh and rules given or ambient; all array values",
 "one test partitions one kernel on one mesh",
 ["nnx/containers.py","nnx/spmd.py",MOD],[("metadata wrapper","nnx/containers.py:with_metadata"),("partitioning wrapper","nnx/spmd.py:with_logical_partitioning"),("reading through the read function",MOD+":Module.__getattribute__")],[],["nnx.with_metadata","nnx.with_logical_partitioning","Module attribute reads"])
prop("C33","A failing call leaves modules, contexts and traces as they were",
 "When a function called through a transform (jit, grad, remat, scan, their module forms, functional apply and call, lowering, and nestings of them) fails, at any point and for any reason (its own exception, a use of an object of the outer trace, an unusable result or argument), the exception reaches the caller, the module it was called on keeps every attribute, value, variable and submodule it had, modules and contexts of the surrounding trace keep theirs, everything created before is still usable and mutable, and the same transformed function, called again, does what it would have done without the failure.",
 ["histories","fault_sequences","inputs"],"every bounded module graph and program, every failing point and reason, every transform and nesting of two",
 "no test lets a transformed function fail and looks at the module afterwards",
 [MOD,"nnx/transforms.py","nnx/tracers.py","nnx/contextlib.py"],[("trace entered and left","nnx/tracers.py:nnx_trace"),("jitted call","nnx/transforms.py:JitTransform.__call__"),("gradient call","nnx/transforms.py:GradTransform.__call__"),("scanned call","nnx/transforms.py:scan_apply"),("checkpointed call","nnx/transforms.py:remat_apply")],
 [("trace stack","current trace","nnx/tracers.py:TRACE_CONTEXT")],["nnx.jit","nnx.grad","nnx.remat","nnx.scan","nnx.Remat","nnx.Scan","Pure.apply","Pure.call"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
  for p in P: f.write(json.dumps(p)+"\n")
