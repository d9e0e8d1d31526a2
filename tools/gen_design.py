"""Writes DESIGN.md from the text below, properties.jsonl, the BOUNDS of the check modules and seeded/*/meta.json."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sx import paths; paths.setup()

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()

G = "the bounded module graph chosen by the solver"
HOW = dict(
C01="A module graph (classes, attribute names, nesting, sharing, cycles, leaves of symbolic kind and content) is built by ordinary assignment from a description; partition, merge, ModuleDef.merge of filtered parts in every order and clone run on it. Oracle: the description, matched against the merged graph by a simultaneous walk that pairs modules one to one (so sharing and cycles must agree), plus a frozen picture of the original. Then one assignment to either graph at any module, and the other must match its picture.",
C02="Same graphs. Oracle: an independent walk over the description that lists the nodes (every node attribute, first path by sorted names) and statics. Compared with keys, order and values of get_state, and with the definition; for a second build with every permutation of the attribute order, state keys and definition must be equal. Registered node types are covered too.",
C03="Filters are chosen from a grammar (types, `...`, None, (), tuples, All, Not, nesting); user predicates are uninterpreted: the solver picks a truth value for every (path, value) they are shown. Oracle: own first-match interpreter. Checked on Module, Pure and State, partition and filter, with merge of the parts.",
C04="Updates name any subset of nodes, through aliases, plus new nodes, from 1-2 states, a split module or another module. Oracle: the description edited by a dozen-line reference; matched like C01, submodule identity by `is`. State.merge, | and - against dict semantics.",
C05="pop_state with 0-4 filters and arbitrary predicates. Oracle: expected paths of get_state, own first-match filter, the description minus the popped nodes; the split-module form must agree with the module form.",
C06="The method called is a program of <= 2 statements chosen by the solver; it is reached by a chain of names and keys from ModuleDef, Pure, Module. Oracle: the same program run directly on an equivalent module; the original objects are compared with frozen pictures; kept accessor objects are reused in every order.",
C07="(A) `current_jax_trace` and the nnx trace stack are replaced by symbolic trace identities: the creation trace and the trace at use are arbitrary, so the validity decision is made for all pairs. (B) real nestings of transforms. Oracle: valid iff the innermost opening transform is the same one; on rejection everything is compared with a frozen picture.",
C08="Digests, fold_in and PRNGKey are uninterpreted injective functions of their inputs; counters and split paths are symbolic integers, formatted integers become tokens that are decided symbolically. z3 is asked whether two different positions can give the same digest input, and whether two draws of a history can. A concrete part runs the same with real keys.",
C09="Contexts with symbolic counters and flags; split, merge, nested splits; filters from a grammar with symbolic include bits. Oracle: streams and flags by name, keys as uninterpreted derivations.",
C10="One assignment (exhaustive over container class, metadata, kind) and programs of assignments that share one variable object. Oracle: a reference store in which every attribute has its own copy of type, metadata, value.",
C11="Flatten / unflatten / tree_map of containers, states, split modules and contexts with symbolic contents; leaves compared with the description; tree structures of two objects that differ in at most one place must be equal exactly when the descriptions agree.",
C12="Pairs of graphs, the second equal or changed in one place (class, name, sharing, static value, new attribute, or moved reference). Oracle: equality of the descriptions (py equality for statics). Hashes of equal definitions equal; real jax.jit retraces counted.",
C13="Pytree classes (plain, mutable, dataclass, subclasses) with fields of every role; flatten, unflatten, assignment, replace. Oracle: the description of fields.",
C14="to_state_dict / from_state_dict of flax on Pytrees; oracle: the fields of the object, restored into another object of the same shape; unknown and missing fields must raise.",
C15="The jitted program (1-2 operations on a bounded graph, chosen by the solver) is traced; inputs (all leaves, arguments, keys) are z3 reals; outputs and the updated module after 2-3 calls must equal those of the same program run without jit, for all values. Retrace decisions follow the real cache.",
C16="Same, against jax.grad of a function that rebuilds the module from the selected leaves with a reference filter.",
C17="nnx.scan / nnx.Scan against a Python loop over per-layer modules: slices of axis-mapped variables, carried and broadcast ones, keys split per stream; equality of stacked results for all values.",
C18="Constructors through scan against layer-by-layer construction and stacking, with key derivations as uninterpreted functions.",
C19="nnx.remat / nnx.Remat against the undecorated method: outputs, updates, gradients, static arguments, policies.",
C20="add_axis / remove_axis / get_partition_spec on states whose sharding names are opaque (used by equality only); oracle: list insertion. Scanned constructors and methods observe the sharding from inside.",
C21="Rules and dimension names are opaque names whose equality pattern the solver decides; oracle: a 12-line reference of the priority rule. Scope programs with exceptions, generators, decorators, threads.",
C22="Layers are traced and evaluated on z3 reals; oracle: sums of products written from the documentation (padding, strides, dilation, groups computed by index arithmetic); sizes bounded.",
C23="Same for BatchNorm / LayerNorm with sqrt and reciprocal uninterpreted; half precision inputs with every result of less than 32 bits an unknown function of the exact one; the sign of the running variance is decided with every rounding an unknown of the right sign.",
C24="Dropout: random bits are uninterpreted functions of the key and shape; oracle: where(mask, x / keep, 0) with the mask of the stream's next key.",
C25="Programs of sow / pop / set / delete; oracle: a list per (path, type).",
C26="Sequence and Dict against list, dict and an own threading interpreter with signatures.",
C27="TrainState steps for 13 optimisers on z3 reals against optax's own update and apply_updates called directly.",
C28="for_each on bounded graphs with visitors that record, assign, raise; init programs; oracle: reachable modules of the description, flags before, inside, after.",
C29="Dataclass fields of every specifier and value source; oracle: a table role -> container.",
C30="Creation programs and two or three threads scheduled at bytecode granularity: the preemption points are solver choices; oracle: object identity. A counter of identities is made symbolic. Deep copies and views against the description.",
C31="Graphs as in C01; repr is the real code; oracle: which attribute names must be printed, computed from the object graph, each once; repeated prints equal; frozen pictures. Failing and nested prints; two threads as in C30.",
C32="Wrapped initializers return opaque values and carry opaque metadata; under a mesh the sharding constraints in the traced program are compared with the reference of C21; layer and scan results against plain initializers for all values.",
C33="Transformed programs that fail at a chosen point for a chosen reason; oracle: the picture of the module and of outer objects before (identity of every value), and for the call after it the same call on a module that never saw the failure, for all values.",
)
def main():
  P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
  out = [HEAD.rstrip(), "", "## Properties", ""]
  seeds = {}
  for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    seeds.setdefault(m['property'], []).append((i, m))
  res = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
  cost = json.load(open(os.path.join(V, "tools", "cost.json"))) if os.path.exists(os.path.join(V, "tools", "cost.json")) else {}
  for p in P:
    m = importlib.import_module("props." + p['id'].lower())
    out += [f"### {p['id']} {p['title']}", "", HOW[p['id']], "",
      f"- bounds (quick): {m.BOUNDS['quick']}.", f"- thorough adds: {m.BOUNDS['thorough']}.",
      f"- outside: {m.OUTSIDE}."]
    if m.ASSUMPTIONS: out.append("- assumes: " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append(f"- beyond the tests: {p['why_tests_cant']}.")
    c = cost.get(p['id'], {})
    if c: out.append("- cost (8 cores): " + ", ".join(f"{k} {v}" for k, v in c.items()) + ".")
    if p['id'] in seeds: out.append("- planted changes: " + ", ".join(f"{i}" + ("" if res.get(i) == 'CAUGHT' else f" ({res.get(i, 'not rechecked').lower()})") for i, _ in seeds[p['id']]) + ".")
    out.append("")
  out += [TAIL.rstrip(), ""]
  out += ["## Planted changes", "", "All listed changes compile, pass the 89 stable tests and have a demonstration. Result of the property's own quick check:", "", "| change | property | result | what it breaks |", "|---|---|---|---|"]
  for pid in sorted(seeds):
    for i, m in seeds[pid]: out.append(f"| {i} | {pid} | {res.get(i, '?').lower()} | {m['what_it_breaks']} |")
  open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
main()
