"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
      mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Splitting a module graph and merging it back loses nothing",
  "Splitting any module graph into state and definition and merging the parts back yields an isomorphic graph: the same classes, the same static attributes, the same variables (kind, metadata, value), and the same sharing and reference cycles, whichever exhaustive filters made the split and in whichever order the parts are merged. The state holds every distinct node exactly once, under its '/'-joined attribute path (the first one in attribute-name order when a module is reachable several ways). Splitting changes nothing in the original, and the original, its clones, every rebuilt module and the states taken from them are independent: changing a variable or attribute of one never shows in another.",
  ["inputs", "histories"],
  "all module graphs (any nesting, sharing, cycles, mixture of variables, plain arrays, nodes, pytree objects and static values, plain / dataclass / Dict / Sequence modules) x all exhaustive filter lists x all merge orders",
  "The tests round-trip about five fixed small graphs, with one shared submodule and one self-loop; sharing across depths, longer cycles, aliases under several names and split/merge orders are an unbounded space they never enter.",
  ["nnx/module.py", "nnx/state.py", "nnx/ids.py"],
  [("graph walk that numbers modules and stores back references", "nnx/module.py:_make_module_def_recursive"), ("deduplicating state walk", "nnx/module.py:_iter_state_recursive"), ("rebuild with placeholder registration", "nnx/module.py:_build_module_recursive"), ("write-back by path", "nnx/module.py:_update_module")],
  [("module id", "identity used to detect sharing", "nnx/module.py:ModuleState"), ("index", "back reference number in a definition", "nnx/module.py:ModuleDef")],
  ["Module.partition", "Module.get_state", "Module.get_module_def", "Module.clone", "ModuleDef.merge", "Pure.merge"])

p("C02", "Filters cut a state into exact, ordered parts",
  "Partitioning a state (or a split module) by filters puts every entry into the part of the first filter it matches, losing, duplicating and altering nothing, and is refused with an error when an entry matches no filter or when `...` is not the last filter; filtering gives the same parts but silently drops what no filter matches. A filter means what the documentation says: a type matches instances, `...` everything, None nothing, a predicate is asked with the path and the value, a tuple is 'any of', and All, Not and buffers are conjunction, negation and array nodes, nested arbitrarily; anything else is refused as a filter with an error. Partitioning a module or a split module by no filters at all gives everything as one part. Merging states is key-wise with later states winning, so merging the parts returns the whole; subtracting a state removes exactly its keys; and a state is ordered by path however it was built.",
  ["inputs"],
  "all states x all filter lists built from types, predicates, ellipsis, None, nested tuples, All, Not",
  "Tests check part sizes for a handful of filters on one fixed state; precedence between overlapping filters, nesting and the error cases over arbitrary filter lists are never explored.",
  ["nnx/state.py", "nnx/partitioning.py", "nnx/module.py"],
  [("first-match split", "nnx/state.py:_split_state"), ("filter to predicate", "nnx/partitioning.py:to_predicate"), ("key-wise merge", "nnx/state.py:State.merge")],
  [], ["State.partition", "State.filter", "State.merge", "State.__or__", "State.__sub__", "Module.partition", "Module.filter", "Pure.partition", "Pure.filter", "Pure.pop_state"])

p("C03", "Editing a live module's state touches exactly what is named",
  "Updating a module from a state, several states, another module or a split module sets exactly the addressed nodes (later states winning, new node attributes being created) and leaves every other attribute, every variable's kind and metadata, and all sharing intact; updating a module with its own state changes nothing. Popping state by filters returns exactly what filtering with them would return and removes exactly those attributes from the module, whatever the sharing or cycles, so the rest plus what was popped is the original. Mutable leaves read and write (and report the sharding of) exactly the attribute at their path.",
  ["inputs", "histories"],
  "all module graphs x all sequences of attribute writes, updates from partial states, pops, mutable-leaf writes and split/merge steps",
  "Tests apply one update to one three-leaf module and one single pop; sequences of edits interleaved with sharing and cycles are histories no sample covers.",
  ["nnx/module.py"],
  [("merge of current state and updates, written by path", "nnx/module.py:_update_module"), ("recursive pop with visited set", "nnx/module.py:_pop_recursive"), ("path accessor object", "nnx/module.py:MutableLeaf")],
  [], ["Module.update_state", "Module.pop_state", "Module.mutable_state_dict", "Pure.update_state"])

p("C04", "A variable attribute keeps its kind and metadata for life",
  "Reading an attribute that holds a container gives its value (through its unbox function when it has one), and assigning a plain value to it changes only the value: kind and metadata stay. Assigning or wrapping with another container works only if kind and metadata agree and is otherwise refused with an error that leaves the old contents in place; the module stores its own copy, so later changes through one attribute never reach another one, the container object that was passed in, or a state taken before. Recording intermediate values (sow) appends to a tuple in call order in a variable of the requested kind, and is refused without effect when the existing attribute is something else.",
  ["inputs", "histories"],
  "all sequences of assignments, reads, re-wrappings, metadata replacements and sows over all container kinds, metadata and values",
  "Tests check a few single assignments of mismatched kinds; metadata preservation and aliasing over sequences of assignments, and state after a refused assignment, are unchecked.",
  ["nnx/containers.py", "nnx/module.py", "nnx/pytreelib.py"],
  [("attribute write through container", "nnx/module.py:Module._setattr"), ("attribute read unboxing", "nnx/module.py:Module.__getattribute__"), ("compatibility check", "nnx/containers.py:Container.is_equivalent"), ("validated replacement", "nnx/containers.py:Container.replace"), ("append", "nnx/module.py:Module.sow")],
  [], ["Module attribute access", "Container constructor", "Container.replace", "Container.copy", "Module.sow", "with_metadata"])

p("C05", "NNX data objects are lawful JAX pytrees",
  "Variables and nodes, State, definitions, split modules, split contexts, static containers and NNX pytree objects flatten to exactly their node values and unflatten to an equal object of the same type with the same kind, metadata, keys and static content; flattening with key paths lists the same leaves in the same order. Mapping a function over them changes only leaf values and never the input, and passing them through jax.jit, vmap or scan preserves everything else. Leaf order depends only on the contents, never on construction order; static values contribute no leaves.",
  ["inputs"],
  "all values of these types: any contents, nesting, metadata, construction orders",
  "Tests look at the leaves of a few constants; the laws quantify over arbitrary nestings and orders.",
  ["nnx/containers.py", "nnx/state.py", "nnx/module.py", "nnx/pytreelib.py", "nnx/contextlib.py"],
  [("container flatten/unflatten", "nnx/containers.py:NodeBase.__init_subclass__"), ("state flatten", "nnx/state.py:_state_flatten_with_keys"), ("definition flatten", "nnx/module.py:_moddef_flatten"), ("pytree object flatten", "nnx/pytreelib.py:Pytree._pytree__flatten"), ("static", "nnx/containers.py:_static_flatten")],
  [], ["jax.tree_util.tree_flatten/unflatten/tree_map/tree_flatten_with_path", "jax.jit"])

p("C06", "Compiled code is reused exactly when the structure is the same",
  "Two modules with the same classes, static attributes, node kinds and metadata, sharing pattern and initialization mode have equal definitions (with equal hashes) and equal tree structure, in whatever order their attributes were set, so a jitted function is traced once for both. Modules differing in any of these have different structure, so a compiled function is never reused with stale static information.",
  ["inputs", "histories"],
  "all pairs of module graphs, equal up to construction order or differing in one static value, class, kind, metadata entry, attribute or alias; all call sequences over them",
  "One test counts traces for a single added attribute; staleness needs pairs that differ in just one obscure respect.",
  ["nnx/module.py", "nnx/containers.py", "nnx/state.py"],
  [("definition equality and hash", "nnx/module.py:ModuleDef.__eq__"), ("sorted walks", "nnx/module.py:_make_module_def_recursive"), ("metadata in tree structure", "nnx/containers.py:NodeBase")],
  [], ["ModuleDef.__eq__", "ModuleDef.__hash__", "jax.tree_util.tree_structure", "number of traces of jax.jit / nnx.jit"])

p("C07", "The functional API is pure and agrees with calling the module",
  "Calling any method, submodule or nested element through apply (of a definition, a split module or a module) or through call gives the same output as calling it directly on the live module, and the returned state (or module) is exactly the state the live module would have ended with. Any chain of attribute and item accesses reaches the object it names. The original module and the input states are never modified.",
  ["inputs", "histories", "programs"],
  "all module graphs, access chains (attributes and indices, any depth), methods with side effects on any variable, and argument values",
  "Tests apply __call__ of one flat module and check only the output type.",
  ["nnx/module.py"],
  [("delayed accessor", "nnx/module.py:DelayedAccessor"), ("proxy", "nnx/module.py:CallableProxy"), ("apply", "nnx/module.py:ModuleDef.apply")],
  [], ["ModuleDef.apply", "Pure.apply", "Pure.call", "Module.apply", "TrainState.apply"])

p("C08", "Initialization mode and graph traversal reach every module exactly once",
  "While a method is called through init, every module reachable from the root (including through sharing and cycles) reports that it is initializing, and none does afterwards, even when the method raises; the call's result and errors are passed through. The mode survives split, merge and clone. Visiting a graph with for_each calls the function exactly once for every reachable module of the requested type and never loops.",
  ["inputs", "histories"],
  "all module graphs, root choices, access chains and raising or non-raising methods",
  "One test visits a two-module graph with for_each; init mode, cycles and exceptions are untested.",
  ["nnx/module.py"],
  [("init proxy with finally", "nnx/module.py:Module.init"), ("visited set", "nnx/module.py:Module._on_all"), ("mode stored in definition", "nnx/module.py:ModuleState.to_tuple")],
  [], ["Module.init", "Module.is_initializing", "Module.for_each"])

p("C09", "Modules and contexts cannot be changed or used across trace levels",
  "A module can be mutated (attribute write or delete, state update, pop, sow), and a random-number context drawn from or split, only at the trace level where it was created (for a copy of a context: where the original was): at any other level, inside or outside, for any nesting of jit, scan, remat, of gradients and maps over them and of their NNX versions (plain jax.grad and jax.vmap run at the level of their caller), the attempt raises the trace-context error and changes nothing (neither do updates and pops that would reach such a module through one that contains it), while at its own level it is always allowed. Once a transform ends, normally or by an exception, the enclosing level is exactly what it was before.",
  ["programs", "histories", "fault_sequences"],
  "all nestings of transforms (with or without exceptions), creation levels, use levels and mutation kinds",
  "Tests try five hand-picked one-level cases; the guarantee is about every nesting, and about recovery after exceptions.",
  ["nnx/tracers.py", "nnx/module.py", "nnx/contextlib.py", "nnx/transforms.py"],
  [("trace state capture and comparison", "nnx/tracers.py:TraceState"), ("trace stack", "nnx/tracers.py:nnx_trace"), ("guard on write", "nnx/module.py:Module._setattr"), ("guard on key use", "nnx/contextlib.py:Context.make_rng")],
  [("nnx trace stack", "innermost NNX transform per thread", "nnx/tracers.py:TRACE_CONTEXT")],
  ["Module.__setattr__", "Module.update_state", "Module.sow", "Context.make_rng", "Context.partition"])

p("C10", "RNG streams never repeat, never interfere, and are reproducible",
  "For every history of draws and splits of a context, of its copies (which share its streams) and of contexts merged from it, keys drawn from one stream are all different from each other and from the keys of every other context split from it, drawing or splitting never changes what another stream or an already split context yields later, and the whole history is reproducible from the seeds: in another process, inside or outside jit, and merging the same split twice gives the same keys. Seeds given as integers, keys or streams mean the same; flags survive splitting; unknown streams are refused.",
  ["histories", "inputs"],
  "all sequences of make_rng, partition, merge and copy over any number of streams and any depth of forks",
  "Tests compare two or three keys; collisions appear only for particular count paths (e.g. 1,12 versus 11,2) and interference only for particular interleavings.",
  ["nnx/contextlib.py"],
  [("count path folded into key", "nnx/contextlib.py:Context.make_rng"), ("stable hash", "nnx/contextlib.py:_stable_hash"), ("fork on split", "nnx/contextlib.py:Context.partition"), ("merge", "nnx/contextlib.py:ContextDef.merge")],
  [("count, count_path", "position in the fork tree", "nnx/contextlib.py:RngStream")],
  ["Context.make_rng", "Context.partition", "ContextDef.merge", "context()"])

p("C11", "nnx.jit equals calling the function eagerly, state included",
  "For every function of a module, calling it under nnx.jit gives the same output and leaves the module's variables and node attributes (updated, nested, shared or newly created) in the same state as calling it eagerly, on the first and on every later call with other values; with stateful=False the module is left untouched. Extra arguments, static arguments and a context keyword argument (which is split first) behave the same, when the function raises, the module is unchanged, and the options of jax.jit (placement, donated and unused arguments, inlining) mean what they mean there for the call with the split module.",
  ["programs", "inputs", "histories"],
  "all generated module programs (reads, writes, new variables, sow, submodule calls, rng draws), arguments and call sequences",
  "Two tests jit an assignment of a constant.",
  ["nnx/transforms.py", "nnx/module.py"],
  [("split, jit, merge, update", "nnx/transforms.py:JitTransform")],
  [], ["nnx.jit"])

p("C12", "nnx.grad returns exact gradients for the selected state only",
  "nnx.grad returns a state with exactly the entries matching the wrt filter (default: parameters), of the same kind and metadata, whose values are the mathematical gradient of the function's output with respect to those entries, counting every use of a shared module; all other state is treated as constant. State changes made by the function end up in the module exactly as if it had been called directly (never as tracers), unless stateful=False, and auxiliary output is returned as computed.",
  ["programs", "inputs"],
  "all differentiable module programs, wrt filters, has_aux / stateful combinations, nesting under nnx.jit",
  "Tests differentiate a sum of scalars.",
  ["nnx/transforms.py", "nnx/module.py"],
  [("split by predicate, differentiate, merge", "nnx/transforms.py:GradTransform")],
  [], ["nnx.grad"])

p("C13", "nnx.scan over layers equals the unrolled Python loop",
  "Applying a module through Scan or the scan decorator gives the same outputs and the same final state as the Python loop that slices each axis variable along its axis, passes the carry and the carried variables from step to step, shares broadcast variables, gives every step its own split (or the common unsplit) random streams, and stacks outputs and axis variables along their axes: for every length, axis choice, in/out axes, reverse, unroll and argument structure. Variables created during the loop are kept, and inconsistent or missing lengths are refused.",
  ["programs", "inputs", "configurations"],
  "all block programs x scan configurations (variable axes, broadcast, carry, split rngs, in/out axes, reverse, unroll, length) x argument pytrees",
  "Tests check only output shapes for length 5 with axis 0.",
  ["nnx/transforms.py"],
  [("state split, transpose, lax.scan, write back", "nnx/transforms.py:scan_apply")],
  [], ["nnx.Scan", "nnx.scan"])

p("C14", "Scan construction stacks independently initialized layers",
  "Constructing a module through Scan or a scan-decorated __init__ gives every axis variable an extra dimension of the requested length at the requested axis, whose slice i is what a single layer initialized with the i-th split of the selected random streams (and the unsplit others) would hold, while non-axis state and static attributes are those of a single layer. With a partition name, every variable that has a sharding gets that name at the stacked axis position outside the loop and never sees it inside, before and after any number of applications.",
  ["inputs", "configurations"],
  "all block constructors, lengths, axes, stream selections, shardings and numbers of later applications",
  "Tests check shapes and one sharding tuple with axis 0.",
  ["nnx/transforms.py", "nnx/spmd.py"],
  [("vmapped construction", "nnx/transforms.py:scan_init"), ("sharding axis bookkeeping", "nnx/spmd.py:add_axis"), ("inverse", "nnx/spmd.py:remove_axis")],
  [], ["nnx.Scan(...)(...)", "nnx.scan on __init__", "spmd.add_axis", "spmd.remove_axis"])

p("C15", "Remat is transparent",
  "Applying a module through Remat or the remat decorator gives the same outputs, final state, random draws and gradients as applying it directly, alone or inside nnx.jit, nnx.grad and nnx.scan, for any arguments (including static ones), policy and access chain; a context argument is split first, as under nnx.jit. For the backward pass it saves what jax.checkpoint of the same computation saves under the same policy. A module built through Remat or a remat-decorated initializer is the one built without it.",
  ["programs", "inputs", "configurations"],
  "all module programs, arguments, static argument positions, policies and enclosing transforms",
  "Tests check output shapes only.",
  ["nnx/transforms.py"],
  [("checkpointed pure function", "nnx/transforms.py:remat_apply")],
  [], ["nnx.Remat", "nnx.remat"])

p("C16", "Pytree objects are immutable values with exact replace",
  "After construction an NNX pytree object cannot gain attributes, and unless declared mutable its attributes cannot be changed: every attempt raises and changes nothing. replace returns a new object of the same class in which exactly the named fields differ, container kinds and metadata being kept, leaves the original untouched, and refuses unknown names. A container that is passed in is copied (frozen dataclasses store what they are given), so later changes by its owner do not show. Node fields are leaves and all others static under every JAX transformation, in a field order independent of assignment order, including for subclasses and nested objects.",
  ["histories", "inputs"],
  "all class layouts (plain, dataclass, mutable, inherited), field kinds, nestings and operation sequences",
  "Tests exercise two-field classes with one replace each.",
  ["nnx/pytreelib.py"],
  [("guarded setattr", "nnx/pytreelib.py:Pytree._setattr"), ("replace", "nnx/pytreelib.py:Pytree.replace"), ("sorted fields", "nnx/pytreelib.py:PytreeMeta.call")],
  [], ["nnx.Pytree"])

p("C17", "Dataclass field specifiers give each field its declared role",
  "In NNX dataclasses, for modules and for pytree objects, with any mix of defaults, default factories, inheritance and passed-in containers, a node, parameter or variable field holds a container of exactly the declared kind and sharding, a static field is never a leaf, an unspecified field is a node only if a node value was passed, and passing a container of another kind is refused. Reading every field gives the value passed or its default. The options of nnx.dataclass (init, repr, eq, order, unsafe_hash, frozen) mean what they mean for dataclasses.dataclass.",
  ["inputs", "configurations"],
  "all dataclass layouts over field specifiers, defaults, factories, inheritance and argument values",
  "One test builds a six-field module.",
  ["nnx/dataclasses.py", "nnx/module.py", "nnx/pytreelib.py"],
  [("container function in field metadata", "nnx/dataclasses.py"), ("applied after __init__", "nnx/module.py:ModuleMeta._meta_call")],
  [], ["nnx.dataclass", "nnx.field", "nnx.node_field", "nnx.static_field", "nnx.var_field", "nnx.param_field"])

p("C18", "Flax serialization of pytree objects round-trips",
  "For every NNX pytree object (nested objects included, directly or inside node fields), converting to a Flax state dict and restoring it into an object of the same layout gives back all node values with container kinds, metadata, classes and static fields unchanged; the state dict holds exactly the node fields. A dict with a missing or an unknown field at any depth is refused, and neither the target nor the dict is modified.",
  ["inputs"],
  "all object layouts and nestings, values and dict perturbations",
  "One test with one nesting not inside a node field.",
  ["nnx/pytreelib.py"],
  [("to state dict", "nnx/pytreelib.py:Pytree._to_flax_state_dict"), ("from state dict", "nnx/pytreelib.py:Pytree._from_flax_state_dict")],
  [], ["flax.serialization.to_state_dict / from_state_dict / to_bytes / from_bytes"])

p("C19", "TrainState steps follow the optimizer exactly",
  "Applying gradients to a train state gives a new one whose parameters and optimizer state are exactly those of the optax transformation applied by hand, whose step is one higher, whose extra fields are replaced as requested and otherwise unchanged, with variable kinds and metadata kept, in or out of jit and over any number of steps; the old train state is untouched. Applying the model through it by state or by field name equals applying the definition to those states.",
  ["histories", "inputs"],
  "all parameter states, optimizers, gradient sequences and extra fields",
  "A test applies one fake gradient and checks nothing about the result.",
  ["nnx/helpers.py"],
  [("apply_gradients", "nnx/helpers.py:TrainState.apply_gradients"), ("apply by name", "nnx/helpers.py:TrainState.apply")],
  [], ["nnx.TrainState"])

p("C20", "Sequence and Dict modules behave like their Python counterparts",
  "A Dict module is a mapping over exactly the items put into it: length, iteration, lookup, membership, get, item and attribute access and assignment agree, before and after any split, merge or update, and missing keys raise. A Sequence has the length, order and items of the iterable it was built from (empty included), out-of-range indices raise, and calling it composes its elements in order, spreading tuple outputs as positional and dict outputs as keyword arguments, and passing the context to exactly the elements that accept it.",
  ["inputs", "histories"],
  "all item sets and operation sequences; all element lists and signatures",
  "Tests use them only as fixtures.",
  ["nnx/helpers.py"],
  [("Dict mapping methods", "nnx/helpers.py:Dict"), ("Sequence call", "nnx/helpers.py:Sequence.__call__")],
  [], ["nnx.Dict", "nnx.Sequence"])

p("C21", "Logical axis names map to mesh axes by the rules in priority order",
  "For every array annotation and rule list the mesh specification assigns to each named dimension the mesh axes of the first rule for it whose axes are not already taken, leaves all others unsharded, never uses a mesh axis twice, and refuses repeated dimension names; specifications extracted from a state or any tree are those of the variables' shardings and mapping them keeps the tree's structure. Rules set in a scope apply exactly inside it, nested scopes restore the enclosing rules, also on exceptions, and explicit rules override them.",
  ["inputs", "histories"],
  "all name tuples, rule lists (including None and tuple axes), trees and nestings of rule scopes",
  "One test with two disjoint rules.",
  ["nnx/spmd.py"],
  [("priority assignment", "nnx/spmd.py:_logical_to_mesh_axes"), ("scoped rules", "nnx/spmd.py:logical_axis_rules"), ("spec extraction", "nnx/spmd.py:get_partition_spec")],
  [("axis rules", "current rules per thread", "nnx/spmd.py:_axis_rules")],
  ["logical_to_mesh_axes", "logical_to_mesh", "logical_to_mesh_sharding", "get_partition_spec", "logical_axis_rules"])

p("C22", "Logical sharding places data without changing values",
  "Constraining an array or tree by logical names, and creating or reading variables with logical partitioning, never changes any value; with rules and a mesh (global or explicit) the result is sharded over the devices exactly as the rules say for its names, and without rules or without a mesh it is returned as is. When no rule applies to a name, the chosen fallback does: unsharded, an error, or no constraint.",
  ["inputs", "configurations"],
  "all shapes, names, rule lists, meshes (global, explicit, none), fallbacks, in and out of jit, on a multi-device host platform",
  "The only test of this is skipped on CPU.",
  ["nnx/spmd.py", "nnx/module.py", "nnx/containers.py"],
  [("constraint with fallback", "nnx/spmd.py:_with_sharding_constraint_one_fallback"), ("unbox on read", "nnx/spmd.py:with_logical_partitioning")],
  [], ["with_logical_constraint", "with_logical_partitioning"])

p("C23", "Linear and Embed compute their defining formulas",
  "For all sizes, batch shapes, values and dtypes, Linear returns inputs times kernel plus bias over the last dimension, Embed returns the table rows selected by integer inputs (refusing non-integers), and attend returns inner products with every row. Parameters have the documented shapes, parameter dtype and initializer values, are reproducible from the context's seed and different between parameters and layers; the result dtype is the requested one, or the promoted one of inputs and parameters for Linear and the table's for Embed, and layers without bias keep an empty parameter.",
  ["inputs", "configurations"],
  "all feature sizes, batch ranks, dtypes, bias options and initializers",
  "Tests check output shapes of two sizes.",
  ["nnx/nn/linear.py", "nnx/nn/dtypes.py"],
  [("Linear.__call__", "nnx/nn/linear.py:Linear"), ("Embed", "nnx/nn/linear.py:Embed"), ("dtype promotion", "nnx/nn/dtypes.py:promote_dtype")],
  [], ["nnx.Linear", "nnx.Embed"])

p("C24", "Conv computes the convolution its options describe",
  "For every kernel size (1 to 3 spatial dimensions), stride, input and kernel dilation, padding (SAME, VALID, CIRCULAR, CAUSAL, integers, pairs), feature grouping, mask, bias and number of batch dimensions (none, one or many), Conv equals the direct sum over window positions that defines it, batch dimensions being independent. Invalid kernel sizes or paddings are refused.",
  ["inputs", "configurations"],
  "all option combinations, shapes and values",
  "Conv has no test at all.",
  ["nnx/nn/linear.py"],
  [("padding canonicalization", "nnx/nn/linear.py:canonicalize_padding"), ("Conv.__call__", "nnx/nn/linear.py:Conv")],
  [], ["nnx.Conv"])

p("C25", "BatchNorm and LayerNorm compute and track the right statistics",
  "In training mode BatchNorm normalizes with the mean and variance of the current batch over all but the feature axis, applies scale and bias, and moves the running statistics by the momentum; in evaluation mode it uses the running statistics and changes nothing; the mode is taken from the call, then the layer, then the context flag, and is required. LayerNorm normalizes each example over its reduction axes. With an axis name, statistics over shards equal those of the whole batch, and the running statistics and outputs never become NaN or wrong-typed for finite inputs whose squares are representable.",
  ["inputs", "histories", "configurations"],
  "all shapes, axes, momenta, epsilons, dtypes, scale/bias options, mode sources and sequences of training and evaluation calls",
  "Tests check output shapes only.",
  ["nnx/nn/normalization.py"],
  [("statistics", "nnx/nn/normalization.py:_compute_stats"), ("normalization", "nnx/nn/normalization.py:_normalize"), ("running average", "nnx/nn/normalization.py:BatchNorm.__call__")],
  [], ["nnx.BatchNorm", "nnx.LayerNorm"])

p("C26", "Dropout masks, scales and switches off exactly as specified",
  "Every output element of an active Dropout is either zero or the input divided by the keep probability, elements along broadcast dimensions share their fate, different draws and different streams give different masks at the requested rate, and the same context state gives the same mask. It is the identity when deterministic or when the rate is 0, and zero when the rate is 1; the switch is taken from the call, then the layer, then the context flag, and is required, as is a context when a mask is needed.",
  ["inputs", "configurations"],
  "all rates, shapes, broadcast dims, seeds, streams and switch sources",
  "Tests run it once inside a scan.",
  ["nnx/nn/stochastic.py", "nnx/contextlib.py"],
  [("mask", "nnx/nn/stochastic.py:Dropout.__call__"), ("precedence", "nnx/module.py:first_from")],
  [], ["nnx.Dropout"])

p("C27", "Exported activations and initializers match their definitions",
  "Every activation function exported by the library equals its mathematical definition, within floating-point accuracy, for all finite inputs, shapes and options, and is differentiable where defined; every exported initializer gives an array of the requested shape and dtype, determined by the key, with the distribution parameters (bounds, variance, orthogonality, constants) it is named for.",
  ["inputs"],
  "all finite inputs and shapes; all shapes, dtypes and keys",
  "No test calls them with known values.",
  ["nnx/nn/activations.py", "nnx/nn/initializers.py", "nnx/__init__.py"],
  [("re-exports", "nnx/__init__.py"), ("zeros, ones", "nnx/nn/initializers.py")],
  [], ["nnx.relu, nnx.gelu, ...", "nnx.initializers.*"])

p("C28", "Printing any object terminates, changes nothing and shows its structure",
  "repr of any module, state, definition, variable, pytree object or context-free value built from them terminates without error (also with cycles and sharing), changes nothing, gives the same text each time and for equal states and definitions, shows every public static attribute and every submodule of a module, spelling out each distinct module once, and every path of a state, and leaves later printing unaffected even when a contained object's own repr fails. (Classes that bring their own repr, as dataclasses do, decide their own text.)",
  ["inputs", "histories", "fault_sequences"],
  "all object graphs, nesting depths, sequences of prints with failing parts",
  "No test prints anything.",
  ["nnx/reprlib.py", "nnx/module.py", "nnx/state.py", "nnx/containers.py"],
  [("indent stack", "nnx/reprlib.py:add_indent"), ("seen set", "nnx/module.py:Module.__nnx_repr__")],
  [("seen modules", "modules already printed", "nnx/module.py:Module.__nnx_repr__")],
  ["repr"])

p("C29", "Threads do not see each other's trace levels, rules or identities",
  "With any interleaving of threads, each thread's axis rules, trace levels and printing depend only on what that thread did: a rule scope or transform entered in one thread is never visible in, or ended by, another. Module identities are unique across threads, so modules built concurrently are never mistaken for shared ones.",
  ["schedules"],
  "all interleavings of rule scopes, transforms, module creation, mutation and printing in several threads",
  "No test uses threads.",
  ["nnx/tracers.py", "nnx/spmd.py", "nnx/reprlib.py", "nnx/ids.py"],
  [("thread-local stacks", "nnx/tracers.py:TraceContext"), ("thread-local rules", "nnx/spmd.py:_AxisRules"), ("locked counter", "nnx/ids.py:UUIDManager")],
  [], ["logical_axis_rules", "Module.__setattr__", "repr", "Module.partition"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
  for x in P:
    f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
