import json
N = {}
N["C01"] = """Oracle: an isomorphism check of live object graphs (`graphs.iso`) that follows every attribute of both graphs in parallel and demands the same classes, static values, containers (kind, metadata, value bits) and a one-to-one correspondence of module identities; the state's paths are recomputed by a reference walk over sorted attribute names; independence is decided by editing each of original, clone, rebuilt modules and states taken earlier (attribute writes, container writes, static values, aliases) and re-comparing exact snapshots of all the others. `traced` repeats the round trip with tracers inside jax.jit, vmap and eval_shape."""
N["C02"] = """Oracle: `filters.match`, an independent interpretation of filters (types, paths, predicates, ellipsis, bools, any-of, nested All/Any/Not) and a first-match partition in plain Python; merging parts in any order restores the state; `algebra` compares merge, subtraction, iteration order, lookup, and immutability with dictionaries."""
N["C03"] = """Oracle: a reference object graph (plain Python objects with identity) edited in parallel; after each edit the whole live graph, including all aliases and every module not named, must be isomorphic to it, and the return values (popped states) equal."""
N["C04"] = """Oracle: one slot per attribute (kind, metadata, value); incompatible containers must be refused with nothing changed; containers passed in, returned, and contained in states taken earlier are compared after every step (no shared mutable cells)."""
N["C05"] = """Oracle: pytree laws: flatten/unflatten identity, key paths equal those of flattening with paths, structure equality and hash exactly when the construction is equal up to order, tree_map identity, jit/vmap/scan/eval_shape identity with metadata kept, None metadata, no leaf objects shared."""
N["C06"] = """Oracle: the specs' own structural comparison decides same/different; equality, hash, `jax.tree_util` structure equality, and the number of traces of a compiled function must follow it, and the compiled result must be that of the structure passed in."""
N["C07"] = """Oracle: the reference interpreter of the module language; results, returned state, untouched original (exact snapshots), repeated and consecutive calls, and refusals (unknown attributes, non-callables) are compared."""
N["C08"] = """Oracle: reachability in the Python object graph decides which modules are initializing, before, during and after each action; exceptions included. Traversals (`for_each`, `modules`) must visit each distinct module once with its first path."""
N["C09"] = """Oracle: a stack of levels kept by the harness. Each attempted mutation must succeed iff the object's level is the current one; otherwise TraceContextError and an unchanged canonical form. After each transform (also one that raised) every object is probed again. Attempts cover 27 operations, states of modules without variables included."""
N["C10"] = """Oracle: a naming model: every drawn key is named by its stream, seed and path of splits and counts; equal names must be equal keys and distinct names distinct keys; non-interference is checked by re-running the history with everything not relevant to one stream left out; reproducibility by running it in another process with another hash seed."""
N["C11"] = """Oracle: the eager reference interpreter. Contexts with all, some and no streams; state creation, sharing, exceptions, retracing on static arguments; the caller's context must have been split exactly once."""
N["C12"] = """Oracle: jax.grad of the reference program over a dictionary of the selected entries; identity of the set of entries, kinds and metadata; state after the call equal to that after a direct call, without tracers."""
N["C13"] = """Oracle: an unrolled loop of the reference interpreter over sliced axis variables, threaded carry variables and shared broadcast variables, reassembled with jnp.stack."""
N["C14"] = """Oracle: each layer constructed alone with the i-th split of the selected streams, stacked with numpy; sharding names follow the inserted axis; `names` checks add_axis and remove_axis on states as inverses of each other against list insertion."""
N["C15"] = """Oracle: the reference interpreter for values and state, jax.grad for gradients, and the residuals of jax.checkpoint (by `saved_residuals` of the equivalent pure function) for what the policy saves."""
N["C16"] = """Oracle: a dictionary of fields per object."""
N["C17"] = """Oracle: a role table (specifier -> container kind, metadata, leaf or static, refusals)."""
N["C18"] = """Oracle: a dictionary model of the state dict and its merge; refusals for a removed or an added name at any depth (added names include those of static fields, methods and internals)."""
N["C19"] = """Oracle: the optax transformation applied by hand to values (bit-exact outside jit, tolerance inside)."""
N["C20"] = """Oracle: dict, list and a Python loop recording every call with its exact arguments."""
N["C21"] = """Oracle: a greedy assignment written independently, and a stack of scopes."""
N["C22"] = """Oracle: the set of (device, index) pairs that NamedSharding of the reference specification prescribes; bit equality of values."""
N["C23"] = """Oracle: float64 sums with a forward error bound per dtype; keys and calls recorded by instrumented initializers."""
N["C24"] = """Oracle: explicit loops over window positions in float64."""
N["C25"] = """Oracle: a float64 model with the error bound of E[x^2]-E[x]^2 in float32."""
N["C26"] = """Oracle: elementwise (zero or scaled), equality along broadcast dimensions, statistics within 8 sigma (chance of a false alarm per test below 1e-14)."""
N["C27"] = """Oracle: float64 formulas, central differences, distribution moments and bounds within 8 sigma."""
N["C28"] = """Oracle: the text is parsed along the object graph; every public static attribute and submodule must be present, a module already shown is elided, and texts are stable through the history."""
N["C29"] = """Oracle: the C09, C21 and C28 models per thread. The schedule is owned by the harness: threads run one at a time and hand over after a generated number of operations, lines or bytecodes inside the library (sys.settrace), so races of two instructions are reproducible and shrinkable."""
json.dump(N, open("/verif/tools/design_notes.json", "w"), indent=1)
