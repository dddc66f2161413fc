"""Writes known_findings.txt: the repaired defects (from the 'fix:' commits of /repo) and the open ones."""
import json
import os
import subprocess

# subject of the fix commit -> (property, what failed)
FIXED = {
    "fix: attributes named accessor could not be reached through apply, call and init": ("C07", "module.apply.accessor(x) called the module itself and not its attribute 'accessor'"),
    "fix: MutableLeaf.sharding read a metadata attribute that containers do not have": ("C03", "MutableLeaf.sharding of a container leaf raised AttributeError"),
    "fix: pop_state recursed without end on modules with reference cycles": ("C03", "pop_state on a module with a reference cycle: RecursionError"),
    "fix: pop_state reported shared modules under other paths than filter and get_state": ("C03", "pop_state of a shared module used the first path in attribute-set order, filter and get_state the first in name order"),
    "fix: Pure.update_state discarded every update of an existing entry": ("C03", "Pure.update_state(states) kept the old value of every entry that already existed"),
    "fix: a split Context could not be passed through jax.jit": ("C05", "jax.jit(lambda c: c)(ctx.partition()): TypeError, ContextDef is not a JAX type"),
    "fix: the Context given to an nnx.jit function could not be used inside it": ("C11", "make_rng inside nnx.jit(f)(module, ctx=ctx): trace level error"),
    "fix: pytree objects with bare array fields failed under jax.vmap and after mapping to other leaves": ("C05", "jax.vmap over an nnx.Pytree with a bare array field: AssertionError; unflattening with leaves that are not arrays turned the field static"),
    "fix: module definitions ignored the initialization mode when compared": ("C06", "definitions of modules differing only in a submodule's initialization mode compared equal, so compiled code of one was run for the other"),
    "fix: access chains of apply, call and init forgot all but the last access": ("C07", "pure.apply.sub.method(x) looked the method up on the root module"),
    "fix: init left detached modules initializing and ended the mode of an enclosing init": ("C08", "a module detached inside an init call stayed initializing; a nested init ended the mode of the outer one"),
    "fix: attributes could be deleted and state popped from another trace level": ("C09", "del module.attr and pop_state inside jax.jit on a module of the outer level were accepted"),
    "fix: broadcast variables created inside a scan were lost": ("C13", "a variable matching variable_broadcast created in the loop body did not appear on the module after the scan"),
    "fix: broadcast variables created in a scan were missing in its later steps": ("C13", "a scan whose first step creates a broadcast variable: the later steps did not find it and each created its own"),
    "fix: reversed scans that create state ran the first layer first": ("C13", "reverse=True with new carry state: the first layer ran first, then the others in reverse"),
    "fix: Scan without stacked variables and length could not be constructed with a context": ("C14", "nnx.Scan(Block)(..., ctx=ctx) without variable_axes and length: ValueError of jax.vmap"),
    "fix: scan-decorated __init__ could not name the stacked axis": ("C14", "nnx.scan(__init__, metadata_params={PARTITION_NAME: ...}): the new sharding clashed with that of the layer"),
    "fix: partition names of negative scan axes were put one position off": ("C14", "spmd.add_axis(state, -1, params) named the last but one dimension; remove_axis then failed"),
    "fix: attributes of initialized pytree objects could be deleted": ("C16", "del pytree.x was accepted and broke the object"),
    "fix: replacing fields of a dataclass pytree object lost containers and their metadata": ("C16", "replace of a dataclass pytree object: a container passed for a plain field became a bare value; metadata of values was lost"),
    "fix: dataclass fields that are not in __init__ broke the construction": ("C17", "nnx.node_field(default=0, init=False), or one without a value: KeyError at construction"),
    "fix: values nested in node fields were restored as raw state dicts": ("C18", "from_state_dict of a pytree object with a list or a nested object in a node field put the raw dict there"),
    "fix: dataclass pytree objects with fields outside __init__ could not be restored": ("C18", "from_state_dict of a dataclass pytree object with an init=False node field: ValueError"),
    "fix: Dict does not list its internal module state as an item": ("C20", "len(nnx.Dict()) == 1; iteration, items() and values() of a Dict listed the module's internal state"),
    "fix: Dict lookup raises KeyError for keys that are not items": ("C20", "'zz' in nnx.Dict() and nnx.Dict().get('zz') raised AttributeError; 'keys' in nnx.Dict() was True"),
    "fix: an empty Sequence has length zero": ("C20", "len(nnx.Sequence([])) == 1 and iterating it raised AttributeError"),
    "fix: Sequence does not write the context into an element's output": ("C20", "a dict returned by an element of a Sequence gained a 'ctx' key when the next element accepts the context"),
    "fix: Sequence accepts callables without a signature when given a context": ("C20", "Sequence([np.negative])(x, ctx=ctx): ValueError, no signature found"),
    "fix: arrays without logical names could not be constrained over an explicit mesh": ("C22", "with_logical_constraint({'a': x, 'b': y}, {'a': ('row',), 'b': None}, rules, mesh): AttributeError, where a global mesh works"),
    "fix: unnamed dimensions triggered the fallback for names without a rule": ("C22", "with_logical_constraint(x, ('row', None), fallback=RAISE_ERROR) raised although every name has a rule"),
    "fix: initializers with metadata refused keyword arguments": ("C22", "with_logical_partitioning(init, ...)(key, shape, dtype=...): TypeError although the wrapper for it takes keywords"),
    "fix: LayerNorm with an axis name failed on inputs without batch dimensions": ("C25", "LayerNorm(axis_name=...) on a 1-D input under vmap: Zero-dimensional arrays cannot be concatenated"),
    "fix: mutable leaves could not be printed": ("C28", "repr of an entry of mutable_state_dict(): NotImplementedError"),
    "fix: a failed print of a module could cut short later ones": ("C28", "after a print that failed because a part's repr raised (exception kept), the modules it had reached print as '...'"),
    "fix: threads that print modules at the same time disturbed each other": ("C29", "two threads printing module graphs at the same time: AttributeError on None, or '...' for modules that were not shown"),
    "fix: synchronized statistics of complex inputs keep their types": ("C25", "BatchNorm(axis_name=...) on complex inputs made the running variance complex"),
    "fix: state updates and pops refused at another trace level change nothing": ("C09", "inside jit, a new module holding an outer one: update_state of its own attribute was refused; a refused update_state or pop_state of both had already changed or removed its own attributes"),
    "fix: a copy of a context could be used at another trace level than the original": ("C09", "inside jit, ctx.copy() of an outer context could be drawn from and split: every call of the compiled function gives the same keys and the outer streams advance once"),
}

# open findings: what is printed, and the case that fails in the described way
KNOWN = [
    {
        "property": "C20", "status": "known", "check": "slash", "fails": "KeyError",
        "what": "nnx.Dict({'a/b': nnx.Param(x)}): merging the split Dict raises KeyError 'a' (state paths are '/'-joined and cannot tell a key with a slash from a nested module)",
        "case": {"items": [["a/b", ["var", "Param", 1]]], "how": "mapping", "ops": [["merge", 1]]},
    },
    {
        "property": "C20", "status": "known", "check": "slash", "fails": "KeyError",
        "what": "nnx.Dict({'a/b': nnx.Param(x)}).update_state(its own state) raises KeyError 'a' (as above)",
        "case": {"items": [["a/b", ["var", "Param", 1]]], "how": "mapping", "ops": [["update", 1]]},
    },
]


def main():
  log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
  lines = []
  for line in reversed(log.splitlines()):
    h, _, subject = line.partition(" ")
    if not subject.startswith("fix:"):
      continue
    prop, what = FIXED[subject]
    lines.append(f"fixed: property={prop} {h} {what}")
  path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
  with open(path, "w") as f:
    f.write("# Repaired defects of cgarciae/nnx, then open findings (one JSON object per line, status known). See DESIGN.md.\n")
    f.write("\n".join(lines) + "\n")
    for k in KNOWN:
      f.write(json.dumps(k) + "\n")


if __name__ == "__main__":
  main()
