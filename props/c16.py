"""C16 Pytree objects are immutable values with exact replace."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import pytrees as T
from vlib.driver import Check

RULE = (
    "Cases: a class layout (plain, dataclass, frozen dataclass; declared mutable or not; with or without an inherited part; "
    "fields of every specifier holding Python values, arrays, containers with metadata, values with metadata, nested "
    "objects), and a history of up to 8 operations on a growing pool of objects: attribute writes, additions, deletions, "
    "replace (right, wrong container kind, unknown name), copy, flatten and unflatten, tree_map, jit, vmap, another "
    "assignment order. Oracle: a dictionary of fields per object; every object of the pool is compared after every "
    "operation, and its leaves and key paths with the fields in name order. Non-trivial: the history replaces or maps an "
    "object with a node field, or a refused operation was attempted."
)

ASSUMPTIONS = ["dataclass fields take part in __init__ (dataclasses.replace does not carry init=False fields over)"]


@st.composite
def histories(draw):
  spec = draw(T.objects())
  roles = dict(map(tuple, spec["roles"]))
  names = [n for n, _ in spec["values"]]
  anything = st.one_of(T.plain_values(), T.containers())
  ops = []
  for _ in range(draw(st.integers(1, 8))):
    t = draw(st.sampled_from(["set", "set", "replace", "replace", "replace", "add", "del", "unknown", "map", "jit", "vmap", "flat", "copy", "order", "setp"]))
    i = draw(st.integers(0, 5))
    if t in ("set", "setp"):
      ops.append([t, i, draw(st.sampled_from(names)), draw(anything)])
    elif t == "replace":
      sel = draw(st.lists(st.sampled_from(names), max_size=3, unique=True))
      ops.append([t, i, [[n, draw(st.one_of(T.plain_values(), T.field_values(roles[n]), anything))] for n in sel]])
    elif t == "unknown":
      ops.append([t, i, draw(st.sampled_from(["zz", "replace", "_q", "a_"])), draw(st.booleans())])
    elif t == "add":
      ops.append([t, i, draw(st.sampled_from(["zz", "_q", "a_"])), draw(anything)])
    elif t == "del":
      ops.append([t, i, draw(st.sampled_from(names))])
    else:
      ops.append([t, i])
  return {"o": spec, "ops": ops}


def replaced(old, new, role):
  """The attribute after replacing it with a value; None when the value is refused."""
  if old[0] != "cont":
    return new
  if new[0] == "cont":
    return new if (new[1], new[2]) == (old[1], old[2]) else None
  return ("cont", old[1], old[2], new[1])


def unhashable(old, new):
  """A static container given something that cannot be static."""
  return old[:2] == ("cont", "Static") and new[0] != "cont" and T.is_node(new)


def has_leaf(m):
  return T.is_node(m) and len(T.model_leaves(m)) > 0


def numeric(attrs):
  for n in attrs:
    if T.is_node(attrs[n]):
      for _, x in T.model_leaves(attrs[n]):
        if not isinstance(x, (int, float, jax.Array, np.ndarray)):
          return False
  return True


def refused(f, errors, what):
  try:
    f()
  except errors:
    return
  raise AssertionError(f"{what} was accepted")


def touch(value):
  """A container that was passed in stays its owner's: changing it changes no object made from it."""
  if isinstance(value, nnx.Container):
    value.value = "changed by its owner"


def run(case, rec):
  spec = case["o"]
  roles = dict(map(tuple, spec["roles"]))
  mutable = spec["mutable"] and spec["form"] != "frozen"
  cls = T.class_of(spec)
  obj, attrs = T.build(spec)
  pool = [(obj, attrs)]
  T.same_object(obj, cls, attrs, "new object")
  rec.tag(spec["form"] + (" mutable" if spec["mutable"] else ""))
  errors = (AttributeError, TypeError, ValueError)
  for n, op in enumerate(case["ops"]):
    t = op[0]
    i = op[1] % len(pool)
    obj, attrs = pool[i]
    what = f"operation {n} {t}"
    if t in ("set", "setp"):
      value, m = T.make(op[3])
      if unhashable(attrs[op[2]], m):
        continue
      new = replaced(attrs[op[2]], m, roles[op[2]])
      act = lambda: setattr(obj, op[2], value)
      if mutable and new is not None:
        act()
        pool[i] = (obj, {**attrs, op[2]: new})
        rec.tag("mutated")
        touch(value)
      else:
        refused(act, ValueError if mutable else AttributeError, f"{what}: writing {op[2]}")
        rec.tag("refused write")
        rec.nt(True)
    elif t == "add":
      value, _ = T.make(op[3])
      refused(lambda: setattr(obj, op[2], value), AttributeError, f"{what}: adding {op[2]}")
      rec.nt(True)
    elif t == "del":
      refused(lambda: delattr(obj, op[2]), AttributeError, f"{what}: deleting {op[2]}")
      rec.nt(True)
    elif t == "unknown":
      extra = {"a": 1} if op[3] and "a" in attrs else {}
      refused(lambda: obj.replace(**{op[2]: 1}, **extra), errors, f"{what}: replacing unknown {op[2]}")
      rec.nt(True)
    elif t == "replace":
      made = {k: T.make(v) for k, v in op[2] if v[0] != "cm"}
      if any(unhashable(attrs[k], m) for k, (_, m) in made.items()):
        continue
      if any(m[0] == "cont" and attrs[k][:3] != T.declared(roles[k], ("raw", 0))[:3] for k, (_, m) in made.items() if roles[k] in T.DECLARED):
        continue  # a container for a declared field that got metadata from its first value
      new = {k: replaced(attrs[k], m, roles[k]) for k, (_, m) in made.items()}
      kwargs = {k: r for k, (r, _) in made.items()}
      if any(v is None for v in new.values()):
        refused(lambda: obj.replace(**kwargs), ValueError, f"{what}: container of another kind")
        rec.tag("refused replace")
      else:
        out = obj.replace(**kwargs)
        assert out is not obj, what
        pool.append((out, {**attrs, **new}))
        if spec["form"] != "frozen":  # the generated __init__ of a frozen dataclass stores what it is given
          for v in kwargs.values():
            touch(v)
        rec.tag("replaced " + spec["form"])
        rec.nt(any(T.is_node(m) for m in attrs.values()))
    elif t == "copy":
      pool.append((copy.copy(obj), dict(attrs)))
    elif t == "flat":
      leaves, treedef = jax.tree_util.tree_flatten(obj)
      pool.append((jax.tree_util.tree_unflatten(treedef, leaves), dict(attrs)))
      assert jax.tree_util.tree_structure(pool[-1][0]) == treedef, f"{what}: structure"
      rec.nt(bool(leaves))
    elif t == "order" and obj is pool[0][0]:
      other, _ = T.build(spec, spec["order"][::-1])
      if not mutable:
        assert jax.tree_util.tree_structure(other) == jax.tree_util.tree_structure(obj), f"{what}: structure depends on assignment order"
      pool.append((other, T.build(spec)[1]))
    elif t in ("map", "jit", "vmap") and numeric(attrs):
      f = lambda x: x * 2
      if t == "map":
        pool.append((jax.tree_util.tree_map(f, obj), {k: T.map_attr(f, m) for k, m in attrs.items()}))
      elif t == "jit":
        out = jax.jit(lambda o: jax.tree_util.tree_map(f, o))(obj)
        pool.append((out, {k: T.map_attr(lambda x: jnp.asarray(x) * 2, m) for k, m in attrs.items()}))
      else:
        stacked = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 2), obj)
        if jax.tree_util.tree_leaves(stacked):
          out = jax.vmap(lambda o: jax.tree_util.tree_map(f, o))(stacked)
          g = lambda x: jnp.stack([jnp.asarray(x)] * 2) * 2
          pool.append((out, {k: T.map_attr(g, m) for k, m in attrs.items()}))
      rec.nt(any(has_leaf(m) for m in attrs.values()))
      rec.tag(t)
    for j, (o, a) in enumerate(pool):
      T.same_object(o, cls, a, f"object {j} after {what}")


@st.composite
def large_histories(draw):
  ops = []
  for _ in range(draw(st.integers(2, 5))):
    t = draw(st.sampled_from(["replace", "replace", "set", "flat", "map", "copy", "unknown", "order"]))
    i, j = draw(st.integers(0, 3)), draw(st.integers(0, 200))
    ops.append([t, i, j, draw(st.sampled_from([["arr", 7], ["py", 3], ["np", 6]]))])
  return {"large": draw(T.large()), "ops": ops}


def run_large(case, rec):
  """Many fields, deep nesting."""
  spec = T.large_spec(case["large"])
  names = [n for n, _ in spec["values"] if n != "deep"]
  ops = []
  for t, i, j, v in case["ops"]:
    name = names[j % len(names)]
    ops.append({
        "replace": ["replace", i, [[n, v] for n in names[j % len(names):][:9] + ["deep"] * (j % 2)]], "set": ["set", i, name, v],
        "unknown": ["unknown", i, "zz", False],
    }.get(t, [t, i]))
  run({"o": spec, "ops": ops}, rec)



CHECKS = [
    Check("histories", histories, run, quick=3000, thorough=50000),
    Check("large", large_histories, run_large, quick=40, thorough=500),
]
