"""NNX pytree objects described by JSON specs, and the reference model of their fields."""
import dataclasses
import functools
import random
import typing as tp

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import values as V

KINDS = {**V.KINDS, "TreeNode": nnx.TreeNode, "Static": nnx.Static}
NAMES = ["a", "b", "w", "x10", "x2", "K", "_p"]


class Sub(nnx.Pytree):
  """A nested pytree object."""

  def __init__(self, attrs):
    for name, value in attrs:
      setattr(self, name, value)


class Sub2(Sub):
  pass


SUBS = {"Sub": Sub, "Sub2": Sub2}


@functools.lru_cache(maxsize=None)
def make_class(form, mutable, base, own, roles, base_mutable=False, silent=False):
  """form: plain, dc or frozen; base and own: field names; roles: specifier per field of a dataclass; silent: not mutable is not written out."""
  kw = {} if silent and not mutable else {"mutable": mutable}
  if form == "plain":

    def base_init(self, values, order):
      for name in order:
        if name in base:
          setattr(self, name, values[name])

    def init(self, values, order):
      if base:
        base_init(self, values, order)
      for name in order:
        if name in own:
          setattr(self, name, values[name])

    if not base:
      return type(nnx.Pytree)("Plain", (nnx.Pytree,), {"__init__": init}, **kw)
    b = type(nnx.Pytree)("PlainBase", (nnx.Pytree,), {"__init__": base_init}, mutable=base_mutable)
    return type(nnx.Pytree)("PlainChild", (b,), {"__init__": init}, **kw)

  def body(names):
    ns = {"__annotations__": {n: tp.Any for n in names}}
    for n in names:
      role = dict(roles)[n]
      if role == "param_field":
        ns[n] = nnx.param_field()
      elif role.startswith("var_field"):
        ns[n] = nnx.var_field(nnx.BatchStat, sharding=("s",) if role.endswith("s") else None)
      elif role != "bare":
        ns[n] = getattr(nnx, role)()
    return ns

  deco = nnx.dataclass(frozen=True) if form == "frozen" else nnx.dataclass
  if not base:
    return deco(type(nnx.Pytree)("Data", (nnx.Pytree,), body(own), mutable=mutable))
  b = deco(type(nnx.Pytree)("DataBase", (nnx.Pytree,), body(base), mutable=base_mutable))
  return deco(type(nnx.Pytree)("DataChild", (b,), body(own), mutable=mutable))


ALT = {"int": ("i", [2]), "half": ("h", [2]), "bool": ("b", [2]), "longer": ("f", [3]), "scalar": ("f", []), "empty": ("i", [0, 2])}

DECLARED = {"node_field": ("Node", {}), "static_field": ("Static", {}), "param_field": ("Param", {"sharding": None}),
            "var_field": ("BatchStat", {"sharding": None}), "var_fields": ("BatchStat", {"sharding": ("s",)})}


class M:
  """Model of a nested pytree object."""

  def __init__(self, cls, attrs):
    self.cls, self.attrs = cls, attrs

  def __repr__(self):
    return f"{self.cls}({self.attrs})"


def make(v):
  """Spec -> (real value, model of what the attribute holds)."""
  t = v[0]
  if t == "py":
    x = tuple(v[1]) if isinstance(v[1], list) else v[1]
    return x, ("raw", x)
  if t in ("arr", "np"):  # a third element: another dtype or shape
    dtype, shape = ALT[v[2]] if len(v) > 2 else ("f", [2])
    mk = lambda: jnp.asarray(V.arr(dtype, shape, v[1])) if t == "arr" else V.arr(dtype, shape, v[1])
    return mk(), ("raw", mk())
  if t == "tree":
    mk = lambda: {"p": jnp.asarray(V.arr("f", [2], v[1])), "q": [3, None]}
    return mk(), ("raw", mk())
  if t == "forest":  # nested objects inside lists and dicts
    made = [make(x) for x in v[1]]
    shape = lambda xs: [xs[0], {"k": xs[1:], "n": 4}]
    return shape([r for r, _ in made]), ("raw", shape([m[1] for _, m in made]))
  if t == "sub":
    pairs = [(n, make(x)) for n, x in v[2]]
    return SUBS[v[1]]([(n, r) for n, (r, _) in pairs]), ("raw", M(v[1], {n: m for n, (_, m) in pairs}))
  if t == "cont":
    r, m = make(v[3])
    meta = V.make_meta(v[2])
    real = KINDS[v[1]](r, **meta)
    return real, ("cont", v[1], full_meta(v[1], meta), m[1])
  if t == "cm":  # value with metadata, as an initializer with metadata gives it
    r, m = make(v[2])
    meta = V.make_meta(v[1])
    return nnx.containers.ContainerMetadata(r, meta), ("cm", meta, m[1])
  raise KeyError(t)


def full_meta(kind, meta):
  return {**({"sharding": None} if issubclass(KINDS[kind], nnx.Variable) else {}), **meta}


def declared(role, m):
  """What a dataclass field holds for a value, or None when the value is refused."""
  if role in ("field", "bare"):
    return m
  kind, meta = DECLARED[role]
  if m[0] == "cm":
    return None if kind == "Static" else ("cont", kind, {**meta, **m[1]}, m[2])
  if m[0] == "cont":
    return m if (m[1], m[2]) == (kind, meta) else None
  return ("cont", kind, dict(meta), m[1])


def is_node(m):
  if m[0] == "cont":
    return m[1] != "Static"
  return m[0] == "leaf" or isinstance(m[1], (jax.Array, np.ndarray, M))


def model_leaves(m, path=()):
  """[(path, leaf)] of an attribute, in JAX order."""
  if m[0] == "cont":
    return value_leaves(m[3], path + (".value",))
  return value_leaves(m[1], path)


def value_leaves(v, path):
  if isinstance(v, M):
    return [x for n in sorted(v.attrs) if is_node(v.attrs[n]) for x in model_leaves(v.attrs[n], path + ("." + n,))]
  leaves, _ = jax.tree_util.tree_flatten_with_path(v)
  out = []
  for p, x in leaves:
    here = path + tuple(str(k) for k in p)
    out += value_leaves(x, here) if isinstance(x, M) else [(here, x)]
  return out


def map_attr(f, m):
  if not is_node(m):
    return m
  if m[0] == "cont":
    return ("cont", m[1], m[2], map_value(f, m[3]))
  v = map_value(f, m[1])
  return ("raw", v) if isinstance(v, (jax.Array, np.ndarray, M)) else ("leaf", v)


def map_value(f, v):
  if isinstance(v, M):
    return M(v.cls, {n: map_attr(f, a) for n, a in v.attrs.items()})
  return jax.tree_util.tree_map(lambda x: map_value(f, x) if isinstance(x, M) else f(x), v)


def same_value(got, want, what):
  if isinstance(want, M):
    assert type(got) is SUBS[want.cls], f"{what}: {type(got)}"
    return same_fields(got, want.attrs, what)
  if isinstance(want, (dict, list, tuple)):
    assert type(got) is type(want) and len(got) == len(want), f"{what}: {got} instead of {want}"
    for k in want if isinstance(want, dict) else range(len(want)):
      assert not isinstance(want, dict) or k in got, f"{what}: {got} instead of {want}"
      same_value(got[k], want[k], f"{what}[{k}]")
    return
  if isinstance(want, (jax.Array, np.ndarray)):
    ok = isinstance(got, jax.Array if isinstance(want, jax.Array) else np.ndarray)
    ok = ok and got.dtype == want.dtype and np.array_equal(np.asarray(got), np.asarray(want))
  else:
    ok = type(got) is type(want) and got == want
  assert ok, f"{what}: {got!r} instead of {want!r}"


def same_fields(obj, attrs, what):
  """The object holds exactly these fields."""
  fields = {n: v for n, v in vars(obj).items() if not n.startswith(("_pytree__", "_module__"))}
  assert set(fields) == set(attrs), f"{what}: fields {sorted(fields)} instead of {sorted(attrs)}"
  for n, m in attrs.items():
    raw = fields[n]
    if m[0] == "cont":
      assert type(raw) is KINDS[m[1]], f"{what}.{n}: holds a {type(raw).__name__} instead of a {m[1]}"
      meta = {k: v for k, v in vars(raw).items() if k != "value"}
      assert meta == m[2], f"{what}.{n}: metadata {meta} instead of {m[2]}"
      same_value(vars(raw)["value"], m[3], f"{what}.{n}")
      if getattr(obj, n) is not vars(raw)["value"]:
        same_value(getattr(obj, n), m[3], f"reading {what}.{n}")
    else:
      assert not isinstance(raw, nnx.Node) and not isinstance(raw, nnx.Static), f"{what}.{n}: {raw!r}"
      same_value(raw, m[1], f"{what}.{n}")
      if getattr(obj, n) is not raw:
        same_value(getattr(obj, n), m[1], f"reading {what}.{n}")


def same_object(obj, cls, attrs, what):
  """Fields, and the roles they have under JAX."""
  assert type(obj) is cls, f"{what}: {type(obj)}"
  same_fields(obj, attrs, what)
  leaves, _ = jax.tree_util.tree_flatten_with_path(obj)
  want = [x for n in sorted(attrs) if is_node(attrs[n]) for x in model_leaves(attrs[n], ("." + n,))]
  got = [tuple(str(k) for k in p) for p, _ in leaves]
  assert got == [p for p, _ in want], f"{what}: leaves {got} instead of {[p for p, _ in want]}"
  for (_, a), (p, b) in zip(leaves, want):
    same_value(a, b, f"{what}: leaf {p}")
  flat = jax.tree_util.tree_leaves(obj)
  assert len(flat) == len(want) and all(a is b for a, (b) in zip(flat, [x for _, x in leaves])), f"{what}: leaves with and without paths"


# ------------------------------------------------------------------ generation


def plain_values(nested=True):
  opts = [
      st.tuples(st.just("py"), st.sampled_from([0, 1, 2.5, "s", None, [1, 2], True])).map(list),
      st.tuples(st.just("arr"), st.integers(0, 9)).map(list),
      st.tuples(st.just("np"), st.integers(0, 9)).map(list),
  ]
  if nested:
    opts.append(subs())
  return st.one_of(*opts)


def payloads(nested=True):
  """What is put in a node container."""
  opts = [
      st.tuples(st.just("py"), st.sampled_from([0, 1, 2.5, True, None])).map(list),
      st.tuples(st.just("arr"), st.integers(0, 9)).map(list),
      st.tuples(st.just("np"), st.integers(0, 9)).map(list),
      st.tuples(st.just("tree"), st.integers(0, 9)).map(list),
  ]
  if nested:
    opts.append(subs())
    opts.append(st.lists(subs(), min_size=1, max_size=2).map(lambda x: ["forest", x]))
  return st.one_of(*opts)


META = st.sampled_from([[], [], [["sharding", ["x", None]]], [["note", 3]], [["sharding", ["y"]], ["note", "n"]]])


def containers(nested=True):
  def build(kind):
    if kind == "Static":
      return st.sampled_from([1, "s", None, [1, 2]]).map(lambda v: ["cont", "Static", [], ["py", v]])
    meta = META if kind in ("Param", "BatchStat", "CustomVar") else st.sampled_from([[], [], [["note", 1]]])
    return st.tuples(meta, payloads(nested)).map(lambda t: ["cont", kind, t[0], t[1]])

  return st.sampled_from(["Node", "Node", "Param", "BatchStat", "CustomVar", "TreeNode", "Static"]).flatmap(build)


def subs():
  field = st.one_of(plain_values(False), containers(False))
  inner = st.lists(st.tuples(st.sampled_from(["u", "c", "Z"]), field), max_size=3, unique_by=lambda t: t[0]).map(lambda l: [list(x) for x in l])
  one = st.tuples(st.just("sub"), st.sampled_from(["Sub", "Sub2"]), inner).map(list)
  deep = st.tuples(one, st.booleans()).map(
      lambda t: ["sub", "Sub", [["d", t[0]]]] if t[1] else ["sub", "Sub2", [["d", ["cont", "Node", [], t[0]]], ["u", ["py", 1]]]])
  return st.one_of(one, one, deep)


def with_metadata():
  return st.tuples(META, payloads(False)).map(lambda t: ["cm", t[0], t[1]])


def field_values(role, odd=False):
  if role in ("field", "bare"):
    return st.one_of(plain_values(), containers())
  if role == "static_field":
    return st.sampled_from([1, "s", None, [1, 2], 2.5]).map(lambda v: ["py", v])
  return st.one_of(payloads(), payloads(), with_metadata()) if odd is False else st.one_of(payloads(), with_metadata(), containers())


@st.composite
def objects(draw, forms=("plain", "plain", "dc", "frozen"), mutable=True):
  form = draw(st.sampled_from(forms))
  names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
  k = draw(st.integers(0, len(names) - 1)) if draw(st.booleans()) else 0
  roles = {}
  for n in names:
    if form == "plain":
      roles[n] = "field"
    else:
      roles[n] = draw(st.sampled_from(["field", "bare", "field", "node_field", "static_field", "param_field", "var_field", "var_fields"]))
  return {
      "form": form, "mutable": mutable and draw(st.integers(0, 2)) == 0, "base": names[:k], "own": names[k:],
      "roles": sorted(roles.items()), "values": [[n, draw(field_values(roles[n]))] for n in names],
      "order": draw(st.permutations(names)), "basemut": mutable and k > 0 and draw(st.booleans()), "silent": draw(st.booleans()),
  }


def class_of(spec):
  return make_class(spec["form"], spec["mutable"], tuple(spec["base"]), tuple(spec["own"]), tuple(map(tuple, spec["roles"])), spec.get("basemut", False), spec.get("silent", False))


def build(spec, order=None):
  """(real object, model of its fields)"""
  cls = class_of(spec)
  made = {n: make(v) for n, v in spec["values"]}
  roles = dict(map(tuple, spec["roles"]))
  values = {n: r for n, (r, _) in made.items()}
  attrs = {n: declared(roles[n], m) for n, (_, m) in made.items()}
  if spec["form"] == "plain":
    return cls(values, order or spec["order"]), attrs
  order = order or spec["order"]
  return cls(**{n: values[n] for n in order}), attrs


@st.composite
def large(draw):
  """Parameters of an object with many fields and deep nesting (expanded by large_spec)."""
  return {
      "form": draw(st.sampled_from(["plain", "dc", "frozen"])), "mutable": draw(st.booleans()), "n": draw(st.sampled_from([12, 20, 40, 70, 130])),
      "depth": draw(st.sampled_from([1, 6, 20, 40])), "seed": draw(st.integers(0, 99)), "base": draw(st.booleans()),
  }


def large_spec(params):
  rng = random.Random(params["seed"])
  names = [f"{rng.choice('abKz')}{i}" for i in range(params["n"])]
  roles, values = {}, []
  leaves = [["arr", 3], ["np", 4], ["py", 2.5], ["py", 7], ["tree", 2]]
  for n in names:
    role = "field" if params["form"] == "plain" else rng.choice(["field", "bare", "node_field", "static_field", "param_field", "var_field", "var_fields"])
    roles[n] = role
    if role == "static_field":
      v = ["py", rng.choice([1, "s", None])]
    elif role in ("field", "bare"):
      v = rng.choice([["arr", 1], ["np", 2], ["py", "text"], ["cont", "Param", [["note", 3]], ["arr", 5]], ["cont", "Static", [], ["py", 2]]])
    else:
      v = rng.choice(leaves)
    values.append([n, v])
  deep = ["arr", 1]
  for i in range(params["depth"]):
    deep = ["sub", rng.choice(["Sub", "Sub2"]), [["u", rng.choice([["py", 1], ["arr", i % 9]])], ["d", deep if i % 3 or deep[0] == "arr" else ["cont", "Node", [], deep]]]]
  values.append(["deep", deep])
  roles["deep"] = "field"
  names.append("deep")
  k = len(names) // 2 if params["base"] else 0
  order = list(names)
  rng.shuffle(order)
  return {
      "form": params["form"], "mutable": params["mutable"] and params["form"] != "frozen", "base": names[:k], "own": names[k:],
      "roles": sorted(roles.items()), "values": values, "order": order, "basemut": False, "silent": False,
  }
