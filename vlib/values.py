"""Values described by JSON specs, and descriptions of real objects that can be compared exactly."""
import dataclasses
import enum
import typing as tp

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx

# ------------------------------------------------------------------ classes used by the generators


class ModA(nnx.Module):
  def __init__(self, *args, **kwargs):
    pass

  def run_fn(self, fn, *args, **kwargs):
    return fn(self, *args, **kwargs)


class ModB(nnx.Module):
  kind = "class attribute"

  def __init__(self, *args, **kwargs):
    pass

  def run_fn(self, fn, *args, **kwargs):
    return fn(self, *args, **kwargs)


class ModSub(ModA):
  pass


@nnx.dataclass
class DataMod(nnx.Module):
  width: int = nnx.static_field(default=3)
  plain: tp.Any = 7
  w: tp.Any = nnx.param_field(default=1.5)
  nodev: tp.Any = nnx.node_field(default=2.5)


class CustomVar(nnx.Param):
  pass


class PT(nnx.Pytree):
  def __init__(self, x, s):
    self.x = nnx.TreeNode(x)
    self.s = s


CLASSES = {"A": ModA, "B": ModB, "Sub": ModSub, "Data": DataMod, "Dict": nnx.Dict, "Seq": nnx.Sequence}
KINDS = {
    "Node": nnx.Node,
    "Variable": nnx.Variable,
    "Param": nnx.Param,
    "BatchStat": nnx.BatchStat,
    "Cache": nnx.Cache,
    "Intermediate": nnx.Intermediate,
    "CustomVar": CustomVar,
}


def unbox_a(container):
  return ("unboxed-a", container.value)


def unbox_b(container):
  return ("unboxed-b", container.value)


UNBOX = {"a": unbox_a, "b": unbox_b}


def fn_a():
  return "a"


def fn_b():
  return "b"


class SameRepr:
  """A value object; all of them print the same."""

  def __init__(self, n):
    self.n = n

  def __eq__(self, other):
    return type(other) is type(self) and other.n == self.n

  def __hash__(self):
    return hash(self.n)

  def __repr__(self):
    return "Value"


class DefaultRepr(SameRepr):
  """Equal ones print differently."""

  __repr__ = object.__repr__


class SameHash(SameRepr):
  def __hash__(self):
    return 5


class Color(enum.Enum):
  RED = 0
  GREEN = 1
  ALIAS = 1
  BLUE = 2


class Named(tp.NamedTuple):
  n: int
  text: str = "x"


OBJECTS = {
    "same repr": SameRepr, "default repr": DefaultRepr, "same hash": SameHash, "enum": lambda n: Color(n % 3), "named": Named,
    "frozenset": lambda n: frozenset({n, "a"}), "range": lambda n: range(n % 3), "bytes": lambda n: bytes([n]),
    "complex": lambda n: complex(n, 1), "dtype": lambda n: np.dtype(["float32", "int8", "bool"][n % 3]),
}
FUNCS = {"fn_a": fn_a, "fn_b": fn_b, "len": len}

# ------------------------------------------------------------------ values

DTYPES = {"f": np.float32, "i": np.int32, "b": np.bool_, "h": np.float16}


def arr(dtype, shape, seed):
  n = int(np.prod(shape)) if shape else 1
  base = (np.arange(n, dtype=np.int64) * 3 + seed * 7) % 23 - 11
  if dtype == "f":
    x = base.astype(np.float32) * 0.25
  elif dtype == "h":
    x = (base * 0.5).astype(np.float16)
  elif dtype == "b":
    x = base % 2 == 0
  else:
    x = base.astype(np.int32)
  return x.reshape(tuple(shape))


def make_value(v):
  t = v[0]
  if t == "j":
    return jnp.asarray(arr(v[1], v[2], v[3]))
  if t == "n":
    return arr(v[1], v[2], v[3])
  if t == "s":  # static json scalar
    return v[1]
  if t == "tup":
    return tuple(make_value(x) for x in v[1])
  if t == "lst":
    return [make_value(x) for x in v[1]]
  if t == "dic":
    return {k: make_value(x) for k, x in v[1]}
  if t == "fn":
    return FUNCS[v[1]]
  if t == "obj":
    return OBJECTS[v[1]](v[2])
  if t == "type":
    return CLASSES[v[1]] if v[1] in CLASSES else SCALAR_TYPES[v[1]]
  raise KeyError(t)


SCALAR_TYPES = {"float32": jnp.float32, "int32": np.int32}


def make_meta(meta):
  out = {}
  for k, x in meta:
    if k == "sharding":
      out[k] = None if x is None else tuple(x)
    elif k == "unbox_fn":
      out[k] = UNBOX[x]
    else:
      out[k] = tuple(x) if isinstance(x, list) else x
  return out


def make_leaf(a):
  """The object to assign for an attribute spec (never a module)."""
  t = a[0]
  if t == "var":
    return KINDS[a[1]](make_value(a[2]), **make_meta(a[3]))
  if t == "Static":
    return nnx.Static(make_value(a[1]))
  if t == "pt":
    return PT(make_value(a[1]), make_value(a[2]))
  if t == "state":
    return nnx.State({k: make_leaf(x) for k, x in a[1]})
  if t == "pure":  # a split module, which is a node too
    m = ModA()
    for k, x in a[1]:
      setattr(m, k, make_leaf(x))
    return m.partition()
  if t == "val":
    return make_value(a[1])
  raise KeyError(t)


def is_node_spec(a):
  t = a[0]
  return t in ("var", "pt", "state", "pure") or (t == "val" and a[1][0] in ("j", "n"))


# ------------------------------------------------------------------ descriptions


def d_array(x):
  kind = "np" if isinstance(x, np.ndarray) else "jax"
  x = np.asarray(x)
  return (kind, str(x.dtype), tuple(x.shape), x.tobytes())


def desc(x, mod=None, loose=False):
  """Exact, comparable description of any object (`mod` numbers modules; `loose` ignores numpy / jax
  and python scalar / zero dimensional array differences, for values that went through jax)."""
  if isinstance(x, nnx.Module):
    return ("mod", mod(x) if mod else "?")
  if isinstance(x, nnx.Container):
    meta = {k: v for k, v in vars(x).items() if k != "value"}
    return (
        "container",
        type(x).__name__,
        tuple((k, desc(v, mod, loose)) for k, v in sorted(meta.items())),
        desc(vars(x)["value"], mod, loose),
    )
  if isinstance(x, jax.core.Tracer):
    return ("TRACER", str(x.aval))
  if isinstance(x, (jax.Array, np.ndarray)):
    if loose:
      x = np.asarray(x)
      return ("array", str(x.dtype), tuple(x.shape), x.tobytes())
    return d_array(x)
  if loose and isinstance(x, (bool, int, float, np.generic)) and not isinstance(x, str):
    y = np.asarray(jnp.asarray(x))
    return ("array", str(y.dtype), (), y.tobytes())
  if isinstance(x, nnx.State):
    return ("State", tuple((k, desc(v, mod, loose)) for k, v in x.items()))
  if isinstance(x, nnx.Pytree):
    names = sorted(k for k in vars(x) if not k.startswith("_pytree__"))
    return ("Pytree", type(x).__name__, tuple((k, desc(vars(x)[k], mod, loose)) for k in names))
  if isinstance(x, nnx.Pure):
    return ("Pure", desc(x.states, mod, loose), d_def(x.moduledef))
  if isinstance(x, nnx.ModuleDef):
    return d_def(x)
  if isinstance(x, SameRepr):
    return (type(x).__name__, x.n)
  if isinstance(x, frozenset):
    return ("frozenset", tuple(sorted(map(repr, x))))
  if isinstance(x, tuple):
    return (type(x).__name__, tuple(desc(v, mod, loose) for v in x))
  if isinstance(x, list):
    return ("list", tuple(desc(v, mod, loose) for v in x))
  if isinstance(x, dict):
    return ("dict", tuple((k, desc(v, mod, loose)) for k, v in sorted(x.items(), key=lambda t: str(t[0]))))
  if isinstance(x, type):
    return ("type", x.__qualname__)
  if callable(x):
    return ("callable", getattr(x, "__qualname__", type(x).__name__), id(x))
  return (type(x).__name__, repr(x))


def d_def(d):
  return (
      "ModuleDef",
      d.type.__name__,
      tuple((n, s if isinstance(s, int) else d_def(s)) for n, s in d.submodules),
      tuple((n, desc(v)) for n, v in d.static_fields),
  )


def d_value(v, loose=False):
  return desc(make_value(v), None, loose)


def d_leaf_spec(a, loose=False):
  """What desc() must give for a leaf made from spec `a` (computed without the code under test)."""
  t = a[0]
  if t == "var":
    meta = make_meta(a[3])
    if a[1] != "Node":
      meta.setdefault("sharding", None)
    return (
        "container",
        a[1],
        tuple((k, desc(v, None, loose)) for k, v in sorted(meta.items())),
        d_value(a[2], loose),
    )
  if t == "Static":
    return ("container", "Static", (), d_value(a[1], loose))
  if t == "pt":
    return (
        "Pytree",
        "PT",
        (("s", d_value(a[2], loose)), ("x", ("container", "TreeNode", (), d_value(a[1], loose)))),
    )
  if t == "state":
    return ("State", tuple((k, d_leaf_spec(x, loose)) for k, x in sorted(a[1])))
  if t == "pure":
    nodes = tuple((k, d_leaf_spec(x, loose)) for k, x in sorted(a[1]) if is_node_spec(x))
    statics = tuple((k, d_leaf_spec(x)) for k, x in sorted(a[1]) if not is_node_spec(x))
    return ("Pure", ("State", nodes), ("ModuleDef", "ModA", (), statics))
  if t == "val":
    return d_value(a[1], loose)
  raise KeyError(t)


# ------------------------------------------------------------------ strategies (JSON-able specs)

SHAPES = [[], [1], [2], [3], [2, 2], [0], [1, 3]]
seeds = st.integers(0, 22)


def arrays(kinds="jn", dtypes="fib", shapes=None):
  return st.tuples(
      st.sampled_from(list(kinds)),
      st.sampled_from(list(dtypes)),
      st.sampled_from(shapes or SHAPES),
      seeds,
  ).map(list)


scalars = st.one_of(
    st.integers(-3, 12),
    st.booleans(),
    st.none(),
    st.sampled_from(["", "relu", "a/b", "x"]),
    st.sampled_from([0.5, -1.25, 2.0]),
).map(lambda x: ["s", x])

statics = st.recursive(
    st.one_of(
        scalars,
        st.sampled_from(sorted(FUNCS)).map(lambda n: ["fn", n]),
        st.sampled_from(["A", "B", "float32", "int32"]).map(lambda n: ["type", n]),
        st.tuples(st.sampled_from(sorted(OBJECTS)), st.integers(0, 3)).map(lambda t: ["obj", *t]),
    ),
    lambda ch: st.lists(ch, max_size=3).map(lambda xs: ["tup", xs]),
    max_leaves=4,
)

unhashable_statics = st.one_of(
    st.lists(scalars, max_size=3).map(lambda xs: ["lst", xs]),
    st.lists(st.tuples(st.sampled_from("abc"), scalars), max_size=2, unique_by=lambda t: t[0]).map(
        lambda xs: ["dic", [list(t) for t in xs]]
    ),
)

contents = st.one_of(
    arrays(),
    arrays(),
    scalars,
    st.recursive(
        arrays(),
        lambda ch: st.one_of(
            st.lists(ch, max_size=3).map(lambda xs: ["tup", xs]),
            st.lists(st.tuples(st.sampled_from("abc"), ch), max_size=2, unique_by=lambda t: t[0]).map(
                lambda xs: ["dic", [list(t) for t in xs]]
            ),
        ),
        max_leaves=4,
    ),
)


def metadata(unbox=True):
  parts = [
      st.one_of(
          st.none(), st.lists(st.sampled_from([None, "x", "y", "data"]), max_size=3)
      ).map(lambda s: ["sharding", s])
  ]
  parts.append(st.sampled_from([1, 2, "note", None, [1, 2]]).map(lambda s: ["note", s]))
  parts.append(st.sampled_from([True, 0.5]).map(lambda s: ["tag", s]))
  parts.append(st.tuples(st.sampled_from(["_hid", "__m__", "shape", "_x_y", "K"]), st.sampled_from([1, "note", None])).map(list))
  if unbox:
    parts.append(st.sampled_from(["a", "b"]).map(lambda s: ["unbox_fn", s]))
  return st.lists(st.one_of(*parts), max_size=2, unique_by=lambda t: t[0])


@st.composite
def variables(draw, kinds=None, values=None, unbox=True):
  kind = draw(st.sampled_from(kinds or sorted(KINDS)))
  return [
      "var",
      kind,
      draw(values if values is not None else contents),
      draw(metadata(unbox)),
  ]


def leaves(unbox=True, nested=True, static=True, unhashable=False):
  opts = [
      variables(unbox=unbox),
      variables(unbox=unbox),
      arrays().map(lambda v: ["val", v]),
  ]
  if static:
    opts.append(statics.map(lambda v: ["val", v]))
    opts.append(statics.map(lambda v: ["Static", v]))
  if unhashable:
    opts.append(unhashable_statics.map(lambda v: ["val", v]))
  if nested:
    opts.append(st.tuples(contents, statics).map(lambda t: ["pt", t[0], t[1]]))
    opts.append(
        st.lists(
            st.tuples(
                st.sampled_from(["a", "b/c", "d"]),
                st.one_of(variables(unbox=False), arrays().map(lambda v: ["val", v])),
            ),
            max_size=2,
            unique_by=lambda t: t[0],
        ).map(lambda xs: ["state", [list(t) for t in xs]])
    )
    opts.append(
        st.lists(
            st.tuples(
                st.sampled_from(["a", "b", "_c"]),
                st.one_of(variables(unbox=False), arrays().map(lambda v: ["val", v]), statics.map(lambda v: ["val", v])),
            ),
            max_size=2,
            unique_by=lambda t: t[0],
        ).map(lambda xs: ["pure", [list(t) for t in xs]])
    )
  return st.one_of(*opts)
