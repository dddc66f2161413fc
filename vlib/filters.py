"""Filter specs, the real filters they denote, and their documented meaning on leaf specs."""
import jax
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import values as V

TYPES = dict(V.KINDS)
TYPES.update(
    Array=jax.Array, ndarray=np.ndarray, Pytree=nnx.Pytree, State=nnx.State, PT=V.PT, Container=nnx.Container,
    object=object,
)


def _pred_path(sub):
  return lambda path, value: sub in path


def _pred_len(n):
  return lambda path, value: len(path) > n


def _pred_var(path, value):
  return isinstance(value, nnx.Variable) and value.sharding is not None


def make(f):
  t = f[0]
  if t == "type":
    return TYPES[f[1]]
  if t == "...":
    return ...
  if t == "none":
    return None
  if t == "path":
    return _pred_path(f[1])
  if t == "len":
    return _pred_len(f[1])
  if t == "sharded":
    return _pred_var
  if t == "tuple":
    return tuple(make(x) for x in f[1])
  if t == "All":
    return nnx.All(*[make(x) for x in f[1]])
  if t == "Not":
    return nnx.Not(make(f[1]))
  if t == "buffers":
    return nnx.buffers
  raise KeyError(t)


def _leaf_class(a):
  t = a[0]
  if t == "var":
    return V.KINDS[a[1]]
  if t == "pt":
    return V.PT
  if t == "state":
    return nnx.State
  if t == "pure":
    return nnx.Pure
  if t == "val" and a[1][0] == "j":
    return jax.Array
  if t == "val" and a[1][0] == "n":
    return np.ndarray
  raise KeyError(t)


def match(f, path, a):
  """Documented meaning of filter spec f on the entry (path, leaf spec)."""
  t = f[0]
  if t == "type":
    return issubclass(_leaf_class(a), TYPES[f[1]])
  if t == "...":
    return True
  if t == "none":
    return False
  if t == "path":
    return f[1] in path
  if t == "len":
    return len(path) > f[1]
  if t == "sharded":
    return a[0] == "var" and a[1] != "Node" and dict(map(tuple, [(k, str(v)) for k, v in a[3]])).get("sharding", "None") != "None"
  if t == "tuple":
    return any(match(x, path, a) for x in f[1])
  if t == "All":
    return all(match(x, path, a) for x in f[1])
  if t == "Not":
    return not match(f[1], path, a)
  if t == "buffers":
    return _leaf_class(a) in (jax.Array, np.ndarray)
  raise KeyError(t)


atoms = st.one_of(
    st.sampled_from(sorted(TYPES)).map(lambda n: ["type", n]),
    st.sampled_from(["Param", "BatchStat", "Variable", "Array", "Node"]).map(lambda n: ["type", n]),
    st.sampled_from(["a", "b", "/", "w", "1"]).map(lambda s: ["path", s]),
    st.sampled_from([1, 2, 4]).map(lambda n: ["len", n]),
    st.just(["sharded"]),
    st.just(["none"]),
    st.just(["buffers"]),
)


def filters(max_leaves=5):
  return st.recursive(
      st.one_of(atoms, atoms, st.just(["..."])),
      lambda ch: st.one_of(
          st.lists(ch, max_size=3).map(lambda xs: ["tuple", xs]),
          st.lists(ch, max_size=3).map(lambda xs: ["All", xs]),
          ch.map(lambda x: ["Not", x]),
      ),
      max_leaves=max_leaves,
  )


def inner():
  """Filters that are not a bare ellipsis (valid anywhere in a list)."""
  return filters().map(lambda f: ["tuple", [f]] if f == ["..."] else f)


@st.composite
def filter_lists(draw, exhaustive=False, max_size=4):
  fs = draw(st.lists(inner(), min_size=0 if exhaustive else 1, max_size=max_size))
  if exhaustive or draw(st.booleans()):
    fs.append(["..."])
  return fs


def ref_split(fs, entries):
  """entries: path -> leaf spec. Returns (list of dicts, rest)."""
  parts = [{} for _ in fs]
  rest = {}
  for path in sorted(entries):
    for i, f in enumerate(fs):
      if match(f, path, entries[path]):
        parts[i][path] = entries[path]
        break
    else:
      rest[path] = entries[path]
  return parts, rest


def as_tuple(states):
  return (states,) if isinstance(states, nnx.State) else tuple(states)
