"""C18 Flax serialization of pytree objects round-trips."""
import copy

import jax
import jax.numpy as jnp
import numpy as np
from flax import serialization
from hypothesis import strategies as st

import nnx
from vlib import pytrees as T
from vlib.driver import Check

RULE = (
    "Cases: an object layout (as in C16, plus fields that are not in __init__; nested objects as attributes, in node fields, "
    "in lists and dicts in node fields), node values of a source and of a target of the same layout, restoring from the "
    "state dict or from bytes, inside a surrounding list or dict, and a perturbation (a field removed or added in any "
    "object at any depth). Oracle: a dictionary model of the state dict, and the target's model with the source's node "
    "values. Non-trivial: the object has a node field and the values differ, or the dict is perturbed."
)


@st.composite
def cases(draw):
  spec = draw(T.objects())
  return {
      "o": spec, "shift": draw(st.integers(0, 4)), "bytes": draw(st.booleans()), "outer": draw(st.sampled_from([None, None, "list", "dict"])),
      "bad": draw(st.one_of(st.none(), st.tuples(st.sampled_from(["missing", "unknown"]), st.integers(0, 9), st.integers(0, 39)).map(list))),
      "alt": draw(st.sampled_from([None, None, *sorted(T.ALT), "swap", "none", "none"])),
      "hidden": draw(st.sampled_from([None, None, None, "node_field", "param_field"])),
  }


def shifted(v, k):
  """The same layout with other node values."""
  t = v[0]
  if t in ("arr", "np", "tree"):
    return [t, v[1] + k]
  if t == "sub":
    return ["sub", v[1], [[n, shifted(x, k)] for n, x in v[2]]]
  if t == "forest":
    return ["forest", [shifted(x, k) for x in v[1]]]
  if t == "cont" and v[1] != "Static":
    return ["cont", v[1], v[2], payload(v[3], k)]
  if t == "cm":
    return ["cm", v[1], payload(v[2], k)]
  return v


def payload(v, k):
  if v[0] == "py" and v[1] is not None and not isinstance(v[1], bool):
    return ["py", v[1] + k]
  return shifted(v, k)


def state_of(attrs):
  return {n: value_state(m[3] if m[0] == "cont" else m[1]) for n, m in attrs.items() if T.is_node(m)}


def value_state(v):
  if isinstance(v, T.M):
    return state_of(v.attrs)
  if isinstance(v, list):
    return {str(i): value_state(x) for i, x in enumerate(v)}
  if isinstance(v, dict):
    return {k: value_state(x) for k, x in v.items()}
  return v


def object_dicts(attrs, state, out):
  """The dicts of the state dict that stand for pytree objects."""
  out.append(state)
  for n, m in attrs.items():
    if T.is_node(m):
      value_dicts(m[3] if m[0] == "cont" else m[1], state[n], out)
  return out


def value_dicts(v, state, out):
  if isinstance(v, T.M):
    object_dicts(v.attrs, state, out)
  elif isinstance(v, (list, dict)):
    for i, x in (enumerate(v) if isinstance(v, list) else v.items()):
      value_dicts(x, state[str(i)], out)


def merged(target, source, f):
  """The target with the node values of the source; f: what serialization does to a leaf."""
  return {n: merged_attr(target[n], source[n], f) for n in target}


def merged_attr(t, s, f):
  if not T.is_node(t):
    return t
  if t[0] == "cont":
    return ("cont", t[1], t[2], merged_value(t[3], s[3], f))
  return ("raw", merged_value(t[1], s[1], f))


def merged_value(t, s, f):
  if isinstance(t, T.M):
    return T.M(t.cls, merged(t.attrs, s.attrs, f))
  if isinstance(t, list):
    return [merged_value(a, b, f) for a, b in zip(t, s)]
  if isinstance(t, dict):
    return {k: merged_value(t[k], s[k], f) for k in t}
  return f(s)


def altered(v, alt):
  """The same layout with arrays of another dtype, shape or kind."""
  if alt == "none" and v[0] in ("arr", "np", "sub", "forest"):
    # None is a node value inside a container only
    return v if v[0] in ("arr", "np") else [*v[:1], *v[1:-1], [[n, altered(x, alt)] for n, x in v[2]] if v[0] == "sub" else [altered(x, alt) for x in v[1]]]
  if alt == "none" and v[0] == "cont" and v[1] != "Static" and v[3][0] in ("arr", "np", "py"):
    return ["cont", v[1], v[2], ["py", None]]
  if v[0] in ("arr", "np"):
    return [{"arr": "np", "np": "arr"}[v[0]], v[1]] if alt == "swap" else [v[0], v[1], alt]
  if v[0] == "sub":
    return ["sub", v[1], [[n, altered(x, alt)] for n, x in v[2]]]
  if v[0] == "forest":
    return ["forest", [altered(x, alt) for x in v[1]]]
  if v[0] == "cont" and v[1] != "Static":
    return ["cont", v[1], v[2], altered(v[3], alt)]
  return v


def build(case, k, alt=None):
  spec = dict(case["o"], values=[[n, shift_field(case, n, v, k)] for n, v in case["o"]["values"]])
  if alt:
    roles = dict(map(tuple, spec["roles"]))
    spec["values"] = [[n, v if roles[n] == "static_field" else altered(v, alt)] for n, v in spec["values"]]
  if case["hidden"] is None or spec["form"] == "plain":
    return (*T.build(spec), T.class_of(spec))
  base = T.class_of(spec)
  cls = hidden_class(base, case["hidden"], spec["form"] == "frozen")
  made = {n: T.make(v) for n, v in spec["values"]}
  roles = dict(map(tuple, spec["roles"]))
  attrs = {n: T.declared(roles[n], m) for n, (_, m) in made.items()}
  obj = cls(**{n: r for n, (r, _) in made.items()})
  kind, meta = T.DECLARED[case["hidden"]]
  attrs["h"] = ("cont", kind, meta, 7)
  return obj, attrs, cls


HIDDEN = {}


def hidden_class(base, role, frozen):
  if (base, role) not in HIDDEN:
    deco = nnx.dataclass(frozen=True) if frozen else nnx.dataclass
    ns = {"__annotations__": {"h": int}, "h": getattr(nnx, role)(default=7, init=False)}
    HIDDEN[base, role] = deco(type(base)("Hidden", (base,), ns))
  return HIDDEN[base, role]


def shift_field(case, n, v, k):
  role = dict(map(tuple, case["o"]["roles"]))[n]
  if role in ("field", "bare"):
    return shifted(v, k)
  return v if role == "static_field" else payload(v, k)


def run(case, rec):
  source, s_attrs, cls = build(case, case["shift"], case.get("alt"))
  rec.tag("arrays of another dtype, shape or kind", bool(case.get("alt")))
  target, t_attrs, _ = build(case, 0)
  if case["hidden"] and case["o"]["form"] != "plain":
    # a value that the class does not start with
    source = jax.tree_util.tree_map(lambda x: x, source)
    vars(source)["h"] = vars(source)["h"].replace(value=7 + case["shift"])
    kind, meta = T.DECLARED[case["hidden"]]
    s_attrs["h"] = ("cont", kind, meta, 7 + case["shift"])
    rec.tag("field outside __init__")
  rec.tag(case["o"]["form"])
  state = serialization.to_state_dict(source)
  T.same_value(state, state_of(s_attrs), "state dict")
  T.same_object(source, cls, s_attrs, "source")
  nodes = any(T.is_node(m) for m in t_attrs.values())

  def numpied(x):
    return np.asarray(x) if isinstance(x, jax.Array) else x

  if case["bad"] is not None:
    kind, i, j = case["bad"]
    dicts = object_dicts(s_attrs, state, [])
    d = dicts[i % len(dicts)]
    if kind == "unknown":
      # also names of static fields, methods and internals
      names = [n for n in T.NAMES + ["u", "c", "Z", "replace", "_pytree__sorted_fields", "zz", "", "__class__"] if n not in d]
      name = (["zz"] + names)[j % (len(names) + 1)]
      rec.tag("unknown field of the object", name in s_attrs)
      d[name] = [1, None, {}, np.zeros(2)][(i + j) % 4]
    elif d:
      del d[sorted(d)[j % len(d)]]
    else:
      return
    rec.nt(True)
    rec.tag(kind + (" nested" if i % len(dicts) else ""))
    before = snapshot(state)
    try:
      serialization.from_state_dict(target, state)
    except ValueError:
      T.same_object(target, cls, t_attrs, "target")
      assert snapshot(state) == before, "the dict was modified"
      return
    raise AssertionError(f"a dict with a {kind} field was accepted")

  before = snapshot(state)
  outer = {"list": lambda x: [x, 3], "dict": lambda x: {"o": x, "n": jnp.zeros(2)}}.get(case["outer"], lambda x: x)
  inner = {"list": lambda x: x[0], "dict": lambda x: x["o"]}.get(case["outer"], lambda x: x)
  if case["bytes"]:
    out = inner(serialization.from_bytes(outer(target), serialization.to_bytes(outer(source))))
    f = numpied
  elif case["outer"]:
    out = inner(serialization.from_state_dict(outer(target), serialization.to_state_dict(outer(source))))
    f = lambda x: x
  else:
    out = serialization.from_state_dict(target, state)
    f = lambda x: x
  T.same_object(out, cls, merged(t_attrs, s_attrs, f), "restored")
  T.same_object(target, cls, t_attrs, "target")
  T.same_object(source, cls, s_attrs, "source")
  assert snapshot(state) == before, "the dict was modified"
  if not case["bytes"]:
    structure = lambda x: jax.tree_util.tree_structure(x, is_leaf=lambda v: v is None)
    assert structure(out) == structure(target), "structure of the restored object"
  rec.nt(nodes and case["shift"] > 0)
  rec.tag("bytes", case["bytes"])
  rec.tag("nested objects", "'sub'" in str(case["o"]["values"]))


def snapshot(state):
  if isinstance(state, dict):
    return [(k, snapshot(v)) for k, v in state.items()]
  return id(state)


@st.composite
def large_cases(draw):
  return {**draw(cases()), "o": draw(T.large()), "bad": draw(st.one_of(st.none(), st.tuples(st.sampled_from(["missing", "unknown"]), st.integers(0, 60), st.integers(0, 150)).map(list)))}


def run_large(case, rec):
  """Many fields, deep nesting."""
  run({**case, "o": T.large_spec(case["o"])}, rec)



CHECKS = [
    Check("roundtrips", cases, run, quick=3000, thorough=60000),
    Check("large", large_cases, run_large, quick=60, thorough=800),
]
