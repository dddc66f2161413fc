"""Module graphs: JSON specs, construction, reference walks, canonical descriptions."""
import random

from hypothesis import strategies as st

import nnx
from vlib import values as V

NAMES = [
    "a", "b", "c", "aa", "a_b", "A", "z", "_p", "w", "kernel", "value", "type", "x1", "x10", "x2", "10", "2", "a.b",
    "é", "a__b", "__m", "accessor",
]

# ------------------------------------------------------------------ generation


@st.composite
def graphs(
    draw, max_mods=6, max_attrs=4, classes=("A", "A", "B", "Sub", "Data", "Dict", "Seq"), unbox=True,
    nested=True, static=True, unhashable=False, cycles=True, leaf=None, names=None,
):
  n = draw(st.integers(1, max_mods))
  leaf = leaf if leaf is not None else V.leaves(unbox, nested, static, unhashable)
  names = names or NAMES
  mods = []
  for i in range(n):
    cls = draw(st.sampled_from(list(classes)))
    attrs = draw(
        st.lists(st.tuples(st.sampled_from(names), leaf), max_size=max_attrs, unique_by=lambda t: t[0])
    )
    mods.append({"cls": cls, "attrs": [list(t) for t in attrs]})

  def put(m, name, val):
    for a in m["attrs"]:
      if a[0] == name:
        a[1] = val
        return
    m["attrs"].insert(draw(st.integers(0, len(m["attrs"]))), [name, val])

  for i in range(1, n):  # every module reachable
    p = draw(st.integers(0, i - 1))
    put(mods[p], draw(st.sampled_from(names[:9])) + f"_{i}", ["mod", i])
  extra = draw(st.integers(0, 4))
  for _ in range(extra):
    src = draw(st.integers(0, n - 1))
    dst = draw(st.integers(0 if cycles else src, n - 1))
    if not cycles and dst <= src:
      continue
    near = [a[0] for a in mods[src]["attrs"]]
    if near and draw(st.integers(0, 2)) == 0:  # names and paths have different orders
      name = draw(st.sampled_from(near)) + draw(st.sampled_from(["-", ".", " "])) + "s"
    else:
      name = draw(st.sampled_from(names[:9])) + "_s"
    put(mods[src], name, ["mod", dst])
  for m in mods:
    if m["cls"] == "Seq":  # a sequence numbers its elements
      if len(m["attrs"]) == 0:
        m["attrs"].append(["0", ["val", ["s", 1]]])
      m["attrs"] = [[str(j), a[1]] for j, a in enumerate(m["attrs"])]
  return {"mods": mods}


@st.composite
def large(draw):
  """Parameters of a graph far larger than the generated ones (expanded by large_spec)."""
  return {
      "kind": draw(st.sampled_from(["chain", "wide", "tree", "dag", "attrs"])), "n": draw(st.sampled_from([20, 40, 70, 110, 140, 270, 300])),
      "seed": draw(st.integers(0, 99)), "extra": draw(st.sampled_from([0, 1, 5, 30])),
  }


def large_spec(params, classes=("A", "A", "B", "Sub", "Dict")):
  kind, n, rng = params["kind"], params["n"], random.Random(params["seed"])
  if kind == "chain":
    n = min(n, 110)
  leaves = [
      ["var", "Param", ["s", 1.5], []], ["var", "BatchStat", ["j", "f", [2], 1], []], ["val", ["s", 3]], ["val", ["s", "text"]],
      ["var", "Cache", ["s", 2], [["note", ["s", "x"]]]], ["val", ["j", "f", [], 2]], ["Static", ["s", 4]],
  ]
  leaves = [a for a in leaves if V.make_leaf(a) is not None]
  count = 2 if kind == "attrs" else n
  mods = [{"cls": rng.choice(classes), "attrs": []} for _ in range(count)]
  for i, m in enumerate(mods):
    for k in range(n if kind == "attrs" else rng.choice([0, 1, 1, 2, 3])):
      leaf = [*rng.choice(leaves)]
      m["attrs"].append([rng.choice("abwz") + str(k), leaf])
  for i in range(1, count):
    p = {"chain": i - 1, "wide": 0, "tree": (i - 1) // 3, "attrs": 0}.get(kind, rng.randrange(i))
    mods[p]["attrs"].append([f"{rng.choice('mno')}_{i}", ["mod", i]])
  for k in range(params["extra"]):
    mods[rng.randrange(count)]["attrs"].append([f"s_{k}", ["mod", rng.randrange(count)]])
  for m in mods:
    rng.shuffle(m["attrs"])
  return {"mods": mods}


def tree_only(spec):
  return all(True for _ in spec["mods"])


# ------------------------------------------------------------------ construction


def _blank(m):
  cls = m["cls"]
  if cls == "Seq":
    return nnx.Sequence([0] * len(m["attrs"]))
  if cls == "Data":
    return V.DataMod()
  return V.CLASSES[cls]()


def build(spec, root=0, order=None):
  """Builds the graph and returns the root (all modules exist before any attribute is set).

  order: optional list of per-module permutations of attribute positions."""
  objs = build_all(spec, order)
  return objs[root]


def build_all(spec, order=None):
  objs = [_blank(m) for m in spec["mods"]]
  for i, m in enumerate(spec["mods"]):
    attrs = m["attrs"]
    if order is not None:
      attrs = [attrs[j] for j in order[i]]
    for name, a in attrs:
      if m["cls"] == "Data" and name in DATA_FIELDS:
        # a declared field holds a container of its own kind: a fresh attribute is what the spec means
        vars(objs[i]).pop(name, None)
      if a[0] == "mod":
        setattr(objs[i], name, objs[a[1]])
      else:
        setattr(objs[i], name, V.make_leaf(a))
  return objs


DATA_FIELDS = {
    "width": ["Static", ["s", 3]],
    "plain": ["val", ["s", 7]],
    "w": ["var", "Param", ["s", 1.5], []],
    "nodev": ["var", "Node", ["s", 2.5], []],
}


_seq_extra = {}


def seq_extra(n):
  """What a sequence of n elements holds besides them (its length)."""
  if n not in _seq_extra:
    have = attrs_of(nnx.Sequence([0] * n))
    _seq_extra[n] = {k: ["val", ["s", v]] for k, v in have.items() if not k.isdigit()}
  return _seq_extra[n]


def full_attrs(m):
  """name -> attribute spec, including what the class itself adds."""
  if isinstance(m["attrs"], dict):  # an edited model: explicit
    return m["attrs"]
  d = {}
  if m["cls"] == "Data":
    d.update(DATA_FIELDS)
  for name, a in m["attrs"]:
    d[name] = a
  if m["cls"] == "Seq":
    d.update(seq_extra(len(m["attrs"])))
  return d


# ------------------------------------------------------------------ reference


def ref_state(spec, root=0):
  """path -> leaf spec, by the documented walk: depth first, attribute-name order, first path wins."""
  out = {}
  seen = set()

  def walk(i, path):
    if i in seen:
      return
    seen.add(i)
    d = full_attrs(spec["mods"][i])
    for name in sorted(d):
      a = d[name]
      if a[0] == "mod":
        walk(a[1], path + (name,))
      elif V.is_node_spec(a):
        out["/".join(path + (name,))] = a

  walk(root, ())
  return out


def ref_first_paths(spec, root=0):
  """module index -> canonical path parts, in visiting order."""
  out = {}

  def walk(i, path):
    if i in out:
      return
    out[i] = path
    d = full_attrs(spec["mods"][i])
    for name in sorted(d):
      if d[name][0] == "mod":
        walk(d[name][1], path + (name,))

  walk(root, ())
  return out


def ref_canon(spec, root=0, loose=False, leaf=V.d_leaf_spec):
  """What canon() must give for the graph built from spec."""
  order = list(ref_first_paths(spec, root))
  num = {i: k for k, i in enumerate(order)}
  out = []
  for i in order:
    m = spec["mods"][i]
    d = full_attrs(m)
    out.append((
        V.CLASSES[m["cls"]].__name__,
        tuple(
            (name, ("mod", num[d[name][1]]) if d[name][0] == "mod" else leaf(d[name], loose))
            for name in sorted(d)
        ),
    ))
  return tuple(out)


def model_of(spec):
  """A mutable reference model (explicit attributes) of a graph spec."""
  return {"mods": [{"cls": m["cls"], "attrs": dict(full_attrs(m))} for m in spec["mods"]]}


def locate(model, parts, root=0):
  """Module index reached by following attribute names."""
  i = root
  for name in parts:
    a = model["mods"][i]["attrs"][name]
    assert a[0] == "mod", parts
    i = a[1]
  return i


def attrs_of(module):
  return {k: v for k, v in vars(module).items() if not k.startswith("_module__")}


def walk_modules(module):
  """Every reachable module object once, depth first in attribute-name order."""
  seen = {}
  out = []
  stack = [module]

  def rec(m):
    if id(m) in seen:
      return
    seen[id(m)] = len(out)
    out.append(m)
    for name in sorted(attrs_of(m)):
      v = vars(m)[name]
      if isinstance(v, nnx.Module):
        rec(v)

  rec(module)
  del stack
  return out, seen


def canon(module, loose=False):
  """Exact description of a live module graph up to isomorphism (identity by python object)."""
  mods, seen = walk_modules(module)
  return tuple(
      (
          type(m).__name__,
          tuple((k, V.desc(v, lambda x: seen[id(x)], loose)) for k, v in sorted(attrs_of(m).items())),
      )
      for m in mods
  )


def d_state(state, loose=False):
  return tuple((k, V.desc(v, None, loose)) for k, v in state.items())


def ref_d_state(entries, loose=False):
  """entries: mapping path -> leaf spec."""
  return tuple((k, V.d_leaf_spec(entries[k], loose)) for k in sorted(entries))


def first_diff(a, b, path=""):
  """Short text locating the first difference of two nested tuples."""
  if type(a) is tuple and type(b) is tuple:
    if len(a) != len(b):
      return f"{path}: lengths {len(a)} != {len(b)}: {str(a)[:300]} vs {str(b)[:300]}"
    for i, (x, y) in enumerate(zip(a, b)):
      if x != y:
        return first_diff(x, y, f"{path}.{i}")
  return f"{path}: {str(a)[:300]} vs {str(b)[:300]}"


def same(a, b, what):
  if a != b:
    raise AssertionError(f"{what}: {first_diff(a, b)}")
