"""C06 Compiled code is reused exactly when the structure is the same."""
import copy
import zlib

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import filters as F
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: two module graphs that are the same up to attribute order and leaf values or differ in one respect (class, "
    "static value, attribute name, variable kind, metadata, Static wrapping, aliasing of one reference, initialization "
    "mode of one subgraph), or two random wirings of identical modules, or one live module edited (nested static values, attributes, links, "
    "values, mode) between calls of the same compiled functions. The reference decides whether they have the "
    "same structure. Non-trivial: the pair differs in a respect of a module that is not the root, or is equal but built "
    "in another order or with other values, and has at least two modules; a history has an edit below the root."
)

ASSUMPTIONS = [
    "static attributes are compared with Python equality, as jax does for static arguments (1, True and 1.0 are equal)",
]

METHOD_CLASSES = ("A", "B", "Sub")

# ------------------------------------------------------------------ reference structure


def abstract_value(v):
  """Structure of a leaf value (arrays and scalars are leaves of it)."""
  t = v[0]
  if t == "s":
    return None if v[1] is None else "*"
  if t == "tup":
    return ("tuple", tuple(abstract_value(x) for x in v[1]))
  if t == "dic":
    return ("dict", tuple(sorted((k, abstract_value(x)) for k, x in v[1])))
  return "*"


class Eq:
  """A static value compared with Python equality (functions and types by identity)."""

  def __init__(self, v):
    self.v = v

  def __eq__(self, other):
    return isinstance(other, Eq) and self.v == other.v

  def __repr__(self):
    return f"Eq({self.v!r})"


def abstract_leaf(a, loose=False):
  t = a[0]
  if t == "var":
    meta = V.make_meta(a[3])
    if a[1] != "Node":
      meta.setdefault("sharding", None)
    return ("node", a[1], Eq(meta), abstract_value(a[2]))
  if t == "Static":
    return ("static", "Static", Eq(V.make_value(a[1])))
  if t == "pt":
    return ("node", "PT", Eq(V.make_value(a[2])), abstract_value(a[1]))
  if t == "state":
    return ("node", "State", tuple(sorted(((k, abstract_leaf(x)) for k, x in a[1]), key=lambda t: t[0])))
  if a[1][0] in ("j", "n"):
    return ("node", "array")
  return ("static", "plain", Eq(V.make_value(a[1])))


def abstract(spec, init=None):
  """(structure of the whole, structure the definition has to show)."""
  order = list(G.ref_first_paths(spec))
  inits = set(G.ref_first_paths(spec, init)) if init is not None else set()
  whole = tuple(
      (m, i in inits) for m, i in zip(G.ref_canon(spec, leaf=abstract_leaf), order)
  )
  definition = tuple(
      ((cls, tuple(a for a in attrs if a[1][0] != "node")), flag) for (cls, attrs), flag in whole
  )
  return whole, definition


def avals(spec):
  """Shapes and dtypes of all leaves of the state, in order."""
  out = []

  def val(v):
    t = v[0]
    if t == "s":
      if v[1] is not None:
        out.append(("py", type(v[1]).__name__))
    elif t == "tup":
      for x in v[1]:
        val(x)
    elif t == "dic":
      for _, x in sorted(v[1], key=lambda t: t[0]):
        val(x)
    else:
      out.append((v[1], tuple(v[2])))

  def leaf(a):
    if a[0] == "var":
      val(a[2])
    elif a[0] == "state":
      for _, x in sorted(a[1], key=lambda t: t[0]):
        leaf(x)
    else:
      val(a[1])

  st_ = G.ref_state(spec)
  for k in sorted(st_):
    leaf(st_[k])
  return out


# ------------------------------------------------------------------ pairs


LEAF = st.one_of(
    V.variables(values=st.one_of(V.arrays("jn", "fi", [[], [2]]), V.arrays("j", "f", [[2]]).map(lambda v: ["tup", [v]]))),
    V.variables(values=V.arrays("jn", "fi", [[], [2]])),
    V.arrays("jn", "fi", [[], [2]]).map(lambda v: ["val", v]),
    V.statics.map(lambda v: ["val", v]),
    V.statics.map(lambda v: ["val", v]),
    V.statics.map(lambda v: ["Static", v]),
    st.tuples(V.arrays("j", "f", [[2]]), V.statics).map(lambda t: ["pt", t[0], t[1]]),
)

EDITS = [
    "none", "values", "class", "static", "rename", "kind", "meta", "wrap", "unshare", "drop", "add", "redirect", "none",
    "init", "init",
]


def reseed(x, k):
  if isinstance(x, list):
    if len(x) == 4 and x[0] in ("j", "n") and isinstance(x[3], int):
      return [x[0], x[1], x[2], (x[3] + k) % 23]
    return [reseed(y, k) for y in x]
  return x


@st.composite
def pairs(draw):
  g = draw(G.graphs(max_mods=4, max_attrs=3, classes=("A", "A", "B", "Sub", "Dict"), leaf=LEAF))
  g["mods"][0]["cls"] = draw(st.sampled_from(METHOD_CLASSES))
  h = copy.deepcopy(g)
  edit = draw(st.sampled_from(EDITS))
  i = draw(st.integers(0, len(h["mods"]) - 1))
  m = h["mods"][i]
  attr = draw(st.integers(0, max(len(m["attrs"]) - 1, 0)))
  a = m["attrs"][attr] if m["attrs"] else None
  init = None
  if edit == "class":
    m["cls"] = draw(st.sampled_from([c for c in ("A", "B", "Sub", "Dict") if c != m["cls"]])) if i else draw(
        st.sampled_from(METHOD_CLASSES)
    )
  elif edit == "init":
    init = i
    m["cls"] = g["mods"][i]["cls"] = draw(st.sampled_from(METHOD_CLASSES))
  elif edit == "add":
    m["attrs"].append(["extra", draw(st.one_of(V.statics.map(lambda v: ["val", v]), LEAF))])
  elif edit == "unshare":
    targets = [x[1][1] for mm in h["mods"] for x in mm["attrs"] if x[1][0] == "mod"]
    shared = [t for t in targets if targets.count(t) > 1]
    if shared:
      t = draw(st.sampled_from(shared))
      h["mods"].append(copy.deepcopy(h["mods"][t]))
      refs = [x for mm in h["mods"][:-1] for x in mm["attrs"] if x[1] == ["mod", t]]
      draw(st.sampled_from(refs))[1] = ["mod", len(h["mods"]) - 1]
  elif a is not None:
    x = a[1]
    if edit == "static":
      if x[0] in ("Static", "val") and not V.is_node_spec(x):
        a[1] = [x[0], draw(V.statics)]
      else:
        a[1] = ["val", draw(V.statics)]
    elif edit == "rename":
      a[0] = a[0] + draw(st.sampled_from(["_", "1", "z"]))
    elif edit == "kind" and x[0] == "var":
      a[1] = ["var", draw(st.sampled_from(sorted(set(V.KINDS) - {"Node"}))), x[2], x[3]]
    elif edit == "meta" and x[0] == "var":
      a[1] = ["var", x[1], x[2], draw(V.metadata(True))]
    elif edit == "wrap" and x[0] in ("val", "Static") and not V.is_node_spec(x):
      a[1] = ["Static" if x[0] == "val" else "val", x[1]]
    elif edit == "drop" and x[0] != "mod":
      m["attrs"].pop(attr)
    elif edit == "redirect" and x[0] == "mod":
      a[1] = ["mod", draw(st.integers(0, len(h["mods"]) - 1))]
  return {
      "g": g, "h": reseed(h, draw(st.integers(0, 5))), "edit": edit, "i": i, "init": init,
      "perm": draw(st.integers(0, 255)), "fs": draw(st.one_of(st.none(), F.filter_lists(exhaustive=True, max_size=2))),
  }


def order_of(spec, k):
  """Reversed attribute order for the modules whose bit is set in k."""
  return [
      list(range(len(m["attrs"])))[::-1] if (k >> (i % 8)) % 2 else list(range(len(m["attrs"])))
      for i, m in enumerate(spec["mods"])
  ]


def in_mode(objs, init, fn):
  """fn(root) while the subgraph of module `init` is being initialized (or plainly)."""
  if init is None:
    return fn(objs[0])
  return objs[init].init.run_fn(lambda _: fn(objs[0]))


def live_structure(m):
  """Checksum of the structure a function sees at trace time (through public attributes of the live module)."""
  mods, seen = G.walk_modules(m)
  out = []
  for x in mods:
    attrs = []
    for k, v in sorted(G.attrs_of(x).items()):
      if isinstance(v, nnx.Module):
        attrs.append((k, "mod", seen[id(v)]))
      elif isinstance(v, (jax.Array, np.ndarray)):
        attrs.append((k, "array"))
      elif isinstance(v, nnx.Static):
        attrs.append((k, "Static", V.desc(v.value)))
      elif isinstance(v, nnx.Container):
        attrs.append((k, type(v).__name__, V.desc({n: y for n, y in vars(v).items() if n != "value"})))
      elif isinstance(v, nnx.Pytree):
        attrs.append((k, "PT", V.desc(v.s)))
      else:
        attrs.append((k, V.desc(v)))
    out.append((type(x).__name__, x.is_initializing, tuple(attrs)))
  return zlib.crc32(repr(out).encode()) % (1 << 31)


def check_pair(rec, objs1, objs2, init, fs, equal, def_equal, same_avals):
  fs = None if fs is None else [F.make(f) for f in fs]

  def split(m):
    return m.partition() if fs is None else m.partition(*fs)

  p1, d1, c1 = split(objs1[0]), objs1[0].get_module_def(), live_structure(objs1[0])
  p2, d2, c2 = in_mode(objs2, init, lambda r: (split(r), r.get_module_def(), live_structure(r)))
  assert (d1 == d2) is def_equal, f"definitions equal: {d1 == d2}, expected {def_equal}"
  assert (d2 == d1) is def_equal and (d1 != d2) is (not def_equal)
  t1, t2 = jtu.tree_structure(p1), jtu.tree_structure(p2)
  assert (t1 == t2) is equal, f"tree structures equal: {t1 == t2}, expected {equal}"
  if def_equal:
    assert hash(d1) == hash(d2), "equal definitions with different hashes"
    assert len({d1, d2}) == 1
  traces = []

  @jax.jit
  def f(pure):
    traces.append(1)
    return jnp.uint32(live_structure(pure.merge()))

  for p, c, what in ((p1, c1, "first"), (p2, c2, "second"), (p1, c1, "first again"), (p2, c2, "second again")):
    got = int(f(p))
    assert got == c, f"jax.jit: the {what} module ran code compiled for another structure"
  want = 1 if equal and same_avals else 2
  assert len(traces) == want, f"jax.jit traced {len(traces)} times, expected {want}"

  traces2 = []

  def body(m):
    traces2.append(1)
    return jnp.uint32(live_structure(m))

  g = nnx.jit(body, stateful=False)
  for k in range(2):
    got = int(g(objs1[0]))
    assert got == c1, "nnx.jit: the first module ran code compiled for another structure"
    got = int(in_mode(objs2, init, lambda r: g(r)))
    assert got == c2, "nnx.jit: the second module ran code compiled for another structure"
  assert len(traces2) == want, f"nnx.jit traced {len(traces2)} times, expected {want}"


def run(case, rec):
  g, h, init = case["g"], case["h"], case["init"]
  a1, a2 = abstract(g), abstract(h, init)
  equal, def_equal = a1[0] == a2[0], a1[1] == a2[1]
  rec.tag(f"edit:{case['edit']}")
  rec.tag("same structure" if equal else "different structure")
  rec.tag("same definition, different nodes", def_equal and not equal)
  rec.nt(len(G.ref_first_paths(g)) > 1 and (case["i"] > 0 or equal))
  check_pair(
      rec, G.build_all(g), G.build_all(h, order_of(h, case["perm"])), init, case["fs"], equal, def_equal,
      avals(g) == avals(h),
  )


# ------------------------------------------------------------------ wirings


@st.composite
def wirings(draw):
  n = draw(st.integers(1, 4))
  names = draw(st.sampled_from([["a"], ["a", "b"], ["a", "b", "c"]]))
  edge = st.tuples(*[st.one_of(st.none(), st.integers(0, n - 1)) for _ in names]).map(list)
  g = draw(st.lists(edge, min_size=n, max_size=n))
  h = draw(st.one_of(st.lists(edge, min_size=n, max_size=n), st.just(copy.deepcopy(g))))
  k = draw(st.integers(0, n - 1))
  if draw(st.booleans()):  # a copy with one edge changed
    h = copy.deepcopy(g)
    h[k][draw(st.integers(0, len(names) - 1))] = draw(st.one_of(st.none(), st.integers(0, n - 1)))
  elif draw(st.booleans()):  # the same graph with modules numbered differently
    p = draw(st.permutations(range(1, n)))
    p = [0, *p]
    h = [None] * n
    for i in range(n):
      h[p[i]] = [None if e is None else p[e] for e in g[i]]
  return {
      "names": names, "g": g, "h": h, "leaf": draw(st.booleans()), "init": draw(st.one_of(st.none(), st.none(), st.just(k))),
      "perm": draw(st.integers(0, 255)),
  }


def wire(names, edges, leaf):
  mods = []
  for e in edges:
    attrs = [[n, ["mod", t]] for n, t in zip(names, e) if t is not None]
    if leaf:
      attrs.append(["w", ["var", "Param", ["j", "f", [], 1], []]])
    mods.append({"cls": "A", "attrs": attrs})
  return {"mods": mods}


def run_wirings(case, rec):
  g, h = (wire(case["names"], case[k], case["leaf"]) for k in "gh")
  a1, a2 = abstract(g), abstract(h, case["init"])
  equal, def_equal = a1[0] == a2[0], a1[1] == a2[1]
  rec.tag("same structure" if equal else "different structure")
  sizes = len(G.ref_first_paths(g)), len(G.ref_first_paths(h))
  rec.tag("same number of modules, different wiring", sizes[0] == sizes[1] and not equal and case["init"] is None)
  rec.nt(min(sizes) > 1)
  check_pair(
      rec, G.build_all(g), G.build_all(h, order_of(h, case["perm"])), case["init"], None, equal, def_equal,
      len(G.ref_state(g)) == len(G.ref_state(h)),
  )


# ------------------------------------------------------------------ one live module, edited between calls


@st.composite
def histories(draw):
  g = draw(G.graphs(max_mods=4, max_attrs=3, classes=("A", "A", "B", "Sub", "Dict"), leaf=LEAF))
  edit = st.tuples(
      st.sampled_from(["call", "call", "static", "static", "value", "add", "del", "link", "unlink", "mode", "undo"]),
      st.integers(0, 7), st.integers(0, 7), st.integers(0, 2),
  )
  return {"g": g, "ops": draw(st.lists(edit, min_size=4, max_size=12))}


def structure_key(m):
  """Everything a function can see of a module at trace time, with the shapes and types of its arrays."""
  mods, seen = G.walk_modules(m)
  out = []
  for x in mods:
    attrs = []
    for k, v in sorted(G.attrs_of(x).items()):
      if isinstance(v, nnx.Module):
        attrs.append((k, "mod", seen[id(v)]))
      elif nnx.is_node(v):
        leaves, tree = jtu.tree_flatten(v)
        attrs.append((k, str(tree), tuple((np.shape(l), str(jnp.asarray(l).dtype), jax.core.get_aval(l).weak_type) for l in leaves)))
      else:
        attrs.append((k, V.desc(v)))
    out.append((type(x).__name__, x.is_initializing, tuple(attrs)))
  return repr(out)


def run_histories(case, rec):
  root = G.build(case["g"])
  traces = {"jax": 0, "nnx": 0}

  @jax.jit
  def f(pure):
    traces["jax"] += 1
    return jnp.uint32(live_structure(pure.merge()))

  def body(m):
    traces["nnx"] += 1
    return jnp.uint32(live_structure(m))

  g = nnx.jit(body, stateful=False)
  keys, nested = set(), False
  undo = None

  def call(m):
    nonlocal undo
    keys.add(structure_key(m))
    want = live_structure(m)
    assert int(f(m.partition())) == want, "jax.jit ran code compiled for another structure"
    assert int(g(m)) == want, "nnx.jit ran code compiled for another structure"
    assert traces == {"jax": len(keys), "nnx": len(keys)}, f"{traces} traces for {len(keys)} structures"

  call(root)
  for kind, i, j, k in case["ops"]:
    mods, _ = G.walk_modules(root)
    m = mods[i % len(mods)]
    nested = nested or (i % len(mods) > 0 and kind not in ("call", "mode"))
    names = sorted(G.attrs_of(m))
    statics = [n for n in names if not isinstance(vars(m)[n], (nnx.Module, nnx.Container)) and not nnx.is_node(vars(m)[n])]
    if kind == "static":
      name = statics[j % len(statics)] if statics else f"stat_{j % 2}"
      undo = (m, name, vars(m).get(name))
      setattr(m, name, ("static", k))
    elif kind == "undo" and undo is not None and undo[2] is not None and not nnx.is_node(undo[2]):
      setattr(*undo)
    elif kind == "value":
      cands = [n for n in names if type(vars(m)[n]) in (nnx.Param, nnx.BatchStat) and isinstance(vars(m)[n].value, jax.Array)]
      if cands:
        v = vars(m)[cands[j % len(cands)]].value
        setattr(m, cands[j % len(cands)], jnp.asarray(np.asarray(v) * 0 + k, v.dtype))
    elif kind == "add":
      setattr(m, f"new_{j % 2}", nnx.Param(jnp.zeros((k,))))
    elif kind == "del" and names:
      if not isinstance(vars(m)[names[j % len(names)]], nnx.Module):
        delattr(m, names[j % len(names)])
    elif kind == "link":
      setattr(m, f"link_{k}", mods[j % len(mods)])
    elif kind == "unlink":
      if f"link_{k}" in vars(m):
        delattr(m, f"link_{k}")
    elif kind == "mode" and type(root).__name__ in ("ModA", "ModB", "ModSub"):
      root.init.run_fn(call)
    if kind != "mode":
      call(root)
  rec.nt(nested and len(keys) > 1)
  rec.tag("back to a structure seen before", len(keys) < len(case["ops"]) // 2)


# ------------------------------------------------------------------ structures far larger than the generated ones


@st.composite
def large_pairs(draw):
  return {
      "large": draw(G.large()), "edit": draw(st.sampled_from(["none", "none", "static", "rename", "class", "add", "drop", "redirect", "kind"])),
      "i": draw(st.integers(0, 300)), "j": draw(st.integers(0, 300)), "perm": draw(st.integers(0, 255)),
      "fs": draw(st.one_of(st.none(), F.filter_lists(exhaustive=True, max_size=2))),
  }


def run_large(case, rec):
  g = G.large_spec(case["large"])
  for m in g["mods"]:  # values that may differ without the structure differing are arrays
    for a in m["attrs"]:
      if a[1][0] in ("var", "val") and V.is_node_spec(a[1]):
        a[1] = [*a[1][:-1], ["j", "f", [2], 1]] if a[1][0] == "val" else [a[1][0], a[1][1], ["j", "f", [2], 1], a[1][3]]
  h = copy.deepcopy(g)
  edit, i = case["edit"], case["i"] % len(h["mods"])
  m = h["mods"][i]
  a = m["attrs"][case["j"] % len(m["attrs"])] if m["attrs"] else None
  if edit == "class":
    m["cls"] = "B" if m["cls"] != "B" else "A"
  elif edit == "add":
    m["attrs"].append(["extra", ["val", ["s", 1]]])
  elif a is not None:
    x = a[1]
    if edit == "static" and x[0] in ("Static", "val") and not V.is_node_spec(x):
      a[1] = [x[0], ["s", 77]]
    elif edit == "rename":
      a[0] += "_"
    elif edit == "kind" and x[0] == "var":
      a[1] = ["var", "CustomVar", x[2], x[3]]
    elif edit == "drop" and x[0] != "mod":
      m["attrs"].remove(a)
    elif edit == "redirect" and x[0] == "mod" and x[1] != i:
      a[1] = ["mod", i]
  run({"g": g, "h": h, "init": None, "edit": edit, "i": i, "perm": case["perm"], "fs": case["fs"]}, rec)



CHECKS = [
    Check("histories", histories, run_histories, quick=400, thorough=8000),
    Check("pairs", pairs, run, quick=1200, thorough=20000),
    Check("wirings", wirings, run_wirings, quick=1200, thorough=20000),
    Check("large", large_pairs, run_large, quick=24, thorough=300),
]
