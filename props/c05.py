"""C05 NNX data objects are lawful JAX pytrees."""
from hypothesis import strategies as st

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import nnx
from vlib import filters as F
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: a nested data object (variables and nodes with metadata, static containers, states, pytree objects with "
    "fields set in any order, split modules, definitions, split contexts, tuples of these) built twice in two "
    "construction orders, plus maps over it. Non-trivial: at least 2 leaves and at least one nested NNX object."
)

VALS = V.arrays("jn", "fib", [[], [2], [1, 3]])
KEYS = ["a", "b", "a/b", "a.c", "a b", "w", "x10", "x2", "A"]
FIELDS = ["x", "y", "z", "b", "a", "_q", "x10", "x2", "A", "B", "Z"]


def dic(keys, vals, max_size=4, min_size=1):
  return st.lists(st.tuples(st.sampled_from(keys), vals).map(list), min_size=min_size, max_size=max_size, unique_by=lambda t: t[0])


def contents_of(vals):
  return st.recursive(
      st.one_of(vals, vals, st.just(["s", None])),
      lambda ch: st.one_of(st.lists(ch, max_size=3).map(lambda x: ["tup", x]), dic("cab", ch).map(lambda x: ["dic", x])),
      max_leaves=3,
  )


def as_field(o):
  """A plain tuple or dict field is static data of the object, so arrays in it go into a container."""
  return ["box", "TreeNode", o, []] if o[0] in ("tuple", "map") or (o[0] == "raw" and o[1][0] in ("tup", "dic")) else o


def objects(vals=VALS, depth=2):
  base = st.one_of(
      st.tuples(st.sampled_from(sorted(V.KINDS) + ["TreeNode"]), contents_of(vals), st.booleans()).flatmap(
          lambda t: (V.metadata(True) if t[2] else st.just([])).map(
              lambda m: ["box", t[0], ["raw", t[1]], m]
          )
      ),
      vals.map(lambda v: ["raw", v]),
      V.statics.map(lambda v: ["Static", v]),
  )

  def ext(ch):
    return [
        dic(KEYS, ch).map(lambda x: ["State", x]),
        st.tuples(dic(FIELDS, st.one_of(ch.map(as_field), ch.map(as_field), V.statics.map(lambda v: ["static", v]))), st.booleans()).map(
            lambda t: ["pt", t[0], t[1]]
        ),
        st.tuples(st.sampled_from(["Param", "Node", "TreeNode", "Cache"]), ch).map(lambda t: ["box", t[0], t[1], []]),
        st.lists(ch, min_size=1, max_size=3).map(lambda x: ["tuple", x]),
        dic("bca", ch).map(lambda x: ["map", x]),
    ]

  lvl = base
  for _ in range(depth):
    lvl = st.one_of(base, *ext(lvl))
  return st.one_of(*ext(lvl)[:3], *ext(lvl))


class PTk(nnx.Pytree):
  def __init__(self, items):
    for k, v in items:
      setattr(self, k, v)


class PTm(nnx.Pytree, mutable=True):
  cls_attr = 3

  def __init__(self, items):
    for k, v in items:
      setattr(self, k, v)


BOXES = dict(V.KINDS)
BOXES["TreeNode"] = nnx.TreeNode


def build(o, rev=False):
  t = o[0]
  if t == "raw":
    return V.make_value(o[1])
  if t == "static":
    return V.make_value(o[1])
  if t == "Static":
    return nnx.Static(V.make_value(o[1]))
  if t == "box":
    v = build(o[2], rev)
    meta = V.make_meta(o[3])
    if isinstance(v, nnx.Container):  # a container inside a container: keep it as a nested value
      v = (v,)
    if rev:
      meta = dict(reversed(list(meta.items())))
    return BOXES[o[1]](v, **meta)
  if t == "State":
    items = [(k, build(x, rev)) for k, x in (reversed(o[1]) if rev else o[1])]
    return nnx.State(iter(items)) if rev else nnx.State(dict(items))
  if t == "pt":
    items = [(k, build(x, rev)) for k, x in (reversed(o[1]) if rev else o[1])]
    return (PTm if o[2] else PTk)(items)
  if t == "tuple":
    return tuple(build(x, rev) for x in o[1])
  if t == "map":
    return {k: build(x, rev) for k, x in (reversed(o[1]) if rev else o[1])}
  raise KeyError(t)


def is_node_obj(o):
  if o[0] == "raw":
    return o[1][0] in "jn"
  return o[0] in ("box", "State", "pt")


def value_leaves(v):
  t = v[0]
  if t == "s":
    return [] if v[1] is None else [V.d_value(v)]
  if t == "tup":
    return [x for e in v[1] for x in value_leaves(e)]
  if t == "dic":
    return [x for _, e in sorted(v[1], key=lambda t: t[0]) for x in value_leaves(e)]
  return [V.d_value(v)]


def ref_leaves(o):
  t = o[0]
  if t == "raw":
    return value_leaves(o[1])
  if t in ("static", "Static"):
    return []
  if t == "box":
    return ref_leaves(o[2])
  if t in ("State", "map"):
    return [x for _, e in sorted(o[1], key=lambda t: t[0]) for x in ref_leaves(e)]
  if t == "pt":
    return [x for _, e in sorted(o[1], key=lambda t: t[0]) if is_node_obj(e) for x in ref_leaves(e)]
  if t == "tuple":
    return [x for e in o[1] for x in ref_leaves(e)]
  raise KeyError(t)


def subst_value(v, f):
  t = v[0]
  if t == "s":
    return v if v[1] is None else f(v)
  if t == "tup":
    return ["tup", [subst_value(x, f) for x in v[1]]]
  if t == "dic":
    return ["dic", [[k, subst_value(x, f)] for k, x in v[1]]]
  return f(v)


def subst(o, f):
  """The spec after mapping f over its leaves."""
  t = o[0]
  if t == "raw":
    return ["raw", subst_value(o[1], f)]
  if t in ("static", "Static"):
    return o
  if t == "box":
    return ["box", o[1], subst(o[2], f), o[3]]
  if t in ("State", "map"):
    return [t, [[k, subst(x, f)] for k, x in o[1]]]
  if t == "pt":
    return ["pt", [[k, subst(x, f) if is_node_obj(x) else x] for k, x in o[1]], o[2]]
  if t == "tuple":
    return ["tuple", [subst(x, f) for x in o[1]]]
  raise KeyError(t)


def bare_field(o):
  t = o[0]
  if t == "pt":
    return any(x[0] == "raw" or bare_field(x) for _, x in o[1])
  if t in ("State", "map"):
    return any(bare_field(x) for _, x in o[1])
  if t == "tuple":
    return any(bare_field(x) for x in o[1])
  return t == "box" and bare_field(o[2])


def nested(o):
  return o[0] in ("State", "pt", "box") and str(o).count("'box'") + str(o).count("'State'") + str(o).count("'pt'") > 1


@st.composite
def cases(draw):
  return {"o": draw(objects())}


def run(case, rec):
  o = case["o"]
  x, y = build(o), build(o, rev=True)
  want = V.desc(x)
  expected = ref_leaves(o)
  rec.nt(len(expected) >= 2 and nested(o))
  for t in ("State", "pt", "box", "Static"):
    rec.tag(t, f"'{t}'" in str(o))
  leaves, tree = jtu.tree_flatten(x)
  G.same(tuple(V.desc(l) for l in leaves), tuple(expected), "leaves")
  # unflatten
  back = jtu.tree_unflatten(tree, leaves)
  assert type(back) is type(x)
  G.same(V.desc(back), want, "flatten and unflatten")
  leaves2, tree2 = jtu.tree_flatten(back)
  assert tree2 == tree, "structure of the rebuilt object"
  G.same(tuple(map(V.desc, leaves2)), tuple(expected), "leaves of the rebuilt object")
  # construction order does not matter
  ly, ty = jtu.tree_flatten(y)
  G.same(tuple(map(V.desc, ly)), tuple(expected), "leaves of the object built in another order")
  if not any_static_type(o):
    assert ty == tree and tree == ty, f"structure depends on construction order: {tree} {ty}"
  # key paths
  wp, treep = jtu.tree_flatten_with_path(x)
  G.same(tuple(V.desc(l) for _, l in wp), tuple(expected), "leaves with paths")
  assert treep == tree
  paths = [jtu.keystr(p) for p, _ in wp]
  assert len(set(paths)) == len(paths), f"key paths are not distinct: {paths}"
  check_paths(o, x, wp)
  # any leaves are accepted
  rec.tag("bare array field", bare_field(o))
  marks = [object() for _ in leaves]
  marked = jtu.tree_unflatten(tree, marks)
  got = jtu.tree_leaves(marked)
  assert len(got) == len(marks) and all(a is b for a, b in zip(got, marks)), "unflatten with opaque leaves"
  # map changes leaf values only and never the input
  new = ["s", "L"]
  mapped = jtu.tree_map(lambda l: V.make_value(new), x)
  G.same(V.desc(mapped), V.desc(build(subst(o, lambda v: new))), "tree_map")
  both = jtu.tree_map(lambda a, b: (V.desc(a) == V.desc(b)), x, y) if not any_static_type(o) else None
  if both is not None:
    assert all(jtu.tree_leaves(both)), "tree_map over two equal objects"
  G.same(V.desc(x), want, "input after mapping")
  # boxes are kept whole by is_leaf
  kept = jtu.tree_map(lambda c: c, x, is_leaf=lambda c: isinstance(c, nnx.Container))
  G.same(V.desc(kept), want, "map over containers")


def any_static_type(o):
  return False


def check_paths(o, x, wp):
  """Each key path leads to the leaf when followed through attributes, items and state entries."""
  for path, leaf in wp:
    cur = x
    for k in path:
      if isinstance(k, jtu.GetAttrKey):
        cur = vars(cur)[k.name]
      elif isinstance(k, jtu.DictKey):
        cur = cur[k.key]
      elif isinstance(k, jtu.SequenceKey):
        cur = cur[k.idx]
      elif isinstance(k, jtu.FlattenedIndexKey):
        cur = jtu.tree_leaves(cur, is_leaf=lambda z, c=cur: z is not c)[k.key]
      else:
        raise AssertionError(k)
    assert cur is leaf, f"key path {jtu.keystr(path)} does not lead to its leaf"


# ------------------------------------------------------------------ through transforms


@st.composite
def jax_cases(draw):
  vals = V.arrays("jn", "fi", [[2], [2, 2]])
  return {
      "o": draw(objects(vals, depth=1)),
      "t": draw(st.lists(st.sampled_from(["jit", "vmap", "scan", "jit", "cond"]), min_size=1, max_size=2)),
  }


def run_jax(case, rec):
  o = case["o"]
  x = build(o)
  if not isinstance(x, (nnx.State, nnx.Container, nnx.Pytree, tuple, dict)):
    x = (x,)
  before = V.desc(x)
  want = V.desc(x, None, loose=True)
  expected = ref_leaves(o)
  rec.nt(len(expected) >= 1 and nested(o))
  seen = []

  def body(v):
    seen.append(jtu.tree_structure(v))
    return jtu.tree_map(lambda l: l + 0, v)

  for t in case["t"]:
    rec.tag(t)
    if t == "jit":
      out = jax.jit(body)(x)
    elif t == "vmap":
      if not expected:
        continue
      out = jax.vmap(body)(x)
    elif t == "scan":
      out, _ = jax.lax.scan(lambda c, _: (body(c), None), x, None, length=2)
    else:
      out = jax.lax.cond(True, body, body, x)
    assert type(out) is type(x)
    G.same(V.desc(out, None, loose=True), want, f"through {t}")
    assert jtu.tree_structure(out) == jtu.tree_structure(x)
    for s in seen:
      assert s == jtu.tree_structure(x), f"structure seen inside {t}"
  G.same(V.desc(x), before, "input of the transforms")


# ------------------------------------------------------------------ split modules, definitions, contexts


@st.composite
def module_cases(draw):
  leaf = st.one_of(
      V.variables(values=V.arrays("jn", "fi", [[], [2]])), V.arrays("jn", "fi", [[], [2]]).map(lambda v: ["val", v]),
      V.statics.map(lambda v: ["val", v]), V.statics.map(lambda v: ["Static", v]),
  )
  return {
      "g": draw(G.graphs(max_mods=4, leaf=leaf)),
      "fs": draw(F.filter_lists(exhaustive=True, max_size=2)),
      "init": draw(st.booleans()),
      "rngs": draw(st.lists(st.sampled_from(["params", "dropout", "a", "z"]), unique=True, max_size=3)),
      "flags": draw(st.lists(st.tuples(st.sampled_from(["train", "deterministic"]), st.booleans()), max_size=2, unique_by=lambda t: t[0])),
      "draws": draw(st.integers(0, 3)),
      "perm": draw(st.randoms(use_true_random=False).map(lambda r: r.randint(0, 10**6))),
  }


def shuffled_order(spec, k):
  return [list(range(len(m["attrs"])))[::-1] if (k >> i) % 2 else list(range(len(m["attrs"]))) for i, m in enumerate(spec["mods"])]


def run_module(case, rec):
  spec = case["g"]
  entries = G.ref_state(spec)
  m = G.build(spec)
  m2 = G.build(spec, order=shuffled_order(spec, case["perm"]))
  fs = [F.make(f) for f in case["fs"]]
  rec.nt(len(entries) >= 2)
  parts, _ = F.ref_split(case["fs"], entries)
  expected = tuple(V.d_value(p[k][2] if p[k][0] == "var" else p[k][1]) for p in parts for k in sorted(p))

  grabbed = []
  if case["init"]:
    class Probe:
      pass

    V.ModA.grab = lambda self: grabbed.append(m.partition(*fs))
    try:
      if isinstance(m, V.ModA):
        m.init.grab()
        rec.tag("initializing")
    finally:
      del V.ModA.grab
  pure = grabbed[0] if grabbed else m.partition(*fs)
  leaves, tree = jtu.tree_flatten(pure)
  G.same(tuple(map(V.desc, leaves)), expected, "leaves of a split module")
  back = jtu.tree_unflatten(tree, leaves)
  assert type(back) is nnx.Pure and isinstance(back.moduledef, nnx.ModuleDef)
  G.same(V.desc(back), V.desc(pure), "split module flatten and unflatten")
  assert back.moduledef == pure.moduledef and hash(back.moduledef) == hash(pure.moduledef)
  assert back.merge().is_initializing == bool(grabbed)
  G.same(G.canon(back.merge()), G.ref_canon(spec), "merge of the rebuilt split module")
  wp, _ = jtu.tree_flatten_with_path(pure)
  G.same(tuple(V.desc(l) for _, l in wp), expected, "split module leaves with paths")
  if not grabbed:
    assert jtu.tree_structure(m2.partition(*fs)) == tree, "structure depends on construction order"
    G.same(tuple(map(V.desc, jtu.tree_leaves(m2.partition(*fs)))), expected, "leaf order depends on construction order")
  # definition: no leaves
  d = m.get_module_def()
  dl, dt = jtu.tree_flatten(d)
  assert dl == [] and jtu.tree_unflatten(dt, []) == d
  G.same(V.desc(jtu.tree_unflatten(dt, [])), V.desc(d), "definition flatten and unflatten")
  out = jax.jit(lambda p: jtu.tree_map(lambda v: v + 0, p))(pure)
  assert type(out) is nnx.Pure
  G.same(G.canon(out.merge(), loose=True), G.ref_canon(spec, loose=True), "split module through jit")
  assert out.merge().is_initializing == bool(grabbed)

  # contexts
  ctx = nnx.context(flags=dict(case["flags"]), **{n: i for i, n in enumerate(case["rngs"])})
  for _ in range(case["draws"]):
    for n in case["rngs"]:
      ctx.make_rng(n)
  pc = ctx.partition()
  cl, ct = jtu.tree_flatten(pc)
  assert [V.desc(l) for l in cl] == [V.desc(pc.keys[n]) for n in sorted(case["rngs"])], "leaves of a split context"
  rebuilt = jtu.tree_unflatten(ct, cl)
  assert type(rebuilt) is type(pc)
  via = [rebuilt, jax.jit(lambda c: c)(pc)]
  ref = {n: V.desc(pc.merge().make_rng(n)) for n in case["rngs"]}
  for v in via:
    c = v.merge()
    for n in case["rngs"]:
      assert V.desc(c.make_rng(n)) == ref[n], "stream of a split context that went through a pytree operation"
    for n, f in case["flags"]:
      assert c.get_flag(n) is f and c.has_flag(n)


@st.composite
def large_cases(draw):
  return {**draw(module_cases()), "g": draw(G.large())}


def run_large(case, rec):
  """Modules far larger than the generated ones."""
  run_module({**case, "g": G.large_spec(case["g"])}, rec)



CHECKS = [
    Check("laws", cases, run, quick=6000, thorough=120000),
    Check("transforms", jax_cases, run_jax, quick=400, thorough=8000),
    Check("modules", module_cases, run_module, quick=800, thorough=15000),
    Check("large", large_cases, run_large, quick=24, thorough=300),
]
