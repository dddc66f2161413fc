"""C01 Splitting a module graph and merging it back loses nothing."""
from hypothesis import strategies as st

import jax
import jax.numpy as jnp
import nnx
from vlib import filters as F
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: a JSON module graph (1-7 modules of 7 classes, attributes of every kind, extra edges giving sharing "
    "and cycles), an exhaustive filter list, a permutation of the parts, and an edit history. Non-trivial: the "
    "graph has at least 2 reachable modules and at least 2 nodes; sharing, cycles and multi-part splits are "
    "counted as classes."
)


@st.composite
def cases(draw):
  g = draw(G.graphs(max_mods=7, unhashable=True))
  fs = draw(F.filter_lists(exhaustive=True))
  return {
      "g": g,
      "fs": fs,
      "perm": draw(st.permutations(range(len(fs)))),
      "edits": draw(
          st.lists(
              st.tuples(st.integers(0, 30), st.integers(0, 30), st.integers(0, 22), st.sampled_from(["set", "new", "del", "sub", "stat", "alias"])),
              max_size=4,
          )
      ),
      "second": draw(st.booleans()),
      "victim": draw(st.integers(0, 5)),
  }


def edges(spec):
  for i, m in enumerate(spec["mods"]):
    for name, a in G.full_attrs(m).items():
      if a[0] == "mod":
        yield i, name, a[1]


def classify(spec, rec):
  reach = G.ref_first_paths(spec)
  es = [e for e in edges(spec) if e[0] in reach]
  indeg = {}
  for _, _, d in es:
    indeg[d] = indeg.get(d, 0) + 1
  shared = any(v > 1 for v in indeg.values()) or 0 in indeg
  # cycle: an edge to an ancestor in the reference walk
  paths = reach
  cyc = any(len(paths[d]) <= len(paths[s]) and paths[s][: len(paths[d])] == paths[d] for s, _, d in es)
  rec.tag("sharing", shared)
  rec.tag("cycle", cyc)
  rec.tag("deep", any(len(p) >= 3 for p in paths.values()))
  return reach


def mutate(mods, edits):
  """Applies generated edits to a list of live modules (in canonical order)."""
  for mi, ai, seed, op in edits:
    m = mods[mi % len(mods)]
    names = sorted(n for n in G.attrs_of(m) if not n.startswith("_"))
    if op == "new":
      setattr(m, f"new_{seed}", nnx.Param(jnp.float32(seed)))
      continue
    if op == "sub":
      setattr(m, f"sub_{seed}", V.ModA())
      continue
    if op == "alias":  # another module of the graph, under a name of its own
      setattr(m, f"alias_{seed}", mods[ai % len(mods)])
      continue
    if op == "stat":
      statics = [n for n in names if not isinstance(vars(m)[n], (nnx.Module, nnx.Container)) and not nnx.is_node(vars(m)[n])]
      setattr(m, statics[ai % len(statics)] if statics and seed % 3 else f"stat_{seed % 2}", f"static {seed}")
      continue
    if not names:
      continue
    name = names[ai % len(names)]
    if op == "del":
      delattr(m, name)
    else:
      v = vars(m)[name]
      if isinstance(v, nnx.Module):
        setattr(m, name, V.ModB())
      else:
        setattr(m, name, jnp.full((2,), seed, jnp.float32))


def run(case, rec):
  spec = case["g"]
  reach = classify(spec, rec)
  entries = G.ref_state(spec)
  rec.nt(len(reach) >= 2 and len(entries) >= 2)
  fs = case["fs"]
  rec.tag("multi-part", len(fs) > 1)
  m = G.build(spec)
  want = G.ref_canon(spec)
  G.same(G.canon(m), want, "the built module (attribute storage)")

  # the state: every distinct node exactly once, under its first path, in path order
  state = m.get_state()
  assert isinstance(state, nnx.State)
  G.same(G.d_state(state), G.ref_d_state(entries), "get_state")

  # split by filters, merge in any order
  pure = m.partition(*[F.make(f) for f in fs])
  parts = F.as_tuple(pure.states)
  assert len(parts) == len(fs)
  rparts, rest = F.ref_split(fs, entries)
  for i, (p, r) in enumerate(zip(parts, rparts)):
    G.same(G.d_state(p), G.ref_d_state(r), f"part {i}")
  perm = case["perm"]
  rebuilt = {
      "merge of the permuted parts": pure.moduledef.merge(*[parts[i] for i in perm]),
      "Pure.merge": pure.merge(),
      "merge of the joined state": m.get_module_def().merge(nnx.State.merge(*parts)),
      "clone": m.clone(),
      "merge of an unfiltered split": m.partition().merge(),
  }
  for how, r in rebuilt.items():
    assert r is not m
    G.same(G.canon(r), want, how)
    ids = {id(x) for x in G.walk_modules(r)[0]}
    assert not ids & {id(x) for x in G.walk_modules(m)[0]}, f"{how} shares a module object with the original"
  G.same(G.canon(m), want, "the original after splitting and merging")
  G.same(G.d_state(nnx.State.merge(*parts)), G.ref_d_state(entries), "the parts joined")

  # the path of a node names it: MutableLeaf-free check through attribute access
  for path in entries:
    x = rebuilt["clone"]
    for name in path.split("/")[:-1]:
      x = getattr(x, name)
    assert path.split("/")[-1] in vars(x), path

  # reading an attribute of the rebuilt module gives the same value as on the original
  a, b = G.walk_modules(m)[0], G.walk_modules(rebuilt["clone"])[0]
  for x, y in zip(a, b):
    for name in G.attrs_of(x):
      if not isinstance(vars(x)[name], nnx.Module):
        G.same(V.desc(getattr(y, name)), V.desc(getattr(x, name)), f"attribute {name} of the clone")

  # independence
  others = [m] + list(rebuilt.values())
  victim = others[case.get("victim", len(case["edits"])) % len(others)] if case["edits"] else None
  if case["edits"]:
    rec.tag("edited")
    before = {i: G.canon(o) for i, o in enumerate(others) if o is not victim}
    sdesc = [G.d_state(p) for p in parts] + [G.d_state(state)]
    victim.partition()  # an edit after a split counts like one before it
    mutate(G.walk_modules(victim)[0], case["edits"])
    for i, o in enumerate(others):
      if o is not victim:
        G.same(G.canon(o), before[i], f"module {i} after edits of another copy")
    G.same(
        tuple([G.d_state(p) for p in parts] + [G.d_state(state)]), tuple(sdesc), "split states after edits of a module"
    )
    # an old split still merges to what it was split from
    G.same(G.canon(pure.merge()), want, "an old split merged after edits")
    # and the edited module itself round-trips again
    edited = G.canon(victim)
    G.same(G.canon(victim.partition(*[F.make(f) for f in fs]).merge()), edited, "edited module round trip")
    G.same(G.canon(victim), edited, "edited module after its own split")
  if case["second"]:
    p2 = rebuilt["clone"].partition() if victim is not rebuilt["clone"] else rebuilt["Pure.merge"].partition()
    if victim is not rebuilt["Pure.merge"] and victim is not rebuilt["clone"]:
      G.same(G.d_state(p2.states), G.ref_d_state(entries), "state of a rebuilt module")
      G.same(G.canon(p2.merge().clone().clone()), want, "third generation")


def run_traced(case, rec):
  """Split and merge inside jit: structure and sharing survive with traced values."""
  spec = case["g"]
  entries = G.ref_state(spec)
  reach = classify(spec, rec)
  rec.nt(len(reach) >= 2 and len(entries) >= 1)
  m = G.build(spec)
  pure = m.partition(*[F.make(f) for f in case["fs"]])
  got = []

  @jax.jit
  def f(p):
    x = p.merge()
    y = x.clone()
    got.append(len(G.walk_modules(y)[0]))
    return y.partition(*[F.make(f) for f in case["fs"]])

  out = f(pure)
  assert got == [len(reach)], (got, len(reach))
  G.same(G.canon(out.merge(), loose=True), G.ref_canon(spec, loose=True), "round trip through jit")
  G.same(G.canon(m), G.ref_canon(spec), "original after jit")


@st.composite
def traced_cases(draw):
  def leaf():
    num = V.arrays("jn", "fi", [[], [2]])
    return st.one_of(
        V.variables(values=num), num.map(lambda v: ["val", v]),
        st.tuples(num, V.scalars).map(lambda t: ["pt", t[0], t[1]]),
        V.statics.map(lambda v: ["val", v]),
    )

  g = draw(G.graphs(max_mods=5, classes=("A", "B", "Dict", "Seq"), leaf=leaf()))
  return {"g": g, "fs": draw(F.filter_lists(exhaustive=True, max_size=2))}


# ------------------------------------------------------------------ node types registered later


@st.composite
def registered_cases(draw):
  return {
      "attrs": draw(st.lists(st.tuples(st.sampled_from("abcdef"), st.integers(0, 3), st.booleans()).map(list), min_size=1, max_size=5, unique_by=lambda t: t[0])),
      "ops": draw(st.lists(st.one_of(st.just(["look"]), st.tuples(st.just("register"), st.integers(0, 3)).map(list)), min_size=2, max_size=5)),
  }


def run_registered(case, rec):
  """Objects of a class are nodes from the moment their class, or a base of it, is registered."""
  base = type("Base", (), {})
  classes = [base, type("Sub", (base,), {}), type("Other", (), {}), type("Base", (), {})]
  nodes, values = set(), {}
  root, sub = V.ModA(), V.ModB()
  root.s = sub
  for name, c, deep in case["attrs"]:
    x = classes[c]()
    setattr(sub if deep else root, name, x)
    values[("s/" if deep else "") + name] = (x, c)

  def check(what):
    want = {p for p, (_, c) in values.items() if c in nodes or (c == 1 and 0 in nodes)}
    for x, c in values.values():
      assert nnx.is_node(x) is (c in nodes or (c == 1 and 0 in nodes)), f"{what}: is_node"
    pure = root.partition()
    assert set(pure.states) == want, f"{what}: the state holds {sorted(pure.states)} instead of {sorted(want)}"
    new = pure.merge()
    for p, (x, _) in values.items():
      y = new
      for part in p.split("/"):
        y = vars(y)[part]
      assert y is x, f"{what}: {p} after a round trip"
    rec.nt(0 < len(want) < len(values))

  check("at the start")
  for op in case["ops"]:
    if op[0] == "register":
      nnx.register_node_type(classes[op[1]])
      nodes.add(op[1])
    check(f"after {op}")


# ------------------------------------------------------------------ graphs far larger than the generated ones


@st.composite
def large_cases(draw):
  fs = draw(F.filter_lists(exhaustive=True, max_size=3))
  return {"large": draw(G.large()), "fs": fs, "perm": draw(st.permutations(range(len(fs)))), "second": draw(st.booleans())}


def run_large(case, rec):
  run({**case, "g": G.large_spec(case["large"]), "edits": [], "victim": 0}, rec)



CHECKS = [
    Check("roundtrip", cases, run, quick=4000, thorough=60000),
    Check("traced", traced_cases, run_traced, quick=240, thorough=4000),
    # every case registers classes for good: only a few
    Check("registered", registered_cases, run_registered, quick=64, thorough=400),
    Check("large", large_cases, run_large, quick=48, thorough=600),
]
