"""C02 Filters cut a state into exact, ordered parts."""
from hypothesis import strategies as st

import jax
import numpy as np
import nnx
from vlib import filters as F
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: a state (0-8 entries of all kinds with nested paths, built in a random order) or a module graph, a list "
    "of nested filters in which the ellipsis may stand anywhere, and further states to merge and subtract. "
    "Non-trivial: at least 2 entries and at least 2 filters, or an algebra case with overlapping keys."
)

PATHS = ["a", "b", "a/b", "a/w", "b/a", "w", "x1", "x10", "x2", "a/b/c", "A", "1/0", "10", "a.b", "z/w"]


def entry():
  return st.one_of(
      V.variables(), V.variables(), V.arrays().map(lambda v: ["val", v]),
      st.tuples(V.contents, V.scalars).map(lambda t: ["pt", t[0], t[1]]),
      st.just(["state", []]),
  )


def states(max_size=8):
  return st.lists(st.tuples(st.sampled_from(PATHS), entry()), max_size=max_size, unique_by=lambda t: t[0]).map(
      lambda xs: [list(t) for t in xs]
  )


@st.composite
def cases(draw):
  fs = draw(st.lists(F.inner(), min_size=1, max_size=4))
  where = draw(st.sampled_from(["none", "last", "last", "middle"]))
  if where == "last":
    fs = fs + [["..."]]
  elif where == "middle":
    fs.insert(draw(st.integers(0, len(fs) - 1)), ["..."])
  return {
      "s": draw(states()),
      "fs": fs,
      "how": draw(st.sampled_from(["dict", "pairs", "reversed"])),
      "cut": draw(F.filter_lists(exhaustive=True, max_size=2)),
      "perm": draw(st.integers(0, 5)),
  }


def build_state(xs, how="dict"):
  items = [(k, V.make_leaf(a)) for k, a in xs]
  if how == "dict":
    return nnx.State(dict(items))
  if how == "pairs":
    return nnx.State(iter(items))
  return nnx.State(dict(reversed(items)))


def check_split(obj, entries, fs, what, get_parts, rec):
  """Partition and filter of any object against the reference split."""
  real = [F.make(f) for f in fs]
  bad_ellipsis = any(f == ["..."] for f in fs[:-1])
  parts, rest = (None, None) if bad_ellipsis else F.ref_split(fs, entries)
  rec.tag("ellipsis not last", bad_ellipsis)
  rec.tag("not exhaustive", bool(rest))

  try:
    out = obj.partition(*real)
    err = None
  except ValueError as e:
    err = e
  if bad_ellipsis or rest:
    assert err is not None, f"{what}.partition accepted {'a misplaced ellipsis' if bad_ellipsis else 'unmatched entries'}"
  else:
    if err is not None:
      raise AssertionError(f"{what}.partition refused an exhaustive filter list: {err}")
    out = get_parts(out)
    assert isinstance(out, nnx.State if len(fs) == 1 else tuple), type(out)
    out = F.as_tuple(out)
    assert len(out) == len(fs)
    for i, (p, r) in enumerate(zip(out, parts)):
      assert isinstance(p, nnx.State)
      G.same(G.d_state(p), G.ref_d_state(r), f"{what}.partition part {i}")
  try:
    out = obj.filter(*real)
    err = None
  except ValueError as e:
    err = e
  if bad_ellipsis:
    assert err is not None, f"{what}.filter accepted a misplaced ellipsis"
    return
  if err is not None:
    raise AssertionError(f"{what}.filter refused a legal filter list: {err}")
  assert isinstance(out, nnx.State if len(fs) == 1 else tuple), type(out)
  out = F.as_tuple(out)
  assert len(out) == len(fs)
  for i, (p, r) in enumerate(zip(out, parts)):
    G.same(G.d_state(p), G.ref_d_state(r), f"{what}.filter part {i}")


def run(case, rec):
  xs, fs = case["s"], case["fs"]
  entries = {k: a for k, a in xs}
  rec.nt(len(entries) >= 2 and len(fs) >= 2)
  s = build_state(xs, case["how"])
  want = G.ref_d_state(entries)
  G.same(G.d_state(s), want, "a state is ordered by path and holds its entries")
  assert len(s) == len(entries) and set(s) == set(entries)
  for k in entries:
    assert k in s
  check_split(s, entries, fs, "State", lambda x: x, rec)
  G.same(G.d_state(s), want, "the state after splitting")

  # parts are the very entries, and join back to the whole in any order
  cut = [F.make(f) for f in case["cut"]]
  parts = list(F.as_tuple(s.partition(*cut)))
  for p in parts:
    for k, v in p.items():
      G.same(V.desc(v), V.desc(s[k]), k)
  n = len(parts)
  rot = parts[case["perm"] % n :] + parts[: case["perm"] % n]
  G.same(G.d_state(nnx.State.merge(*rot)), want, "merge of the parts")
  acc = nnx.State({})
  for p in rot:
    acc = acc | p
  G.same(G.d_state(acc), want, "union of the parts")
  for i, p in enumerate(parts):
    rest = {k: a for k, a in entries.items() if k not in p}
    G.same(G.d_state(s - p), G.ref_d_state(rest), f"whole minus part {i}")

  # predicates are asked with the path and the stored value
  asked = []

  def spy(path, value):
    asked.append((path, V.desc(value)))
    return True

  s.filter(spy)
  for path, d in asked:
    G.same(d, V.d_leaf_spec(entries[path]), "value given to a predicate")


@st.composite
def algebra_cases(draw):
  out = draw(st.one_of(st.lists(states(5), min_size=2, max_size=4), st.lists(states(5), min_size=2, max_size=4), st.lists(states(3), min_size=5, max_size=12)))
  if draw(st.integers(0, 2)) == 0:  # mapping functions over states can leave any value behind, None or an empty tuple too
    out = [[[k, draw(st.sampled_from([a, a, ["val", ["s", None]], ["val", ["s", 0]], ["val", ["tup", []]]]))] for k, a in xs] for xs in out]
  return {"states": out, "how": draw(st.sampled_from(["dict", "pairs", "reversed"]))}


def run_algebra(case, rec):
  specs = [{k: a for k, a in xs} for xs in case["states"]]
  real = [build_state(xs, case["how"]) for xs in case["states"]]
  before = [G.d_state(s) for s in real]
  overlap = any(set(a) & set(b) for i, a in enumerate(specs) for b in specs[i + 1 :])
  rec.tag("overlap", overlap)
  rec.tag("an empty state", any(not s for s in specs))
  rec.nt(overlap)
  union = {}
  for s in specs:
    union.update(s)
  G.same(G.d_state(nnx.State.merge(*real)), G.ref_d_state(union), "merge: later states win")
  acc = real[0]
  for s in real[1:]:
    acc = acc | s
  G.same(G.d_state(acc), G.ref_d_state(union), "a | b | ...: later states win")
  a, b = specs[0], specs[1]
  minus = {k: v for k, v in a.items() if k not in b}
  G.same(G.d_state(real[0] - real[1]), G.ref_d_state(minus), "a - b")
  back = dict(minus)
  back.update(b)
  G.same(G.d_state((real[0] - real[1]) | real[1]), G.ref_d_state(back), "(a - b) | b")
  assert len(real[0] - real[0]) == 0
  G.same(tuple(G.d_state(s) for s in real), tuple(before), "operands after the algebra")
  for s, spec in zip(real, specs):
    assert all(k in s for k in spec) and len(s) == len(spec) and list(s) == sorted(spec)
    assert "no/such/path" not in s and s.get("no/such/path", 5) == 5
  # results are ordinary states: they can be split again and behave as pytrees
  d = real[0] - real[1]
  G.same(G.d_state(d.filter(...)), G.ref_d_state(minus), "filter of a difference")
  leaves, tree = jax.tree_util.tree_flatten(d)
  leaves2, tree2 = jax.tree_util.tree_flatten(build_state([[k, minus[k]] for k in reversed(list(minus))]))
  assert tree == tree2 and len(leaves) == len(leaves2), "structure of a difference"


@st.composite
def module_cases(draw):
  fs = draw(st.lists(F.inner(), min_size=1, max_size=3))
  where = draw(st.sampled_from(["none", "last", "last", "middle"]))
  if where == "last":
    fs = fs + [["..."]]
  elif where == "middle":
    fs.insert(draw(st.integers(0, len(fs) - 1)), ["..."])
  return {
      "g": draw(G.graphs(max_mods=4)), "fs": fs, "pre": draw(F.filter_lists(exhaustive=True, max_size=2)),
      "pop": draw(F.filter_lists(max_size=2)),
      "bad": [draw(st.sampled_from(["a", "", "...", 3, 0, 1.5, "list"])), draw(st.integers(0, 3)), draw(st.booleans())],
  }


def run_module(case, rec):
  spec = case["g"]
  entries = G.ref_state(spec)
  rec.nt(len(entries) >= 2 and len(case["fs"]) >= 2)
  m = G.build(spec)
  check_split(m, entries, case["fs"], "Module", lambda p: p.states, rec)
  pure = m.partition(*[F.make(f) for f in case["pre"]])
  check_split(pure, entries, case["fs"], "Pure", lambda p: p.states, rec)
  G.same(G.d_state(pure.get_state()), G.ref_d_state(entries), "Pure.get_state")
  # no filters: everything in one part, also when the split module came in several parts
  for what, obj in (("Module", m), ("Pure", pure)):
    whole = obj.partition()
    assert isinstance(whole.states, nnx.State), f"{what}.partition() gives {type(whole.states).__name__}"
    G.same(G.d_state(whole.states), G.ref_d_state(entries), f"{what}.partition()")
    G.same(G.canon(whole.merge()), G.ref_canon(spec), f"{what}.partition() merged")
  G.same(G.canon(m), G.ref_canon(spec), "the module after splitting")
  # what is not a filter is refused, alone, in a list or inside a tuple, and changes nothing
  bad, at, inside = case["bad"]
  bad = [nnx.Param] if bad == "list" else bad
  fl = [F.make(f) for f in case["fs"] if f != ["..."]]
  fl.insert(at % (len(fl) + 1), (nnx.Param, bad) if inside else bad)
  if entries:
    for what, op in (
        ("State.filter", m.get_state().filter), ("State.partition", m.get_state().partition), ("Module.filter", m.filter),
        ("Module.partition", m.partition), ("Pure.filter", pure.filter), ("Pure.partition", pure.partition),
        ("Pure.pop_state", pure.pop_state), ("Module.pop_state", m.pop_state),
    ):
      try:
        op(*fl)
      except Exception:
        continue
      raise AssertionError(f"{what} accepted {bad!r} as a filter")
    G.same(G.canon(m), G.ref_canon(spec), "the module after refused filters")
  # Pure.pop_state: what filter returns, and the rest stays
  pop = case["pop"]
  if any(f == ["..."] for f in pop):
    pop = [f for f in pop if f != ["..."]] or [["type", "Param"]]
  parts, rest = F.ref_split(pop, entries)
  states, left = pure.pop_state(*[F.make(f) for f in pop])
  assert isinstance(states, nnx.State if len(pop) == 1 else tuple)
  for i, (p, r) in enumerate(zip(F.as_tuple(states), parts)):
    G.same(G.d_state(p), G.ref_d_state(r), f"Pure.pop_state part {i}")
  G.same(G.d_state(left.get_state()), G.ref_d_state(rest), "Pure.pop_state rest")
  G.same(G.canon(left.update_state(states).merge()), G.ref_canon(spec), "rest updated with what was popped")


@st.composite
def large_cases(draw):
  return {**draw(module_cases()), "g": draw(G.large()), "many": draw(st.sampled_from([0, 5, 20, 40])), "step": draw(st.integers(1, 9))}


def run_large(case, rec):
  """Many entries, also with many filters."""
  spec = G.large_spec(case["g"])
  paths = sorted(G.ref_state(spec))
  fs = [["path", paths[(i * case["step"]) % len(paths)]] for i in range(case["many"] if paths else 0)]
  rec.tag("20 filters or more", len(fs) >= 20)
  run_module({**case, "g": spec, "fs": fs + case["fs"]}, rec)



CHECKS = [
    Check("state", cases, run, quick=6000, thorough=120000),
    Check("algebra", algebra_cases, run_algebra, quick=2500, thorough=50000),
    Check("module", module_cases, run_module, quick=2000, thorough=40000),
    Check("large", large_cases, run_large, quick=40, thorough=500),
]
