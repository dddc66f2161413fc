"""C21 Logical axis names map to mesh axes by the rules in priority order."""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st
from jax.sharding import Mesh, NamedSharding, PartitionSpec

import nnx
from nnx import spmd
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: dimension names (0 to 5, unnamed and repeated ones included) with rule lists (0 to 8 rules over 5 names and 4 mesh "
    "axes, single axes, tuples, None, repeated rules; also up to 300 rules over 40 names and 30 axes for up to 17 dimensions), given explicitly, by a scope, by the setter, or explicitly inside a "
    "contradicting scope, compared with a reference that assigns rule by rule; trees (states, lists, tuples, dicts, train "
    "states, split modules) of variables of every kind with and without shardings, compared leaf by leaf; programs of nested "
    "rule scopes with exceptions, setters, decorators and exit stacks, compared with a stack. "
    "Non-trivial: at least two rules that apply to the names, at least two variables with shardings, or a nested scope."
)
ASSUMPTIONS = ["rules name dimensions (not None) and do not repeat a mesh axis within one rule"]

NAMES = ["a", "b", "c", "d", "e"]
AXES = ["X", "Y", "Z", "W"]

mesh_axes = st.one_of(
    st.sampled_from(AXES), st.sampled_from(AXES), st.none(), st.lists(st.sampled_from(AXES), min_size=1, max_size=3, unique=True),
)
rules_st = st.lists(st.tuples(st.sampled_from(NAMES), mesh_axes).map(list), min_size=0, max_size=9)
dims_st = st.lists(st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.none()), max_size=5)
unique_dims = st.lists(st.sampled_from(NAMES), max_size=4, unique=True).flatmap(
    lambda ns: st.integers(1, 4 - len(ns)).flatmap(lambda n: st.permutations(ns + [None] * n)) if len(ns) < 4 else st.just(ns)).map(list)


def real_rules(rules, kind="list"):
  out = [(n, tuple(a) if isinstance(a, list) else a) for n, a in rules]
  return tuple(out) if kind == "tuple" else out


def flat(a):
  return set() if a is None else set(a) if isinstance(a, (list, tuple)) else {a}


def reference(dims, rules):
  """name -> axes, by going through the rules; None: refused"""
  named = [d for d in dims if d is not None]
  if len(set(named)) != len(named):
    return None
  got, taken = {}, set()
  for name, axes in rules:
    if name in named and name not in got and not (flat(axes) & taken):
      got[name] = axes
      taken |= flat(axes)
  return [norm(got.get(d)) if d is not None else None for d in dims]


def norm(a):
  """One axis and the tuple of it are the same, and so are none and the empty tuple."""
  if a is None or a == () or a == []:
    return None
  if isinstance(a, str):
    return a
  a = tuple(a)
  return a[0] if len(a) == 1 else a


def check_spec(spec, dims, rules, what):
  want = reference(dims, rules)
  assert isinstance(spec, PartitionSpec), f"{what}: {spec!r} is not a PartitionSpec"
  got = [norm(a) for a in spec]
  assert got == want, f"{what}: {spec} instead of {want}"
  used = [a for entry in spec for a in flat(entry)]
  assert len(used) == len(set(used)), f"{what}: a mesh axis is used twice: {spec}"


# ------------------------------------------------------------------ axes


@st.composite
def axes_cases(draw):
  return {
      "dims": draw(st.one_of(unique_dims, unique_dims, dims_st)), "rules": draw(rules_st), "other": draw(rules_st),
      "how": draw(st.sampled_from(["explicit", "scope", "set", "override", "empty_override"])),
      "kind": draw(st.sampled_from(["list", "tuple"])), "names": draw(st.sampled_from(["tuple", "list", "spec"])),
      "api": draw(st.sampled_from(["axes", "axes", "mesh", "meshtree", "sharding"])),
  }


@st.composite
def wide_cases(draw):
  """Long rule lists over many names and mesh axes; which rules apply may depend on the last of them."""
  names = [f"n{i}" for i in range(draw(st.sampled_from([3, 10, 40])))]
  axes = [f"A{i}" for i in range(draw(st.sampled_from([2, 8, 30])))]
  dims = draw(st.lists(st.sampled_from(names), max_size=min(len(names), 14), unique=True))
  for k in draw(st.lists(st.integers(0, 14), max_size=3)):
    dims.insert(k, None)
  axis = st.one_of(st.sampled_from(axes), st.sampled_from(axes), st.none(), st.lists(st.sampled_from(axes), min_size=1, max_size=4, unique=True))
  rules = draw(st.lists(st.tuples(st.sampled_from(names), axis).map(list), max_size=20))
  n = draw(st.sampled_from([0, 10, 33, 70, 140, 300]))  # rules for other dimensions in between
  at = draw(st.integers(0, len(rules)))
  filler = [[f"o{i % 50}", axes[i % len(axes)]] for i in range(n)]
  return {
      "dims": dims, "rules": rules[:at] + filler + rules[at:], "other": [], "how": draw(st.sampled_from(["explicit", "scope", "set", "override"])),
      "kind": draw(st.sampled_from(["list", "tuple"])), "names": draw(st.sampled_from(["tuple", "list", "spec"])),
      "api": draw(st.sampled_from(["axes", "mesh", "meshtree"])),
  }


MESH = []


def mesh():
  if not MESH:
    MESH.append(Mesh(np.asarray(jax.devices()[:8]).reshape(2, 2, 2, 1), tuple(AXES)))
  return MESH[0]


def run_axes(case, rec):
  dims, rules = case["dims"], case["rules"]
  how, api = case["how"], case["api"]
  names = {"tuple": tuple, "list": list, "spec": lambda d: PartitionSpec(*d)}[case["names"]](dims)
  if api != "axes":
    names = PartitionSpec(*dims)
  rr, other = real_rules(rules, case["kind"]), real_rules(case["other"], case["kind"])
  applying = [r for r in rules if r[0] in dims]
  rec.nt(len(applying) >= 2)
  rec.tag(how)
  rec.tag("repeated names", reference(dims, rules) is None)
  rec.tag("clash", len(applying) >= 2 and reference(dims, rules) is not None and any(a is None for a in reference(dims, rules)))

  def compute(*args):
    if api == "axes":
      return spmd.logical_to_mesh_axes(names, *args)
    if api == "mesh":
      return nnx.logical_to_mesh(names, *args)
    if api == "meshtree":
      out = nnx.logical_to_mesh({"k": [names, PartitionSpec()], "n": None}, *args)
      assert out["n"] is None and out["k"][1] == PartitionSpec() and len(out["k"]) == 2, out
      return out["k"][0]
    out = spmd.logical_to_mesh_sharding({"k": (names,)}, mesh(), *args)["k"][0]
    assert isinstance(out, NamedSharding) and out.mesh == mesh(), out
    return out.spec

  def call():
    if how == "explicit":
      return compute(rr)
    if how == "scope":
      with nnx.logical_axis_rules(rr):
        return compute()
    if how == "set":
      spmd.set_logical_axis_rules(rr)
      try:
        return compute()
      finally:
        spmd.set_logical_axis_rules(())
    if how == "override":
      with nnx.logical_axis_rules(other):
        return compute(rr)
    with nnx.logical_axis_rules(other):
      return compute(type(rr)())

  effective = [] if how == "empty_override" else rules
  refused = reference(dims, effective) is None
  try:
    spec = call()
  except ValueError:
    assert refused, f"names {dims} were refused"
    spec = None
  if spec is not None:
    assert not refused, f"repeated names {dims} were accepted: {spec}"
    check_spec(spec, dims, effective, f"{dims} by {effective}")
  assert spmd.logical_to_mesh_axes(None, rr) is None
  assert len(spmd.get_logical_axis_rules()) == 0, "rules are left after the scope"
  for bad in ({"a": "X"}, "aX", iter(rr), 3):
    try:
      spmd.logical_to_mesh_axes(("a",), bad)
    except ValueError:
      continue
    raise AssertionError(f"rules given as {bad!r} were accepted")


# ------------------------------------------------------------------ trees

leaf_st = st.one_of(
    st.tuples(st.just("var"), st.sampled_from(["Param", "BatchStat", "Variable", "CustomVar", "Node", "Cache"]), st.one_of(st.none(), unique_dims, unique_dims), st.sampled_from(["arr", "arr", "np", "num", "str"])),
    st.tuples(st.just("arr")), st.tuples(st.just("np")), st.tuples(st.just("num")), st.tuples(st.just("none")), st.tuples(st.just("static")),
).map(list)
tree_st = st.recursive(
    leaf_st, lambda t: st.one_of(
        st.tuples(st.just("list"), st.lists(t, max_size=3)), st.tuples(st.just("tuple"), st.lists(t, max_size=3)),
        st.tuples(st.just("dict"), st.lists(t, max_size=3)), st.tuples(st.just("state"), st.lists(leaf_st.filter(lambda a: a[0] in ("var", "arr")), max_size=3)),
    ).map(list), max_leaves=8)


@st.composite
def tree_cases(draw):
  return {
      "tree": draw(tree_st), "rules": draw(rules_st), "how": draw(st.sampled_from(["explicit", "scope"])),
      "wrap": draw(st.sampled_from(["none", "none", "train", "module", "abstract"])),
      "params": draw(st.lists(st.tuples(st.sampled_from(["Param", "CustomVar", "BatchStat"]), st.one_of(st.none(), unique_dims)).map(list), min_size=1, max_size=4)),
      "opt": draw(st.sampled_from(["adam", "momentum", "sgd"])),
  }


def make_payload(kind):
  return {"arr": jnp.ones((2, 2)), "np": np.ones((2, 2), np.float32), "num": 3.5, "str": "text"}[kind]


def build(t):
  """(real tree, expected tree of specs; expected leaves are wrapped in ["spec", dims or None])"""
  k = t[0]
  if k == "var":
    v = make_payload(t[3])
    if t[1] == "Node":
      node = nnx.Node(v) if t[2] is None else nnx.Node(v, sharding=tuple(t[2]))
    else:
      node = V.KINDS[t[1]](v, sharding=None if t[2] is None else tuple(t[2]))
    if t[2]:
      return node, ("spec", t[2])
    return node, ("spec", []) if t[3] in ("arr", "np") else ("spec", None)
  if k in ("arr", "np"):
    return make_payload(k), ("spec", [])
  if k == "num":
    return 3.5, ("spec", None)
  if k == "none":
    return None, ("spec", None)
  if k == "static":
    return nnx.Static("s"), ("static",)
  subs = [build(x) for x in t[1]]
  reals, wants = [r for r, _ in subs], [w for _, w in subs]
  if k == "list":
    return reals, wants
  if k == "tuple":
    return tuple(reals), tuple(["tuple"]) + tuple(wants)
  if k == "dict":
    return {f"k{i}": r for i, r in enumerate(reals)}, {f"k{i}": w for i, w in enumerate(wants)}
  return nnx.State({f"p/{i}": r for i, r in enumerate(reals)}), {f"p/{i}": w for i, w in enumerate(wants)}


def compare(real, got, want, rules, what):
  if isinstance(want, list):
    assert type(got) is list and len(got) == len(want), f"{what}: {got!r}"
    for i, (r, g, w) in enumerate(zip(real, got, want)):
      compare(r, g, w, rules, f"{what}[{i}]")
  elif isinstance(want, dict):
    assert type(got) is type(real) and list(got) == list(want), f"{what}: {got!r}"
    for k, w in want.items():
      compare(real[k], got[k], w, rules, f"{what}[{k}]")
  elif want[0] == "tuple":
    assert type(got) is tuple and len(got) == len(want) - 1, f"{what}: {got!r}"
    for i, (r, g, w) in enumerate(zip(real, got, want[1:])):
      compare(r, g, w, rules, f"{what}[{i}]")
  elif want[0] == "static":
    assert got == nnx.Static("s"), f"{what}: {got!r}"
  elif want[1] is None:
    assert got is None, f"{what}: {got!r} instead of None"
  elif rules is None:
    assert isinstance(got, PartitionSpec) and list(got) == list(want[1]), f"{what}: {got!r} instead of {want[1]}"
  else:
    check_spec(got, want[1], rules, what)


def mapped(spec, case, rules):
  if case["how"] == "explicit":
    return nnx.logical_to_mesh(spec, real_rules(rules))
  with nnx.logical_axis_rules(real_rules(rules)):
    return nnx.logical_to_mesh(spec)


def count_shardings(t):
  if t[0] == "var":
    return 1 if t[2] else 0
  return sum(count_shardings(x) for x in t[1]) if len(t) > 1 and isinstance(t[1], list) else 0


def run_tree(case, rec):
  rules = case["rules"]
  rec.tag(case["wrap"])
  if case["wrap"] in ("none", "abstract"):
    real, want = build(case["tree"])
    rec.nt(count_shardings(case["tree"]) >= 2)
    if case["wrap"] == "abstract":
      # shapes without data, as jax.eval_shape gives them
      if any(isinstance(x, (str, float)) for x in jax.tree_util.tree_leaves(real)):
        return
      real = jax.eval_shape(lambda: real)
    spec = nnx.get_partition_spec(real)
    compare(real, spec, want, None, "get_partition_spec")
    compare(real, mapped(spec, case, rules), want, rules, "logical_to_mesh")
    return

  m = V.ModA()
  for i, (kind, sharding) in enumerate(case["params"]):
    setattr(m, f"w{i}", V.KINDS[kind](jnp.ones((2, 2)), sharding=None if sharding is None else tuple(sharding)))
  m.sub = V.ModB()
  m.sub.v = nnx.Param(jnp.ones(3), sharding=("a",))
  want = {f"w{i}": s or [] for i, (_, s) in enumerate(case["params"])}
  want["sub/v"] = ["a"]
  rec.nt(sum(1 for s in want.values() if s) >= 2)
  if case["wrap"] == "module":
    pure = m.partition()
    spec = nnx.get_partition_spec(pure)
    for out, rr in ((spec, None), (mapped(spec, case, rules), rules)):
      assert type(out) is type(pure) and out.moduledef == pure.moduledef, f"{out!r}"
      assert sorted(out.get_state()) == sorted(want), f"{out!r}"
      for k, dims in want.items():
        compare(None, out.get_state()[k], ("spec", dims), rr, k)
    return
  state, d = m.partition()
  tx = {"adam": optax.adam(0.1), "momentum": optax.sgd(0.1, momentum=0.9), "sgd": optax.sgd(0.1)}[case["opt"]]
  t = nnx.TrainState(d, params=state, tx=tx, extra=nnx.TreeNode(jnp.ones(3)), note="n")
  spec = nnx.get_partition_spec(t)
  for out, rr in ((spec, None), (mapped(spec, case, rules), rules)):
    assert type(out) is nnx.TrainState and out.moduledef == d and out.note == "n" and out.tx is tx
    compare(None, out.step, ("spec", []), rr, "step")
    compare(None, out.extra, ("spec", []), rr, "extra")
    trees = {"params": out.params}
    if case["opt"] == "adam":
      trees.update(mu=out.opt_state[0].mu, nu=out.opt_state[0].nu)
      compare(None, out.opt_state[0].count, ("spec", []), rr, "count")
    elif case["opt"] == "momentum":
      trees["trace"] = out.opt_state[0].trace
    for name, s in trees.items():
      assert isinstance(s, nnx.State) and sorted(s) == sorted(want), f"{name}: {s!r}"
      for k, dims in want.items():
        compare(None, s[k], ("spec", dims), rr, f"{name}[{k}]")


# ------------------------------------------------------------------ scopes

scope_rules = st.integers(0, 4)
RULESETS = [(), (("a", "X"),), (("a", "Y"), ("b", "X")), (("b", "X"), ("a", "X")), (("a", None), ("a", "X"), ("b", ("X", "Y")))]


def bodies(depth):
  step = st.one_of(st.just(["check"]), st.just(["raise"]), st.tuples(st.just("set"), scope_rules).map(list), st.tuples(st.just("explicit"), scope_rules).map(list))
  if depth < 3:
    nested = st.tuples(st.sampled_from(["with", "with", "deco", "stack", "gen", "jit"]), scope_rules, st.deferred(lambda: bodies(depth + 1)), st.booleans()).map(list)
    step = st.one_of(step, nested, nested)
  return st.lists(step, max_size=4)


class Boom(Exception):
  pass


def run_scopes(case, rec):
  current = [0]
  dims = ["a", "b"]

  def check():
    want = RULESETS[current[0]]
    got = spmd.get_logical_axis_rules()
    assert tuple(got) == want, f"rules {got} instead of {want}"
    check_spec(spmd.logical_to_mesh_axes(tuple(dims)), dims, want, "current rules")

  def run(body, depth):
    for op in body:
      t = op[0]
      if t == "check":
        check()
      elif t == "raise":
        raise Boom()
      elif t == "set":
        spmd.set_logical_axis_rules(RULESETS[op[1]])
        current[0] = op[1]
      elif t == "explicit":
        check_spec(spmd.logical_to_mesh_axes(tuple(dims), RULESETS[op[1]]), dims, RULESETS[op[1]], "explicit rules")
        check()
      else:
        rec.nt(depth > 0)
        rec.tag(t)
        before = current[0]

        def inner():
          current[0] = op[1]
          check()
          run(op[2], depth + 1)
          check()

        try:
          if t == "with":
            with nnx.logical_axis_rules(RULESETS[op[1]]):
              inner()
          elif t == "deco":
            nnx.logical_axis_rules(RULESETS[op[1]])(inner)()
          elif t == "stack":
            with contextlib.ExitStack() as stack:
              stack.enter_context(nnx.logical_axis_rules(RULESETS[op[1]]))
              inner()
          elif t == "gen":
            # a scope entered in a generator lasts until the generator ends
            def gen():
              with nnx.logical_axis_rules(RULESETS[op[1]]):
                yield

            g = gen()
            next(g)
            try:
              inner()
            finally:
              g.close()
          else:
            def traced(x):
              with nnx.logical_axis_rules(RULESETS[op[1]]):
                inner()
              return x

            jax.jit(traced)(1)
        except Boom:
          rec.tag("exception")
          current[0] = before
          check()
          if not op[3]:
            raise
        current[0] = before
        check()

  try:
    check()
    try:
      run(case["body"], 0)
    except Boom:
      pass
    check()
  finally:
    spmd.set_logical_axis_rules(())


def scope_cases():
  return bodies(0).map(lambda b: {"body": b})


CHECKS = [
    Check("axes", axes_cases, run_axes, quick=12000, thorough=300000),
    Check("wide", wide_cases, run_axes, quick=600, thorough=30000),
    Check("tree", tree_cases, run_tree, quick=3000, thorough=60000),
    Check("scopes", scope_cases, run_scopes, quick=6000, thorough=100000),
]
