"""C22 Logical sharding places data without changing values."""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax.sharding import Mesh, NamedSharding, PartitionSpec

import nnx
from nnx import spmd
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases, on 8 host devices: arrays of rank 0 to 3 and dtypes, trees of arrays and of variables with trees (or prefixes) of "
    "names, rule lists, meshes of 5 shapes with permuted devices, given globally, explicitly, both or not at all, rules given "
    "explicitly, by a scope or not, the three fallbacks, eagerly, under jax.jit and under jax.grad; the placement of every result "
    "on the devices and every value is compared with a reference. Variables made with logical partitioning are created, "
    "written, read, split, merged and passed through jit under changing meshes and rules. Layers initialized so are compared "
    "with plain ones. Non-trivial: at least one array is placed over more than one device."
)
ASSUMPTIONS = [
    "the array's rank is at least the number of names, its dimensions are divisible by the mesh axes, rules name axes of the mesh",
    "values are arrays",
]

NAMES = ["a", "b", "c", "d"]
MESHES = {"8": ((8,), ("X",)), "24": ((2, 4), ("X", "Y")), "42": ((4, 2), ("Y", "X")), "222": ((2, 2, 2), ("X", "Y", "Z")), "18": ((1, 8), ("X", "Y"))}
FALLBACK = {"un": "AXIS_IS_UNSHARDED", "raise": "RAISE_ERROR", "no": "NO_CONSTRAINT"}
_cache = {}


def mesh_of(name, perm):
  if (name, perm) not in _cache:
    shape, axes = MESHES[name]
    devices = np.asarray(jax.devices()[:8])
    if perm:
      devices = np.roll(devices[::-1], perm)
    _cache[name, perm] = Mesh(devices.reshape(shape), axes)
  return _cache[name, perm]


@st.composite
def rules_for(draw, mesh):
  axes = list(MESHES[mesh][1])
  one = st.one_of(st.sampled_from(axes), st.sampled_from(axes), st.none(), st.lists(st.sampled_from(axes), min_size=1, max_size=2, unique=True))
  return draw(st.lists(st.tuples(st.sampled_from(NAMES), one).map(list), min_size=draw(st.sampled_from([4, 3, 2, 5, 4, 3, 4, 0])), max_size=7))


@st.composite
def array_spec(draw, dup=True, nullable=True):
  rank = draw(st.sampled_from([2, 1, 3, 2, 3, 2, 1, 0]))
  shape = draw(st.lists(st.sampled_from([8, 8, 16]), min_size=rank, max_size=rank))
  if nullable and draw(st.integers(0, 7)) == 5:
    return [draw(st.sampled_from("fihb")), shape, draw(st.integers(0, 9)), None]
  n = draw(st.sampled_from([len(shape), len(shape), len(shape), max(0, len(shape) - 1)]))
  names = draw(st.permutations(NAMES))[:n]
  names = [x if draw(st.integers(0, 7)) else None for x in names]
  if dup and n >= 2 and draw(st.integers(0, 15)) == 7:
    names[0] = names[1] = "a"
  return [draw(st.sampled_from("fihb")), shape, draw(st.integers(0, 9)), names]


def make_array(spec, np_=False):
  x = V.arr(spec[0], spec[1], spec[2])
  return x if np_ else jnp.asarray(x)


def real_rules(rules):
  return [(n, tuple(a) if isinstance(a, list) else a) for n, a in rules]


def flat(a):
  return set() if a is None else set(a) if isinstance(a, (list, tuple)) else {a}


def placement(names, rules):
  """("refused",) | (axes per name, names without rule)"""
  named = [d for d in names if d is not None]
  if len(set(named)) != len(named):
    return "refused", None
  got, taken = {}, set()
  for name, axes in rules:
    if name in named and name not in got and not (flat(axes) & taken):
      got[name] = tuple(axes) if isinstance(axes, list) else axes
      taken |= flat(axes)
  return [got.get(d) if d is not None else None for d in names], [d for d in named if d not in got]


def expected(names, rules, mesh, fallback="un"):
  """"as is", "refused", or the sharding the result has ("either": names that are refused, but no mesh)."""
  if not rules:
    return "as is"
  if mesh is None:
    if names is None:
      return "as is"
    axes, missing = placement(names, rules)
    return "either" if axes == "refused" or missing and fallback == "raise" else "as is"
  if names is None:
    return NamedSharding(mesh, PartitionSpec())
  axes, missing = placement(names, rules)
  if axes == "refused":
    return "refused"
  if missing and fallback != "un":
    return "refused" if fallback == "raise" else "as is"
  return NamedSharding(mesh, PartitionSpec(*axes))


def check_placed(y, x, want, rec, what, jitted=False, source=None):
  assert isinstance(y, jax.Array) and y.dtype == x.dtype and y.shape == x.shape, f"{what}: {y!r}"
  assert np.array_equal(np.asarray(y), np.asarray(x)), f"{what}: the values changed"
  if isinstance(want, str):
    return
  if len(want.device_set) > 1 and not want.is_fully_replicated:
    rec.nt(True)
  if jitted and want.is_fully_replicated:
    return
  if source is not None and not y.sharding.is_equivalent_to(want, y.ndim):
    # XLA may combine the constraint with the placement of the jitted function's input: what plain JAX does counts
    want = jax.jit(lambda a: jax.lax.with_sharding_constraint(a, want))(source).sharding
  assert y.sharding.is_equivalent_to(want, y.ndim), f"{what}: placed as {y.sharding} instead of {want}"
  if len(want.device_set) > 1:
    for shard in y.addressable_shards:
      idx = want.devices_indices_map(y.shape)[shard.device]
      assert np.array_equal(np.asarray(shard.data), np.asarray(x)[idx]), f"{what}: device {shard.device} holds other values"


@contextlib.contextmanager
def surroundings(global_mesh, rules):
  with contextlib.ExitStack() as stack:
    if global_mesh is not None:
      stack.enter_context(global_mesh)
    if rules is not None:
      stack.enter_context(nnx.logical_axis_rules(rules))
    yield


# ------------------------------------------------------------------ constraints


@st.composite
def where(draw, mesh):
  """How meshes and rules are given."""
  return {
      "mesh": draw(st.sampled_from(["global", "explicit", "both", "global", "explicit", "both", "explicit", "none"])),
      "rules_how": draw(st.sampled_from(["explicit", "scope", "override", "explicit", "scope", "explicit", "scope", "none"])),
      "rules": draw(rules_for(mesh)), "perm": draw(st.integers(0, 3)),
  }


@st.composite
def constraint_cases(draw):
  mesh = draw(st.sampled_from(list(MESHES)))
  return {
      "m": mesh, "where": draw(where(mesh)), "arrays": draw(st.lists(array_spec(), min_size=1, max_size=3)),
      "form": draw(st.sampled_from(["single", "single", "dict", "list", "state", "prefix", "pure", "np", "nonames"])),
      "spec": draw(st.sampled_from(["tuple", "spec"])), "fallback": draw(st.sampled_from(list(FALLBACK))),
      "how": draw(st.sampled_from(["eager", "eager", "jit", "grad"])),
  }


def resolve(w, mesh_name):
  """(context manager arguments, keyword arguments, mesh that counts, rules that count)"""
  mesh = mesh_of(mesh_name, w["perm"])
  other = mesh_of(mesh_name, w["perm"] + 1)
  glob = {"global": mesh, "both": other}.get(w["mesh"])
  kwargs = {}
  if w["mesh"] in ("explicit", "both"):
    kwargs["mesh"] = mesh
  rules = real_rules(w["rules"])
  scope = None
  if w["rules_how"] == "explicit":
    kwargs["rules"] = rules
  elif w["rules_how"] == "scope":
    scope = rules
  elif w["rules_how"] == "override":
    scope = [("a", MESHES[mesh_name][1][0]), ("b", None)]
    kwargs["rules"] = rules
  else:
    rules = []
  return (glob, scope), kwargs, (None if w["mesh"] == "none" else mesh), rules


def run_constraint(case, rec):
  arrays = case["arrays"]
  form, how = case["form"], case["how"]
  around, kwargs, mesh, rules = resolve(case["where"], case["m"])
  fallback = getattr(spmd.RulesFallback, FALLBACK[case["fallback"]])
  if case["fallback"] != "un":
    kwargs["fallback"] = fallback
  if form in ("single", "np", "prefix", "nonames"):
    arrays = arrays[:1]
  if form == "prefix":
    arrays = [[a[0], a[1], s, arrays[0][3]] for a in arrays for s in (1, 2, 3)]
  if form == "nonames":
    arrays = [[a[0], a[1], a[2], None] for a in arrays]
  if how == "grad":
    arrays = [["f", *a[1:]] for a in arrays]
  if form == "np":
    how = "eager"
  xs = [make_array(a, form == "np") for a in arrays]
  wrap = (lambda n: None if n is None else PartitionSpec(*n)) if case["spec"] == "spec" else (lambda n: None if n is None else tuple(n))
  names = [wrap(a[3]) for a in arrays]
  rec.tag(form)
  rec.tag(how)
  rec.tag(case["where"]["mesh"])

  if form in ("single", "np", "nonames"):
    tree, spec, leaves = xs[0], names[0], lambda t: [t]
  elif form == "dict":
    tree, spec = {f"k{i}": x for i, x in enumerate(xs)}, {f"k{i}": n for i, n in enumerate(names)}
    leaves = lambda t: [t[f"k{i}"] for i in range(len(xs))]
  elif form == "list":
    tree, spec, leaves = [xs], [names], lambda t: t[0]
  elif form == "prefix":
    tree, spec, leaves = {"p": xs}, {"p": names[0]}, lambda t: t["p"]
  else:
    tree = nnx.State({f"k{i}": nnx.Param(x, sharding=None if n is None else tuple(n), note="q") for i, (x, n) in enumerate(zip(xs, names))})
    if form == "pure":
      m = V.ModA()
      for k, v in tree.items():
        setattr(m, k, v)
      tree = m.partition()
      state = lambda t: t.get_state()
    else:
      state = lambda t: t
    spec = nnx.get_partition_spec(tree)
    # a variable without a sharding is replicated, like an array without names
    leaves = lambda t: [state(t)[f"k{i}"].value for i in range(len(xs))]

  wants = [expected(n, rules, mesh, case["fallback"]) for n in names]
  if form == "nonames":
    wants = ["as is"]
  elif form in ("state", "pure"):
    wants = [expected(n or (), rules, mesh, case["fallback"]) for n in names]
  elif form == "single" and names[0] is None:
    wants = ["as is"]
  elif form == "np" and names[0] is None:
    wants = ["as is"]
  refused = "refused" in wants

  def f(t):
    return spmd.with_logical_constraint(t, spec, **kwargs)

  result = None
  with surroundings(*around):
    try:
      if how == "eager":
        result = f(tree)
      elif how == "jit":
        result = jax.jit(f)(tree)
      else:
        floats = jax.tree_util.tree_map(lambda x: x.astype(jnp.float32), tree)
        tree = floats
        result, vjp = jax.vjp(f, floats)
        (back,) = vjp(result)
    except ValueError as e:
      assert refused or "either" in wants, f"refused: {e}"
  if result is None:
    rec.tag("refused")
    return
  assert not refused, "names that have no rule or are repeated were accepted"
  assert jax.tree_util.tree_structure(result) == jax.tree_util.tree_structure(tree), f"{result!r}"
  for i, (x, y, want) in enumerate(zip(leaves(tree), leaves(result), wants)):
    what = f"array {i} with names {names[i]}"
    if want in ("as is", "either") and how == "eager":
      assert y is x, f"{what}: not returned as is"
    if want in ("as is", "either") and form == "np":
      continue
    check_placed(y, x, want, rec, what, jitted=how == "jit")
  if how == "grad":
    for x, y in zip(leaves(tree), leaves(back)):
      assert np.array_equal(np.asarray(x), np.asarray(y)), "the gradient changed values"


# ------------------------------------------------------------------ variables


@st.composite
def variable_cases(draw):
  mesh = draw(st.sampled_from(list(MESHES)))
  arr = draw(array_spec(dup=draw(st.integers(0, 9)) == 6))
  steps = []
  for _ in range(draw(st.integers(1, 5))):
    steps.append([
        draw(st.sampled_from(["read", "read", "write", "merge", "jitread", "jitwrite", "clone", "grad"])), draw(st.booleans()),
        draw(st.one_of(st.none(), rules_for(mesh))), draw(st.integers(0, 9)),
    ])
  return {
      "m": mesh, "perm": draw(st.integers(0, 3)), "arr": ["f", *arr[1:]], "explicit_mesh": draw(st.booleans()),
      "explicit_rules": draw(st.one_of(st.none(), rules_for(mesh), rules_for(mesh))),
      "kind": draw(st.sampled_from(["Param", "BatchStat", "CustomVar"])), "create": [draw(st.booleans()), draw(st.one_of(st.none(), rules_for(mesh)))],
      "jit_create": draw(st.booleans()), "kwargs": draw(st.booleans()), "steps": steps,
  }


def run_variable(case, rec):
  mesh = mesh_of(case["m"], case["perm"])
  other = mesh_of(case["m"], case["perm"] + 1)
  arr = case["arr"]
  names = None if arr[3] is None else tuple(arr[3])
  own_rules = None if case["explicit_rules"] is None else real_rules(case["explicit_rules"])
  kind = V.KINDS[case["kind"]]
  x = make_array(arr)
  made = []

  def init(shift=0):
    made.append(shift)
    return x + shift

  wrapped = nnx.with_logical_partitioning(init, sharding=names, mesh=mesh if case["explicit_mesh"] else None, rules=own_rules, note="n")
  assert wrapped.__name__ == "init"

  def count(use_global, scope):
    """The mesh and the rules that count."""
    m = mesh if case["explicit_mesh"] else other if use_global else None
    return m, own_rules if own_rules is not None else real_rules(scope) if scope is not None else []

  def around(use_global, scope):
    return surroundings(other if use_global else None, None if scope is None else real_rules(scope))

  def build():
    m = V.ModA()
    m.w = kind(wrapped(shift=1) if case["kwargs"] else wrapped(1))
    return m

  use_global, scope = case["create"]
  where_, rules = count(use_global, scope)
  want = "as is" if names is None else expected(names, rules, where_)
  try:
    with around(use_global, scope):
      m = jax.jit(lambda: build().partition())().merge() if case["jit_create"] else build()
  except ValueError:
    assert want in ("refused", "either"), f"creation was refused"
    rec.tag("refused")
    return
  assert want != "refused", "repeated names were accepted"
  model = np.asarray(np.asarray(x) + 1, np.float32)

  def container(m):
    c = m.get_state()["w"]
    assert type(c) is kind and c.sharding == names and c.note == "n", f"{c!r}"
    return c

  check_placed(container(m).value, model, want, rec, "created value", jitted=case["jit_create"])
  for i, (op, use_global, scope, k) in enumerate(case["steps"]):
    what = f"step {i} {op}"
    where_, rules = count(use_global, scope)
    want = expected(names or (), rules, where_)
    if want == "either":
      continue
    if want == "refused":
      try:
        with around(use_global, scope):
          m.w
      except ValueError:
        continue
      raise AssertionError(f"{what}: repeated names were accepted")
    with around(use_global, scope):
      if op == "read":
        y = m.w
        check_placed(y, model, want, rec, what)
        if want == "as is":
          assert y is container(m).value, f"{what}: not returned as is"
      elif op == "write":
        m.w = jnp.asarray(model + k)
        model = np.asarray(model + k, np.float32)
      elif op == "merge":
        state, d = m.partition()
        m = d.merge(state)
      elif op == "clone":
        m = m.partition().merge()
      elif op == "jitread":
        y = jax.jit(lambda p: p.merge().w)(m.partition())
        check_placed(y, model, want, rec, what, jitted=True, source=container(m).value)
      elif op == "jitwrite":
        def bump(m):
          m.w = m.w + k
          return 0

        nnx.jit(bump)(m)
        model = np.asarray(model + k, np.float32)
      else:
        g = nnx.grad(lambda m: jnp.sum(m.w * m.w) / 2, wrt=kind)(m)
        assert np.array_equal(np.asarray(g["w"].value), model), f"{what}: gradient"
    rec.tag(op)
    assert np.array_equal(np.asarray(container(m).value), model), f"{what}: the value changed"


# ------------------------------------------------------------------ layers


@st.composite
def layer_cases(draw):
  mesh = draw(st.sampled_from(list(MESHES)))
  names = draw(st.permutations(NAMES))[:3]
  return {"m": mesh, "perm": draw(st.integers(0, 3)), "rules": draw(rules_for(mesh)), "names": list(names), "seed": draw(st.integers(0, 5)),
          "layer": draw(st.sampled_from(["linear", "embed", "norm", "scan"])), "explicit": draw(st.booleans()), "din": draw(st.sampled_from([8, 16])),
          "how": draw(st.sampled_from(["eager", "jit", "nnxjit"]))}


class Block(nnx.Module):

  def __init__(self, din, kernel_init, bias_init, *, ctx):
    self.linear = nnx.Linear(din, din, kernel_init=kernel_init, bias_init=bias_init, ctx=ctx)

  def __call__(self, x, _):
    return self.linear(x), None


def run_layer(case, rec):
  mesh = mesh_of(case["m"], case["perm"])
  n1, n2, n3 = case["names"]
  din = case["din"]
  rules = real_rules(case["rules"])
  kw = dict(mesh=mesh, rules=rules) if case["explicit"] else {}

  def part(init, *names):
    return nnx.with_logical_partitioning(init, sharding=names, **kw)

  plain_k, plain_b = nnx.initializers.lecun_normal(), nnx.initializers.normal()
  x = jnp.asarray(V.arr("f", [8, din], 3)) / 4
  if case["layer"] == "linear":
    make = lambda k, b: nnx.Linear(din, 8, kernel_init=k, bias_init=b, ctx=nnx.context(case["seed"]))
    inits, shardings = (part(plain_k, n1, n2), part(plain_b, n2)), {"kernel": (n1, n2), "bias": (n2,)}
    call = lambda m, x: m(x)
  elif case["layer"] == "embed":
    make = lambda k, b: nnx.Embed(16, din, embedding_init=k, ctx=nnx.context(case["seed"]))
    inits, shardings = (part(plain_k, n1, n2), None), {"embedding": (n1, n2)}
    call = lambda m, x: m.attend(x) if hasattr(m, "attend") else m(x)
  elif case["layer"] == "norm":
    make = lambda k, b: nnx.LayerNorm(din, scale_init=k, bias_init=b, ctx=nnx.context(case["seed"]))
    plain_k = nnx.initializers.normal()
    inits, shardings = (part(plain_k, n1), part(plain_b, n1)), {"scale": (n1,), "bias": (n1,)}
    call = lambda m, x: m(x)
  else:
    def make(k, b):
      return nnx.Scan(Block, variable_axes={nnx.Param: 0}, length=8, metadata_params={nnx.PARTITION_NAME: n3})(din, k, b, ctx=nnx.context(case["seed"]))

    inits, shardings = (part(plain_k, n1, n2), part(plain_b, n2)), {"scan_module/linear/kernel": (n3, n1, n2), "scan_module/linear/bias": (n3, n2)}
    call = lambda m, x: m(x, None)[0]
  plain = make(plain_k, plain_b)
  want = call(plain, x)
  with surroundings(None if case["explicit"] else mesh, None if case["explicit"] else rules):
    m = make(*inits)
    if case["how"] == "eager":
      y = call(m, x)
    elif case["how"] == "jit":
      y = jax.jit(lambda p, x: call(p.merge(), x))(m.partition(), x)
    else:
      y = nnx.jit(call)(m, x)
    got, base = m.get_state(), plain.get_state()
    assert sorted(got) == sorted(base)
    for path, sharding in shardings.items():
      c = got[path]
      assert c.sharding == sharding, f"{path}: {c.sharding}"
      assert np.array_equal(np.asarray(c.value), np.asarray(base[path].value)), f"{path}: the values changed"
      owner = m
      for name in path.split("/")[:-1]:
        owner = getattr(owner, name)
      read = getattr(owner, path.split("/")[-1])
      check_placed(read, base[path].value, expected(sharding, rules, mesh), rec, f"reading {path}")
  assert np.allclose(np.asarray(y), np.asarray(want), rtol=1e-4, atol=1e-5), f"the output changed: {y} instead of {want}"
  rec.tag(case["layer"])


CHECKS = [
    Check("constraint", constraint_cases, run_constraint, quick=4000, thorough=60000),
    Check("variable", variable_cases, run_variable, quick=1000, thorough=15000),
    Check("layer", layer_cases, run_layer, quick=160, thorough=1500),
]
