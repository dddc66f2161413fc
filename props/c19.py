"""C19 TrainState steps follow the optimizer exactly."""
import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st

import nnx
from vlib import programs as P
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: parameter states (kinds, metadata, shapes, dtypes, nesting) or module programs with their gradients, an optax "
    "transformation (sgd, momentum, adam family, clipping, decay, schedules, masking, multi-step accumulation, chains), a "
    "starting step, extra fields (states, arrays, containers, static values), and a sequence of up to 5 steps that replace "
    "some of them, each in or out of jit. Oracle: the same optax transformation applied by hand to a plain dictionary of "
    "values and to the state. Non-trivial: a step changes a parameter, or is one of at least two."
)

TOL = 2e-6

TX = {
    "sgd": lambda: optax.sgd(0.1),
    "momentum": lambda: optax.sgd(0.1, momentum=0.9, nesterov=True),
    "adam": lambda: optax.adam(0.05),
    "adamw": lambda: optax.adamw(0.05, weight_decay=0.1),
    "rmsprop": lambda: optax.rmsprop(0.05, eps=1e-3, centered=True),
    "adagrad": lambda: optax.adagrad(0.3),
    "clip": lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.adam(0.1)),
    "decay": lambda: optax.chain(optax.add_decayed_weights(0.1), optax.sgd(0.2)),
    "schedule": lambda: optax.sgd(optax.exponential_decay(0.5, 1, 0.5)),
    "zero": optax.set_to_zero,
    "identity": optax.identity,
    "lion": lambda: optax.lion(0.05),
    "trace": lambda: optax.chain(optax.trace(0.5), optax.scale(-0.1), optax.scale_by_schedule(lambda n: 1.0 / (1 + n))),
    "masked": lambda: optax.masked(optax.adam(0.1), lambda t: jax.tree_util.tree_map(lambda x: x.ndim > 0, t)),
    "multi": lambda: optax.MultiSteps(optax.sgd(0.1), every_k_schedule=2),
    "wide": lambda: optax.stateless(lambda g, p: jax.tree_util.tree_map(lambda x: -0.1 * x.astype(jnp.float32), g)),
}
# gradients of compiled programs differ in the last bits: no division by nearly nothing
STABLE = {
    "sgd": TX["sgd"], "schedule": TX["schedule"], "adam": lambda: optax.adam(0.05, eps=1e-2), "adamw": lambda: optax.adamw(0.05, eps=1e-2),
    "clip": lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.adam(0.1, eps=1e-2)),
}
KINDS = ["Param", "Param", "BatchStat", "CustomVar", "Variable", "Node", None]
SHAPES = [[], [2], [2, 3], [1, 0]]


def entry_specs():
  path = st.lists(st.sampled_from(["a", "b", "w", "x2", "x10"]), min_size=1, max_size=3).map("/".join)
  return st.lists(st.tuples(
      path, st.sampled_from(KINDS), P.metas(), st.sampled_from(SHAPES), st.sampled_from(["f", "f", "f", "h"]), st.integers(0, 20)
  ).map(list), min_size=1, max_size=4, unique_by=lambda e: e[0])


EXTRA_VALUES = st.one_of(
    st.tuples(st.just("arr"), st.integers(0, 9)), st.tuples(st.just("static"), st.sampled_from([1, "s", None, True])),
    st.tuples(st.just("node"), st.integers(0, 9)), st.tuples(st.just("state"), st.integers(0, 9)),
).map(list)


@st.composite
def cases(draw):
  names = draw(st.lists(st.sampled_from(["stats", "ema", "n", "_rest", "zz"]), max_size=3, unique=True))
  extras = [[n, draw(EXTRA_VALUES)] for n in names]
  steps = []
  for _ in range(draw(st.integers(1, 5))):
    which = draw(st.lists(st.sampled_from(names), max_size=2, unique=True)) if names else []
    steps.append({"g": draw(st.integers(0, 20)), "jit": draw(st.booleans()), "set": [[n, draw(st.integers(0, 9))] for n in which],
                  "zero": draw(st.integers(0, 5)) == 0, "wide": draw(st.integers(0, 3)) == 0})
  return {
      "entries": draw(entry_specs()), "tx": draw(st.sampled_from(sorted(TX))), "step": draw(st.sampled_from([None, 0, 5, None, 0, 127, 255, 2047, 32767, 65535, 2**24, 2**31 - 9, -3])), "steparr": draw(st.integers(0, 3)) == 0,
      "extras": extras, "steps": steps,
  }


def make_state(entries):
  out = {}
  for path, kd, meta, shape, dt, seed in entries:
    v = jnp.asarray(V.arr(dt, shape, seed))
    out[path] = v if kd is None else V.KINDS[kd](v, **({} if kd == "Node" else V.make_meta(meta)))
  return nnx.State(out)


def extra(v, k=0):
  t = v[0]
  if t == "static":
    return v[1] if k == 0 else (v[1], k)
  a = jnp.asarray(V.arr("f", [2], v[1] + k))
  if t == "arr":
    return a
  if t == "node":
    return nnx.TreeNode(a)
  return nnx.State({"m": nnx.BatchStat(a), "n/k": a + 1})


def values(state):
  return {k: v.value if isinstance(v, nnx.Node) else v for k, v in state.items()}


def leaves(tree):
  return [np.asarray(x) for x in jax.tree_util.tree_leaves(tree)]


def same_leaves(got, want, tol, what):
  a, b = leaves(got), leaves(want)
  assert len(a) == len(b), f"{what}: {len(a)} leaves instead of {len(b)}"
  for x, y in zip(a, b):
    assert x.dtype == y.dtype and x.shape == y.shape, f"{what}: {x.dtype}{x.shape} instead of {y.dtype}{y.shape}"
    t = tol if x.dtype != np.float16 else max(tol, 2e-3)
    assert np.allclose(x.astype(np.float64), y.astype(np.float64), rtol=t, atol=t, equal_nan=True), f"{what}: {x} instead of {y}"


def same_state(got, like, vals, tol, what):
  """A State with the kinds and metadata of like and these values."""
  assert isinstance(got, nnx.State), f"{what}: {type(got)}"
  assert sorted(got.keys()) == sorted(like.keys()), f"{what}: {sorted(got.keys())}"
  for k, c in like.items():
    g = got[k]
    assert type(g) is type(c) or isinstance(c, jax.Array), f"{what} {k}: {type(g)}"
    if isinstance(c, nnx.Node):
      assert {n: v for n, v in vars(g).items() if n != "value"} == {n: v for n, v in vars(c).items() if n != "value"}, f"{what} {k}: metadata"
    else:
      assert isinstance(g, jax.Array), f"{what} {k}: {type(g)}"
  same_leaves(values(got), vals, tol, what)


def snapshot(ts):
  leaves_, treedef = jax.tree_util.tree_flatten(ts)
  return [(x.dtype, x.shape, x.tobytes()) for x in map(np.asarray, leaves_)], treedef


def run(case, rec):
  module = nnx.Dict()
  params = make_state(case["entries"])
  moduledef = module.partition()[1]
  tx = TX[case["tx"]]()
  kw = {} if case["step"] is None else {"step": jnp.asarray(case["step"], jnp.int32) if case.get("steparr") else case["step"]}
  extras = {n: extra(v) for n, v in case["extras"]}
  ts = nnx.TrainState(moduledef, params=params, tx=tx, **kw, **extras)
  by_hand = {k: v for k, v in values(params).items()}
  opt = tx.init(by_hand)
  hand_state, hand_opt = params, tx.init(params)
  step = case["step"] or 0
  rec.tag(case["tx"])

  def check(ts, what, tol):
    same_state(ts.params, params, by_hand, tol, f"{what}: params")
    same_leaves(ts.opt_state, opt, tol, f"{what}: optimizer state")
    assert jax.tree_util.tree_structure(ts.opt_state) == jax.tree_util.tree_structure(hand_opt), f"{what}: structure of the optimizer state"
    assert int(ts.step) == step and jnp.issubdtype(ts.step.dtype, jnp.integer), f"{what}: step {ts.step} instead of {step}"
    assert ts.tx is tx and ts.moduledef == moduledef, what
    for n, v in extras.items():
      got, raw = getattr(ts, n), vars(ts)[n]
      if isinstance(v, nnx.TreeNode):
        assert type(raw) is nnx.TreeNode, f"{what}: {n} is {type(raw)}"
        v = v.value
      if isinstance(v, (nnx.State, jax.Array)):
        assert jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(v), f"{what}: {n}"
        same_leaves(got, v, 0, f"{what}: {n}")
      else:
        assert got == v and type(got) is type(v), f"{what}: {n} is {got!r} instead of {v!r}"

  check(ts, "new", 0)
  tol = 0
  for i, s in enumerate(case["steps"]):
    what = f"step {i}"
    jit = s["jit"] and case["tx"] != "lion"  # a sign of nearly nothing is not stable under fusion
    grads = jax.tree_util.tree_map(
        lambda x: jnp.asarray(V.arr("f", x.shape, s["g"]) * (0.0 if s["zero"] else 0.5)).astype(
            np.float32 if s.get("wide") and case["tx"] != "multi" else x.dtype), params)
    changes = {n: extra(dict(map(tuple, case["extras"]))[n], k + 1) for n, k in s["set"]}
    before = snapshot(ts)
    static = {n: v for n, v in changes.items() if not isinstance(v, (jax.Array, nnx.State, nnx.TreeNode))}
    dynamic = {n: v for n, v in changes.items() if n not in static}
    fn = lambda t, g, d: t.apply_gradients(grads=g, **d, **static)
    new = (jax.jit(fn) if jit else fn)(ts, grads, dynamic)
    if jit:  # half precision shows in everything computed from it
      tol = 2e-3 if any(e[4] == "h" for e in case["entries"]) else TOL
    assert type(new) is nnx.TrainState and new is not ts
    updates, opt = tx.update(values(grads), opt, by_hand)
    prev, by_hand = by_hand, optax.apply_updates(by_hand, updates)
    u, hand_opt = tx.update(grads, hand_opt, hand_state)
    hand_state = optax.apply_updates(hand_state, u)
    step += 1
    extras.update(changes)
    check(new, what, tol * (i + 1))
    assert snapshot(ts)[0] == before[0] and snapshot(ts)[1] == before[1], f"{what}: the old train state changed"
    rec.nt(i > 0 or any(not np.array_equal(a, b) for a, b in zip(leaves(prev), leaves(by_hand))))
    rec.tag("jit", jit)
    rec.tag("extra fields replaced", bool(changes))
    ts = new


# ------------------------------------------------------------------ training


@st.composite
def train_cases(draw):
  spec = draw(P.programs(max_mods=3, max_ops=4, create=False, kinds=["Param", "Param", "BatchStat", "CustomVar"], containers=True))
  path, i = draw(P.walk_path(spec, 0, 2))
  if spec["mods"][i]["cls"] not in ("P", "P2"):
    path, i = [], 0
  return {
      "g": spec, "path": path, "i": i, "tx": draw(st.sampled_from(["sgd", "adam", "clip", "schedule", "adamw"])), "steps": draw(st.integers(1, 3)),
      "jit": draw(st.booleans()), "by": draw(st.sampled_from(["names", "state", "mixed"])), "method": draw(st.sampled_from(["call", "go"])),
      "ctx": draw(st.booleans()), "over": draw(st.sampled_from([None, None, "name state", "state name", "state state", "twice", "state twice"])),
  }


def run_train(case, rec):
  """A training loop through the train state, against the program on the reference model."""
  spec = case["g"]
  model = P.model_of(spec)
  module = P.build(spec)
  (params, rest), moduledef = module.partition(nnx.Param, ...)
  tx = STABLE[case["tx"]]()
  ts = nnx.TrainState(moduledef, params=params, tx=tx, rest=rest)
  x = jnp.asarray(P.base(4))
  path, method = case["path"], case["method"]

  def applied(ts, params, rest, x, ctx):
    stale = jax.tree_util.tree_map(lambda x: x * 0 + 7, params)  # covered by what comes later
    if case.get("over") == "name state":
      call = ts.replace(params=stale).apply("params", params, "rest")
    elif case.get("over") == "state name":
      call = ts.replace(params=params).apply(stale, "rest", "params")
    elif case.get("over") == "twice":
      call = ts.replace(params=params).apply("params", stale, "params", "rest")
    elif case.get("over") == "state twice":
      call = ts.apply(rest, params, stale, "rest", params)
    elif case.get("over"):
      call = ts.apply("rest", stale, params)
    elif case["by"] == "names":
      call = ts.replace(params=params).apply("params", "rest")
    elif case["by"] == "state":
      call = ts.apply(params, rest)
    else:
      call = ts.apply(params, "rest")
    call = P.LIVE.follow(call, path)
    kw = {} if ctx is None else {"ctx": ctx.merge()}
    return call(x, **kw) if method == "call" else call.go(x, 0.5, **kw)

  def loss(params, ts, x, ctx):
    y, pure = applied(ts, params, ts.rest, x, ctx)
    return jnp.sum(y * y + y), (y, pure)

  def step(ts, x, ctx):
    g, (y, pure) = jax.grad(loss, has_aux=True)(ts.params, ts, x, ctx)
    (_, rest), _ = pure.merge().partition(nnx.Param, ...)
    return ts.apply_gradients(grads=g, rest=rest), y

  if case["jit"]:
    step = jax.jit(step)
  is_param = lambda a: a[0] == "var" and issubclass(V.KINDS[a[1]], nnx.Param)
  vals = {p: a[3] for p, (a, _, _) in P.model_state(model).items() if is_param(a)}
  opt = tx.init(vals)
  tol = 1e-4
  for n in range(case["steps"]):
    ctx = nnx.context(params=n, noise=2, flags={"train": True}).partition() if case["ctx"] else None

    def ref(vals):
      m = P.copy_model(model)
      for p, (a, j, name) in P.model_state(model).items():
        if p in vals:
          m[j]["attrs"][name] = ("var", a[1], a[2], vals[p])
      env = P.Ref(m)
      c = None if ctx is None else ctx.merge()
      y = env.call(env.follow(0, path), x, None if method == "call" else 0.5, c)
      return jnp.sum(y * y + y), (y, m)

    g, (want_y, new) = jax.grad(ref, has_aux=True)(vals) if jax.tree_util.tree_leaves(vals) else (vals, ref(vals)[1])
    updates, opt = tx.update(g, opt, vals)
    vals = optax.apply_updates(vals, updates)
    old = snapshot(ts)[0]
    ts2, y = step(ts, x, ctx)
    assert snapshot(ts)[0] == old, "the old train state changed"
    if not all(np.all(np.isfinite(l)) and np.max(np.abs(l), initial=0) < 50 for l in leaves((vals, want_y, g))):
      return
    P.same_tree(y, want_y, tol, f"step {n}: output")
    # parameters follow the optimizer, everything else what the program left
    for p, (a, j, name) in P.model_state(new).items():
      if p in vals:
        new[j]["attrs"][name] = ("var", a[1], a[2], vals[p])
    got = nnx.State.merge(ts2.params, ts2.rest)
    P.same_state(got, new, tol, f"step {n}")
    assert int(ts2.step) == n + 1
    rec.nt(any(np.any(l != 0) for l in leaves(g)))
    rec.tag("state changes", str(model) != str(new))
    model = new
    ts = ts2


CHECKS = [
    Check("steps", cases, run, quick=300, thorough=6000),
    Check("training", train_cases, run_train, quick=300, thorough=6000),
]
