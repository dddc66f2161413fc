"""C25 BatchNorm and LayerNorm compute and track the right statistics."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from props import c23
from vlib import numerics as N
from vlib.driver import Check

RULE = (
    "Cases: histories of up to 5 calls of one BatchNorm layer (all ranks, feature axes, momenta, epsilons, dtypes, with and "
    "without scale and bias) in training and evaluation mode, the mode being given by every combination of call argument, layer "
    "attribute and context flag (also contradicting or missing ones), directly, through split and merge, nnx.jit and apply, against "
    "a float64 model that carries the running statistics; LayerNorm over every set of reduction and feature axes; both with an axis "
    "name under vmap and (with index groups) pmap on 8 devices against the statistics of the union of the shards; "
    "derivatives by input, parameters and running statistics, through the statistics, against differences of the float64 formula; "
    "inputs with NaNs, which must show in what is computed from them and nowhere else. "
    "Non-trivial: at least two training calls or one training and one evaluation call; at least two reduced elements; two shards."
)
ASSUMPTIONS = [
    "inputs are not empty, and their squares are representable in float32 (the documented formula is E[x^2] - E[x]^2)",
    "the allowed error is that of this formula in float32", "index groups have equal sizes",
]

E32 = N.EPS["float32"]
FLOATS = ["float32", "float32", "float16", "bfloat16"]
TRI = [None, True, False]


def stats(x, axes, groups=None):
  """Mean and variance in float64 with the errors the float32 formula may have."""
  n = int(np.prod([x.shape[a] for a in axes])) if axes else 1
  mean = x.mean(axes, keepdims=True)
  m2 = (np.abs(x) ** 2).mean(axes, keepdims=True)
  var = np.maximum(0, m2 - np.abs(mean) ** 2)
  dmean = E32 * (n + 4) * np.abs(x).mean(axes, keepdims=True)
  dvar = E32 * (n + 4) * 3 * m2
  return mean, var, dmean, dvar


def normalized(x, mean, var, dmean, dvar, scale, bias, eps, dtype):
  """Reference output with its error bound in units of eps(dtype)."""
  r = 1 / np.sqrt(var + eps)
  rmax, rmin = 1 / np.sqrt(np.maximum(var - dvar, 0) + eps), 1 / np.sqrt(var + dvar + eps)
  s = np.ones(()) if scale is None else scale
  b = np.zeros(()) if bias is None else bias
  y = (x - mean) * r * s + b
  err = (np.abs(x - mean) + dmean) * np.abs(s) * (rmax - rmin) + dmean * rmax * np.abs(s)
  err = err + 6 * E32 * ((np.abs(x) + np.abs(mean)) * rmax * np.abs(s) + np.abs(b))
  e = N.EPS[str(jnp.dtype(dtype))]
  return y, err / e + 1.5 * (np.abs(y) + err)


def feature_view(v, ndim, axes, shape):
  """A parameter seen in the shape of the input."""
  if v is None:
    return None
  out = [1] * ndim
  for a in axes:
    out[a] = shape[a]
  return N.wide(v).reshape(out)


@st.composite
def layer_args(draw):
  return {
      "scale": draw(st.sampled_from([True, True, False])), "bias": draw(st.sampled_from([True, True, False])), "init": draw(st.sampled_from(["default", "recorded", "given"])),
      "dtype": draw(st.sampled_from([None, None, None, "float32", "float16", "bfloat16"])), "pdtype": draw(st.sampled_from(FLOATS)),
      "eps": draw(st.sampled_from([None, 1e-3, 0.1, 1e-5])), "seed": draw(st.integers(0, 30)), "stream": draw(st.sampled_from(["params", "default", "both"])), "drawn": draw(st.integers(0, 1)),
  }


def construct(cls, n, args, extra, default_eps):
  """(layer, epsilon), with its parameters checked and made distinct"""
  kwargs = dict(extra)
  sinit = binit = None
  if args["init"] != "default":
    sinit, binit = c23.Recorder(c23.plain_init(args["init"], 1)), c23.Recorder(c23.plain_init(args["init"], 2))
    kwargs.update(scale_init=sinit, bias_init=binit)
  if not args["scale"]:
    kwargs["use_scale"] = False
  if not args["bias"]:
    kwargs["use_bias"] = False
  if args["dtype"]:
    kwargs["dtype"] = jnp.dtype(args["dtype"])
  if args["pdtype"] != "float32":
    kwargs["param_dtype"] = jnp.dtype(args["pdtype"])
  if args["eps"] is not None:
    kwargs["epsilon"] = args["eps"]
  m = cls(n, ctx=c23.context(args), **kwargs)
  keys = c23.keys_of(args, 3)
  state = m.get_state()
  used = []
  for name, on, default, init, seed in (("scale", args["scale"], jax.nn.initializers.ones, sinit, 1), ("bias", args["bias"], jax.nn.initializers.zeros, binit, 2)):
    assert type(state[name]) is nnx.Param, f"{state!r}"
    v = getattr(m, name)
    if not on:
      assert v is None, f"{name}: {v!r}"
      continue
    used.append(c23.check_param(v, (n,), args["pdtype"], args["init"], default, keys, init, seed, name))
    if args["init"] == "default":
      setattr(m, name, N.data(args["pdtype"], (n,), args["seed"] + seed))
  assert args["init"] == "default" or len(used) < 2 or used[0] != used[1], "scale and bias were initialized with the same key"
  return m, default_eps if args["eps"] is None else args["eps"]


def result_dtype(args, x, m):
  return c23.result_dtype(args, *[a for a in (x, m.scale, m.bias) if a is not None])


# ------------------------------------------------------------------ batch norm


@st.composite
def batch_cases(draw):
  rank = draw(st.integers(1, 4))
  shape = [draw(st.sampled_from([3, 2, 4, 1])) for _ in range(rank)]
  axis = draw(st.integers(-rank, rank - 1)) if draw(st.booleans()) else -1
  steps = []
  for _ in range(draw(st.integers(1, 5))):
    steps.append({
        "call": draw(st.sampled_from(TRI)), "flag": draw(st.sampled_from(["none", "empty", True, False])), "how": draw(st.sampled_from(["call", "call", "jit", "apply", "merge", "eval"])),
        "x": draw(st.integers(0, 1000)), "xdtype": draw(st.sampled_from(["float32", "float32", "float16", "bfloat16", "int32"])), "mag": draw(st.sampled_from([1, 1, 20])),
        "shift": draw(st.sampled_from([0, 0, 5])), "vary": draw(st.integers(0, 2)),
    })
  return {"args": draw(layer_args()), "shape": shape, "axis": axis, "layer": draw(st.sampled_from(TRI)), "momentum": draw(st.sampled_from([None, 0.9, 0.5, 0.0, 1.0])), "steps": steps, "complex": draw(st.integers(0, 7)) == 5}


def complex_args(args):
  """The layer for complex inputs: its result cannot be forced to a real type."""
  return {**args, "dtype": args["dtype"] and "complex64"}


def make_input(step, shape, axis):
  shape = list(shape)
  for i in range(len(shape)):
    if i != axis % len(shape):
      shape[i] += step["vary"]
      break
  x = N.data(step["xdtype"], tuple(shape), step["x"], step["mag"])
  return (x + jnp.asarray(step["shift"], x.dtype)).astype(x.dtype)


def run_batch(case, rec):
  args, shape, axis = case["args"], case["shape"], case["axis"]
  steps = case["steps"]
  if case.get("complex"):
    args, steps = complex_args(args), [{**s, "xdtype": "complex64"} for s in steps]
  n = shape[axis]
  extra = {}
  if axis != -1:
    extra["axis"] = axis
  if case["layer"] is not None:
    extra["use_running_average"] = case["layer"]
  if case["momentum"] is not None:
    extra["momentum"] = case["momentum"]
  m, eps = construct(nnx.BatchNorm, n, args, extra, 1e-5)
  mom = 0.99 if case["momentum"] is None else case["momentum"]
  state = m.get_state()
  assert sorted(state) == ["bias", "mean", "scale", "var"]
  for name, v in (("mean", 0), ("var", 1)):
    assert type(state[name]) is nnx.BatchStat and str(state[name].value.dtype) == "float32" and np.array_equal(np.asarray(state[name].value), np.full(n, v)), f"initial {name}: {state[name]!r}"
  mean, var = np.zeros(n), np.ones(n)
  emean, evar = np.zeros(n), np.zeros(n)  # errors of the running statistics
  trained = evaluated = 0
  mean_dtype = "float32"
  for i, step in enumerate(steps):
    what = f"call {i}"
    x = make_input(step, shape, axis)
    ndim = x.ndim
    feature = axis % ndim
    axes = tuple(a for a in range(ndim) if a != feature)
    ctx = None
    if step["flag"] != "none":
      ctx = nnx.context(0, flags={} if step["flag"] == "empty" else {"use_running_average": step["flag"]})
    mode = step["call"]
    if mode is None:
      mode = case["layer"]
    if mode is None and isinstance(step["flag"], bool):
      mode = step["flag"]
    before = {k: np.asarray(v.value) for k, v in m.get_state().items() if v.value is not None}
    kw = {}
    if step["call"] is not None:
      kw["use_running_average"] = step["call"]
    if ctx is not None:
      kw["ctx"] = ctx
    how = step["how"]
    if how == "eval" and mode is not True:
      how = "call"

    def call():
      nonlocal m
      if how == "jit":
        k = dict(kw)
        c = k.pop("ctx", None)
        return nnx.jit(lambda m, x, ctx=None: m(x, **k, **({} if ctx is None else {"ctx": ctx})))(m, x, **({} if c is None else {"ctx": c}))
      if how == "apply":
        y, pure = m.partition().apply(x, **kw)
        m = pure.merge()
        return y
      if how == "merge":
        m = m.partition().merge()
      if how == "eval":
        # evaluation changes nothing, so it is allowed where mutation is not
        return jax.jit(lambda x: m(x, **{k: v for k, v in kw.items() if k != "ctx"}, **({"ctx": ctx} if ctx is not None else {})))(x)
      return m(x, **kw)

    if mode is None:
      try:
        call()
      except ValueError:
        rec.tag("no mode")
        after = m.get_state()
        assert all(np.array_equal(np.asarray(after[k].value), v) for k, v in before.items()), f"{what}: refused, but changed"
        continue
      raise AssertionError(f"{what}: accepted without a mode")
    y = call()
    rec.tag(how)
    rec.tag("complex", bool(case.get("complex")))
    if case.get("complex") and not mode:
      mean_dtype = "complex64"  # the mean of complex numbers is one
    after = m.get_state()
    for name in ("mean", "var"):
      v = after[name]
      assert type(v) is nnx.BatchStat and str(v.value.dtype) == (mean_dtype if name == "mean" else "float32") and v.value.shape == (n,), f"{what}: {name} is {v!r}"
    for name in ("scale", "bias"):
      if name in before:
        assert np.array_equal(np.asarray(after[name].value), before[name]), f"{what}: {name} changed"
    xw = N.wide(x)
    view = [1] * ndim
    view[feature] = n
    if mode:
      evaluated += 1
      for name in ("mean", "var"):
        assert np.array_equal(np.asarray(after[name].value), before[name]), f"{what}: evaluation changed {name}"
      mu, va, dm, dv = N.wide(before["mean"]).reshape(view), N.wide(before["var"]).reshape(view), 0.0, 0.0
    else:
      trained += 1
      mu, va, dm, dv = stats(xw, axes)
      f = lambda a: np.asarray(a).reshape(n)
      emean = mom * emean + (1 - mom) * f(dm) + 4 * E32 * (np.abs(mean) + np.abs(f(mu)))
      evar = mom * evar + (1 - mom) * f(dv) + 4 * E32 * (np.abs(var) + np.abs(f(va)))
      mean = mom * mean + (1 - mom) * f(mu)
      var = mom * var + (1 - mom) * f(va)
      N.close(after["mean"].value, mean, emean / E32 + 1e-3, mean_dtype, f"{what}: running mean")
      N.close(after["var"].value, var, evar / E32 + 1e-3, "float32", f"{what}: running variance")
    dt = result_dtype(args, x, m)
    want, bound = normalized(xw, mu, va, dm, dv, feature_view(m.scale, ndim, (feature,), x.shape), feature_view(m.bias, ndim, (feature,), x.shape), eps, dt)
    N.close(y, want, bound, dt, f"{what}: output")
    # the model continues from the real statistics, so errors do not add up
    mean, var = N.wide(after["mean"].value), N.wide(after["var"].value)
    emean, evar = np.zeros(n), np.zeros(n)
  rec.nt(trained >= 2 or trained and evaluated)


# ------------------------------------------------------------------ layer norm


@st.composite
def layernorm_cases(draw):
  rank = draw(st.integers(1, 4))
  shape = [draw(st.sampled_from([3, 2, 4, 1])) for _ in range(rank)]

  def axes_set():
    chosen = draw(st.lists(st.integers(0, rank - 1), min_size=1, max_size=rank, unique=True))
    return [a - rank if draw(st.booleans()) else a for a in chosen]

  return {
      "args": draw(layer_args()), "shape": shape, "red": axes_set() if draw(st.booleans()) else None, "feat": axes_set() if draw(st.sampled_from([True, False, False])) else None,
      "single": draw(st.booleans()), "x": draw(st.integers(0, 1000)), "xdtype": draw(st.sampled_from(["float32", "float32", "float16", "bfloat16", "int32", "float32", "float32", "complex64"])),
      "how": draw(st.sampled_from(["call", "jit", "apply", "merge", "np"])), "mag": draw(st.sampled_from([1, 1, 20])), "shift": draw(st.sampled_from([0, 0, 5])),
  }


def run_layernorm(case, rec):
  shape, rank = tuple(case["shape"]), len(case["shape"])
  red = [-1] if case["red"] is None else case["red"]
  feat = [-1] if case["feat"] is None else case["feat"]
  extra = {}
  form = lambda a: a[0] if len(a) == 1 and case["single"] else tuple(a)
  if case["red"] is not None:
    extra["reduction_axes"] = form(red)
  if case["feat"] is not None:
    extra["feature_axes"] = form(feat)
  fpos = sorted(a % rank for a in feat)
  n = int(np.prod([shape[a] for a in fpos]))
  args = complex_args(case["args"]) if case["xdtype"] == "complex64" else case["args"]
  m, eps = construct(nnx.LayerNorm, n, args, extra, 1e-6)
  assert sorted(m.get_state()) == ["bias", "scale"]
  x = N.data(case["xdtype"], shape, case["x"], case["mag"])
  x = (x + jnp.asarray(case["shift"], x.dtype)).astype(x.dtype)

  def plain(m, x):
    return m(x)

  y = c23.forward(case["how"], m, x, plain)
  axes = tuple(a % rank for a in red)
  mu, va, dm, dv = stats(N.wide(x), axes)
  dt = result_dtype(args, x, m)
  want, bound = normalized(N.wide(x), mu, va, dm, dv, feature_view(m.scale, rank, fpos, shape), feature_view(m.bias, rank, fpos, shape), eps, dt)
  N.close(y, want, bound, dt, f"output for {x.dtype}{list(shape)}")
  rec.nt(int(np.prod([shape[a] for a in axes])) > 1)
  rec.tag(case["how"])
  rec.tag("several features axes", len(feat) > 1)


# ------------------------------------------------------------------ shards


@st.composite
def shard_cases(draw):
  layer = draw(st.sampled_from(["batch", "batch", "layer"]))
  how = draw(st.sampled_from(["vmap", "vmap", "pmap", "groups"]))
  shards = draw(st.sampled_from([2, 4, 8])) if how == "groups" else draw(st.integers(1, 4))
  groups = None
  if how == "groups":
    size = draw(st.sampled_from([s for s in (1, 2, 4) if s <= shards]))
    order = draw(st.permutations(range(shards)))
    groups = [list(order[i:i + size]) for i in range(0, shards, size)]
  return {
      "layer": layer, "how": how, "shards": shards, "groups": groups, "shape": [draw(st.sampled_from([3, 2, 4, 1])) for _ in range(draw(st.integers(1, 3)))],
      "x": draw(st.integers(0, 1000)), "momentum": draw(st.sampled_from([0.9, 0.5])), "xdtype": draw(st.sampled_from(["float32", "float32", "float16", "float32", "complex64"])), "calls": draw(st.integers(1, 2)),
      "scale": draw(st.booleans()), "bias": draw(st.booleans()), "at": draw(st.integers(0, 1)),
  }


def run_shards(case, rec):
  shape, k = tuple(case["shape"]), case["shards"]
  n = shape[-1]
  kwargs = dict(axis_name="shards", use_scale=case["scale"], use_bias=case["bias"], scale_init=c23.plain_init("given", 1), bias_init=c23.plain_init("given", 2), ctx=nnx.context(0))
  if case["groups"] is not None:
    kwargs["axis_index_groups"] = case["groups"]
  rec.nt(k > 1)
  rec.tag(case["how"])
  if case["layer"] == "batch":
    m = nnx.BatchNorm(n, momentum=case["momentum"], use_running_average=False, **kwargs)
    eps = 1e-5
  else:
    m = nnx.LayerNorm(n, **kwargs)
    eps = 1e-6
  groups = case["groups"] or [list(range(k))]
  mean, var = [np.zeros(n)] * k, [np.ones(n)] * k
  state, d = m.partition()
  for i in range(case["calls"]):
    x = N.data(case["xdtype"], (k,) + shape, case["x"] + i)

    def f(state, x):
      y, pure = d.apply(state)(x)
      return y, pure.get_state()

    if i == 0:
      state = jax.tree_util.tree_map(lambda v: jnp.broadcast_to(v, (k,) + v.shape), state)
    if case["how"] == "vmap":
      axis = case["at"] if x.ndim > 1 else 0
      y, state = jax.vmap(f, in_axes=(0, axis), out_axes=0, axis_name="shards")(state, jnp.moveaxis(x, 0, axis))
    else:
      y, state = jax.pmap(f, axis_name="shards")(state, x)
    y = np.asarray(y)
    xw = N.wide(x)
    for g in groups:
      part = xw[g]
      if case["layer"] == "batch":
        mu, va, dm, dv = stats(part, tuple(range(part.ndim - 1)))
      else:
        mu, va, dm, dv = stats(part, (0, part.ndim - 1))
      dm, dv = dm * 2, dv * 2
      dt = str(jnp.result_type(x, *[jnp.float32] * (case["scale"] or case["bias"])))
      want, bound = normalized(part, mu, va, dm, dv, None if not case["scale"] else N.wide(m.scale), None if not case["bias"] else N.wide(m.bias), eps, dt)
      N.close(y[np.asarray(g)], want, bound, dt, f"call {i}, shards {g}")
      if case["layer"] == "batch":
        for s in g:
          for name, old, stat, err in (("mean", mean, mu, dm), ("var", var, va, dv)):
            new = case["momentum"] * old[s] + (1 - case["momentum"]) * stat.reshape(n)
            real = state[name].value[s]
            N.close(real, new, err.reshape(n) / E32 + 4 * (np.abs(old[s]) + np.abs(stat.reshape(n))) + 1e-3, "complex64" if name == "mean" and case["xdtype"] == "complex64" else "float32", f"call {i}, shard {s}: running {name}")
            old = list(old)
            if name == "mean":
              mean = mean[:s] + [N.wide(real)] + mean[s + 1:]
            else:
              var = var[:s] + [N.wide(real)] + var[s + 1:]


# ------------------------------------------------------------------ gradients


@st.composite
def grad_cases(draw):
  rank = draw(st.integers(1, 3))
  return {
      "layer": draw(st.sampled_from(["train", "train", "eval", "layer"])), "shape": [draw(st.sampled_from([3, 2, 4, 1])) for _ in range(rank)], "at": draw(st.integers(-rank, rank - 1)),
      "how": draw(st.sampled_from(["nnx", "jax", "jax"])), "scale": draw(st.booleans()), "bias": draw(st.booleans()), "eps": draw(st.sampled_from([0.1, 0.01, 1.0])), "x": draw(st.integers(0, 1000)),
  }


def run_grad(case, rec):
  """Derivatives go through the statistics of the input too."""
  shape, axis = tuple(case["shape"]), case["at"]
  n = shape[axis]
  rank = len(shape)
  kind = case["layer"]
  kwargs = dict(epsilon=case["eps"], use_scale=case["scale"], use_bias=case["bias"], scale_init=c23.plain_init("given", 1), bias_init=c23.plain_init("given", 2), ctx=nnx.context(0))
  if kind == "layer":
    m = nnx.LayerNorm(n, reduction_axes=axis, feature_axes=axis, **kwargs)
    red = (axis % rank,)
  else:
    m = nnx.BatchNorm(n, axis=axis, use_running_average=kind == "eval", **kwargs)
    m.mean, m.var = N.data("float32", (n,), case["x"] + 1), jnp.abs(N.data("float32", (n,), case["x"] + 2))
    red = tuple(a for a in range(rank) if a != axis % rank)
  x = N.data("float32", shape, case["x"])

  def ref(p, x):
    if kind == "eval":
      mean, var = feature_view(p["mean"], rank, [axis % rank], shape), feature_view(p["var"], rank, [axis % rank], shape)
    else:
      mean, var = x.mean(red, keepdims=True), x.var(red, keepdims=True)
    y = (x - mean) / np.sqrt(var + case["eps"])
    for name, f in (("scale", np.multiply), ("bias", np.add)):
      if name in p:
        y = f(y, feature_view(p[name], rank, [axis % rank], shape))
    return y

  N.check_gradients(m, x, lambda m, x: m(x), ref, case["how"], f"{kind} norm of {shape}")
  rec.tag(kind)
  rec.nt(kind == "eval" or int(np.prod([shape[a] for a in red])) > 1)


# ------------------------------------------------------------------ NaNs


@st.composite
def nan_cases(draw):
  return {
      "layer": draw(st.sampled_from(["batch", "layer"])), "n": draw(st.integers(1, 4)), "m": draw(st.integers(1, 4)),
      "nan": draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=1, max_size=3)), "x": draw(st.integers(0, 1000)),
      "momentum": draw(st.sampled_from([0.9, 0.5, 0.0])), "scale": draw(st.booleans()), "jit": draw(st.booleans()),
      "dtype": draw(st.sampled_from(FLOATS)),
  }


def run_nans(case, rec):
  """NaNs show in whatever is computed from them, and nowhere else."""
  n, f = case["n"], case["m"]
  x = np.asarray(N.data(case["dtype"], (n, f), case["x"]))
  bad = x.copy()
  for i, j in case["nan"]:
    bad[i % n, j % f] = np.nan
  isnan = np.isnan(bad.astype(np.float32))
  kwargs = dict(use_scale=case["scale"], use_bias=case["scale"], ctx=nnx.context(0))
  rec.tag(case["layer"])
  wrap = nnx.jit if case["jit"] else lambda f: f
  same = lambda a, b, keep: np.testing.assert_allclose(np.asarray(a, np.float32)[keep], np.asarray(b, np.float32)[keep], rtol=1e-2, atol=1e-2)

  if case["layer"] == "layer":
    rows = isnan.any(1)
    rec.nt(not rows.all())
    m = nnx.LayerNorm(f, **kwargs)
    got, want = (np.asarray(wrap(lambda m, x: m(x))(m, jnp.asarray(v)), np.float32) for v in (bad, x))
    assert np.isnan(got[rows]).all(), f"a row with a NaN is normalized to {got[rows]}"
    same(got, want, ~rows)
    return
  cols = isnan.any(0)
  rec.nt(not cols.all())
  out = []
  for v in (bad, x):
    m = nnx.BatchNorm(f, momentum=case["momentum"], **kwargs)
    train = wrap(lambda m, x: m(x, use_running_average=False))
    y = train(m, jnp.asarray(v))
    y2 = wrap(lambda m, x: m(x, use_running_average=True))(m, jnp.asarray(x))
    out.append([np.asarray(a, np.float32) for a in (y, y2, m.mean, m.var)])
  for what, got, want in zip(["the output", "the output with running statistics", "the running mean", "the running variance"], *out):
    assert np.isnan(got[..., cols]).all(), f"{what} of a feature with a NaN is {got[..., cols]}"
    same(got, want, (..., ~cols))


CHECKS = [
    Check("nans", nan_cases, run_nans, quick=200, thorough=4000),
    Check("batch", batch_cases, run_batch, quick=800, thorough=6000),
    Check("layernorm", layernorm_cases, run_layernorm, quick=700, thorough=6000),
    Check("grad", grad_cases, run_grad, quick=100, thorough=1500),
    Check("shards", shard_cases, run_shards, quick=250, thorough=2000),
]
