"""C27 Exported activations and initializers match their definitions."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import numerics as N
from vlib.driver import Check

RULE = (
    "Cases: each of the 25 exported activations over arrays of rank 0 to 3 of float32, float16 and bfloat16, "
    "with values from tiny to the largest finite ones, all their options and axes, eagerly and jitted, against float64 "
    "formulas, and their derivatives (away from kinks) against central differences of these formulas; each exported initializer over "
    "shapes of rank 1 to 4, dtypes, options and keys: shape, dtype, dependence on the key alone, bounds, moments within 8 standard "
    "deviations, orthogonality, constants. Non-trivial: at least four elements that are not all equal, or a random initializer."
)
ASSUMPTIONS = ["inputs are finite", "functions of several elements get values whose squares and sums are representable"]


def sigmoid(x):
  return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def softplus(x):
  return np.maximum(x, 0) + np.log1p(np.exp(-np.abs(x)))


_erf = np.vectorize(math.erf, otypes=[float])
_erfc = np.vectorize(math.erfc, otypes=[float])


def gelu(x, approximate=True):
  if approximate:
    with np.errstate(over="ignore"):
      u = np.sqrt(2 / np.pi) * (x + 0.044715 * x**3)
    return x * sigmoid(2 * u)
  return x * 0.5 * _erfc(-x / np.sqrt(2))


def elu(x, alpha=1.0):
  return np.where(x > 0, x, alpha * np.expm1(np.minimum(x, 0)))


def celu(x, alpha=1.0):
  return np.where(x > 0, x, alpha * np.expm1(np.minimum(x, 0) / alpha))


def selu(x):
  return 1.0507009873554804934193349852946 * elu(x, 1.6732632423543772848170429916717)


def hard_sigmoid(x):
  return np.clip(x / 6 + 0.5, 0, 1)


def logsumexp(x, axis=None, b=None, keepdims=False):
  m = x.max(axis=axis, keepdims=True)
  e = np.exp(x - m)
  if b is not None:
    e = e * b
  with np.errstate(divide="ignore"):
    out = np.log(e.sum(axis=axis, keepdims=True)) + m
  return out if keepdims else np.squeeze(out, axis=axis if axis is not None else tuple(range(x.ndim)))


def softmax(x, axis=-1, where=True):
  e = np.where(where, np.exp(np.where(where, x, -np.inf) - x.max(axis=axis, keepdims=True, where=where, initial=-1e4)), 0)
  return e / e.sum(axis=axis, keepdims=True)


def standardize(x, axis=-1, mean=None, variance=None, epsilon=1e-5, where=True):
  mean = x.mean(axis=axis, keepdims=True, where=where) if mean is None else mean
  variance = ((x * x).mean(axis=axis, keepdims=True, where=where) - mean * mean) if variance is None else variance
  return (x - mean) / np.sqrt(variance + epsilon)


def glu(x, axis=-1):
  a, b = np.split(x, 2, axis=axis)
  return a * sigmoid(b)


def log_softmax(x, axis=-1, where=True):
  return np.where(where, x - logsumexp(np.where(where, x, -np.inf), axis=axis, keepdims=True), -np.inf)


# name -> (reference, options, kinks)
ELEMENTWISE = {
    "relu": (lambda x: np.maximum(x, 0), [], [0]),
    "relu6": (lambda x: np.clip(x, 0, 6), [], [0, 6]),
    "sigmoid": (sigmoid, [], []),
    "silu": (lambda x: x * sigmoid(x), [], []),
    "swish": (lambda x: x * sigmoid(x), [], []),
    "softplus": (softplus, [], []),
    "log_sigmoid": (lambda x: -softplus(-x), [], []),
    "soft_sign": (lambda x: x / (1 + np.abs(x)), [], []),
    "tanh": (np.tanh, [], []),
    "hard_tanh": (lambda x: np.clip(x, -1, 1), [], [-1, 1]),
    "hard_sigmoid": (hard_sigmoid, [], [-3, 3]),
    "hard_silu": (lambda x: x * hard_sigmoid(x), [], [-3, 3]),
    "hard_swish": (lambda x: x * hard_sigmoid(x), [], [-3, 3]),
    "elu": (elu, [{}, {"alpha": 0.5}, {"alpha": 2.0}, {"alpha": -1.0}, {"alpha": 0.0}], [0]),
    "celu": (celu, [{}, {"alpha": 0.5}, {"alpha": 2.0}, {"alpha": 0.125}], [0]),
    "selu": (selu, [], [0]),
    "leaky_relu": (lambda x, negative_slope=0.01: np.where(x >= 0, x, negative_slope * x), [{}, {"negative_slope": 0.3}, {"negative_slope": 2.0}, {"negative_slope": -0.5}, {"negative_slope": 0.0}], [0]),
    "gelu": (gelu, [{}, {"approximate": True}, {"approximate": False}], []),
}
VALUES = [0.0, 0.5, -0.5, 1.0, -1.0, 2.5, -2.5, 3.0, -3.0, 6.0, -6.0, 7.5, 12.0, -12.0, 30.0, -30.0, 90.0, -90.0, 200.0, -200.0, 1e-3, -1e-3, 1e-20, -1e-20, 5e4, -5e4, 1e30, -1e30, 1e38, -1e38, 0.1, -0.1, 4.25, -4.25]


@st.composite
def elementwise_cases(draw):
  name = draw(st.sampled_from(sorted(ELEMENTWISE)))
  opts = ELEMENTWISE[name][1]
  shape = draw(st.lists(st.sampled_from([2, 3, 1, 4]), max_size=3))
  n = int(np.prod(shape)) if shape else 1
  number = st.one_of(st.integers(0, len(VALUES) - 1).map(lambda i: VALUES[i]), st.integers(-800, 800).map(lambda k: k / 64))
  x = draw(st.lists(number, min_size=n, max_size=n))
  if draw(st.integers(0, 3)) == 0:  # all special values at once
    shape, x = [len(VALUES)], list(VALUES)
  return {"name": name, "opt": draw(st.sampled_from(opts)) if opts else {}, "shape": shape, "x": x,
          "dtype": draw(st.sampled_from(["float32", "float32", "float32", "float16", "bfloat16", "int32"])), "how": draw(st.sampled_from(["call", "jit", "numpy"])),
          "positional": draw(st.booleans())}


def apply(how, fn, x):
  return jax.jit(fn)(x) if how == "jit" else fn(x)


def run_elementwise(case, rec):
  name, opt = case["name"], case["opt"]
  ref, _, kinks = ELEMENTWISE[name]
  dt = case["dtype"]
  if dt == "int32" and name in ("sigmoid", "silu", "swish"):
    dt = "float32"  # jax's logistic refuses integers
  limit = {"float16": 3e4, "int32": 200}.get(dt, 1e38)
  raw = np.clip(np.asarray(case["x"], np.float64).reshape(case["shape"]), -limit, limit)
  x = jnp.asarray(raw, dt)
  fn = getattr(nnx, name)
  f = (lambda x: fn(x, *opt.values())) if case.get("positional") else lambda x: fn(x, **opt)
  y = f(np.asarray(x)) if case["how"] == "numpy" and dt in ("float32", "int32") else apply(case["how"], f, x)
  xw = N.wide(x)
  rec.tag(name)
  rec.nt(x.size >= 4 and len(set(xw.reshape(-1))) > 1)
  assert y.shape == x.shape, f"{name}: shape {y.shape} for {x.shape}"
  out = str(y.dtype)
  assert out == dt or (dt == "int32" and out == "float32"), f"{name}: dtype {out} for {dt}"
  want = ref(xw, **opt)
  e = N.EPS["float32" if out == "int32" else out]
  got = N.wide(y)
  # functions built from 1 + tanh or 1 + erf lose what is below the precision of 1
  tol = 16 * e * (np.abs(want) + 1 + np.minimum(np.abs(xw), 50)) * (4 if out in ("float16", "bfloat16") else 1)
  tol = np.where(np.abs(want) > 50, 16 * e * np.abs(want) * 2, tol)
  top = {"float16": 65504.0}.get(out, 3.3e38)
  bad = ~(np.abs(got - want) <= tol) & (np.abs(want) < top)
  assert not bad.any(), f"{name}({xw[bad][0]}) is {got[bad][0]} instead of {want[bad][0]}"
  if dt != "float32":
    return
  g = apply(case["how"], jax.grad(lambda x: jnp.sum(f(x))), x)
  # all of them are straight lines far out
  h = np.where(np.abs(xw) < 40, 1e-5, np.abs(xw) / 16)
  known = np.abs(xw) <= 1e4 if name == "gelu" else np.ones(xw.shape, bool)  # its cube overflows
  smooth = known & np.all([np.abs(xw - k) > 1e-3 for k in kinks], axis=0) if kinks else known
  diff = (ref(xw + h, **opt) - ref(xw - h, **opt)) / (2 * h)
  gw = N.wide(g)
  assert np.isfinite(gw)[known].all(), f"{name}: gradient {gw[known & ~np.isfinite(gw)]} at {xw[known & ~np.isfinite(gw)]}"
  bad = smooth & ~(np.abs(gw - diff) <= 1e-3 * (1 + np.abs(diff)))
  assert not bad.any(), f"{name}: derivative at {xw[bad][0]} is {gw[bad][0]} instead of {diff[bad][0]}"


# ------------------------------------------------------------------ functions of an axis

AXIS = ["softmax", "log_softmax", "logsumexp", "standardize", "normalize", "glu", "one_hot"]


@st.composite
def axis_cases(draw):
  name = draw(st.sampled_from(AXIS))
  rank = draw(st.integers(1, 3))
  shape = [draw(st.sampled_from([2, 3, 4, 1])) for _ in range(rank)]
  axis = draw(st.integers(-rank, rank - 1))
  if name == "glu":
    shape[axis] *= 2
  n = int(np.prod(shape))
  axes = draw(st.lists(st.integers(0, rank - 1), min_size=1, max_size=rank, unique=True))
  return {
      "name": name, "shape": shape, "axis": axis, "axes": axes, "form": draw(st.sampled_from(["default", "axis", "axis", "tuple", "none"])),
      "x": draw(st.lists(st.one_of(st.integers(-320, 320).map(lambda k: k / 64), st.sampled_from([0.0, 20.0, -20.0, 80.0, -80.0])), min_size=n, max_size=n)),
      "dtype": draw(st.sampled_from(["float32", "float32", "float16", "bfloat16"])), "how": draw(st.sampled_from(["call", "jit"])), "keepdims": draw(st.booleans()),
      "b": draw(st.booleans()), "mask": draw(st.one_of(st.none(), st.integers(0, 8))), "eps": draw(st.sampled_from([None, 0.1])), "given": draw(st.sampled_from([None, "mean", "variance", "both"])),
      "classes": draw(st.integers(1, 5)), "idx": draw(st.lists(st.integers(-2, 6), min_size=n, max_size=n)), "odtype": draw(st.sampled_from([None, "float16", "int32", "bool"])),
  }


def run_axis(case, rec):
  name, shape = case["name"], tuple(case["shape"])
  rec.tag(name)
  axis = tuple(case["axes"]) if case["form"] == "tuple" else case["axis"]
  if name == "one_hot":
    idx = np.asarray(case["idx"]).reshape(shape)
    kw = {}
    pos = len(shape)
    if case["form"] in ("axis", "tuple"):
      kw["axis"] = case["axis"]
      pos = case["axis"] % (len(shape) + 1)
    if case["odtype"]:
      kw["dtype"] = jnp.dtype(case["odtype"])
    y = apply(case["how"], lambda i: nnx.one_hot(i, case["classes"], **kw), jnp.asarray(idx))
    want = np.moveaxis((idx[..., None] == np.arange(case["classes"])).astype(np.float64), -1, pos)
    assert str(y.dtype) == (case["odtype"] or "float32") and np.array_equal(N.wide(y), want), f"one_hot({idx}): {y}"
    rec.nt(idx.size >= 2)
    return
  x = jnp.asarray(np.asarray(case["x"]).reshape(shape), case["dtype"])
  xw = N.wide(x)
  rec.nt(x.size >= 4 and len(set(xw.reshape(-1))) > 1)
  kw, rkw = {}, {}
  if name == "logsumexp":
    if case["form"] in ("axis", "tuple"):
      kw["axis"] = axis
    elif case["form"] == "none":
      kw["axis"] = None
    if case["keepdims"]:
      kw["keepdims"] = True
    rkw = dict(kw)
    if case["b"]:
      b = 0.25 + (np.arange(x.size).reshape(shape) % 3)
      kw["b"], rkw["b"] = jnp.asarray(b, case["dtype"]), N.rounded(b, case["dtype"])
    ref = logsumexp
  else:
    if case["form"] == "axis" or (case["form"] == "tuple" and name == "glu"):
      kw["axis"] = case["axis"]
    elif case["form"] == "tuple":
      kw["axis"] = axis
    elif name == "glu" and shape[-1] % 2:
      kw["axis"] = case["axis"]
    rkw = dict(kw)
    ref = {"softmax": softmax, "log_softmax": log_softmax, "glu": glu}.get(name, standardize)
  masked = case.get("mask") is not None and name in ("softmax", "log_softmax", "standardize", "normalize") and axis is not None
  if masked:
    over = rkw.get("axis", -1)
    mask = (np.arange(x.size) * 7 + case["mask"]).reshape(shape) % 3 > 0
    first = np.ones(shape, bool)
    for a in over if isinstance(over, tuple) else (over,):
      first &= np.arange(shape[a]).reshape([-1 if i == a % len(shape) else 1 for i in range(len(shape))]) == 0
    mask |= first
    kw["where"], rkw["where"] = jnp.asarray(mask), mask
    if "softmax" in name:
      kw["initial"] = -1e4
    rec.tag("masked")
  if name in ("standardize", "normalize"):
    if case["eps"] is not None:
      kw["epsilon"] = rkw["epsilon"] = case["eps"]
    if case["given"] in ("mean", "both"):
      kw["mean"] = rkw["mean"] = 0.5
    if case["given"] in ("variance", "both"):
      kw["variance"] = rkw["variance"] = 2.0
  if case["dtype"] != "float32":
    # the sums may be done in the type itself
    scale = 64
  else:
    scale = 16
  y = apply(case["how"], lambda x: getattr(nnx, name)(x, **kw), x)
  want = ref(xw, **rkw)
  assert y.shape == want.shape, f"{name}: shape {y.shape} instead of {want.shape}"
  assert str(y.dtype) == case["dtype"], f"{name}: dtype {y.dtype}"
  e = N.EPS[case["dtype"]]
  got = N.wide(y)
  top = np.abs(xw).max()
  tol = scale * e * (1 + np.abs(want) + (top if name in ("log_softmax", "logsumexp") else 0))
  if name in ("softmax",):
    tol = scale * e * (1 + top) * np.ones_like(want)
  if name in ("standardize", "normalize"):
    ax = rkw.get("axis", -1)
    if "variance" not in rkw:
      over = dict(axis=ax, keepdims=True, where=rkw.get("where", True))
      var = np.maximum(0, (xw * xw).mean(**over) - (rkw.get("mean", xw.mean(**over))) ** 2)
      dv = scale * e * (xw * xw).mean(**over) * 2
      eps = rkw.get("epsilon", 1e-5)
      if case["dtype"] != "float32" or ("mean" in rkw and ((xw * xw).mean(**over) < 0.25 + 1e-3).any()):
        # the variance formula is not accurate enough (or not a variance) here
        return
      if (var - dv + eps <= eps / 2).any():
        # E[x^2] - E[x]^2 may come out below -epsilon
        return
      low, high = 1 / np.sqrt(np.maximum(var - dv + eps, eps / 2)), 1 / np.sqrt(var + dv + eps)
      dmean = scale * e * np.abs(xw).mean(**over)
      mean = rkw.get("mean", xw.mean(**over))
      tol = tol + (np.abs(xw - mean) + dmean) * (low - high) + dmean * low
    else:
      tol = tol + scale * e * (top + 1)
  with np.errstate(invalid="ignore"):
    bad = ~((np.abs(got - want) <= np.where(np.isinf(want), 0, tol)) | (got == want))
  assert not bad.any(), f"{name} {kw} of {xw.tolist()}: {got[bad][0]} instead of {want[bad][0]}"
  if name == "softmax" and case["form"] != "tuple":
    assert (got >= 0).all() and np.allclose(got.sum(axis=rkw.get("axis", -1)), 1, atol=scale * e * 4)
  if case["dtype"] == "float32" and not masked:
    g = jax.grad(lambda x: jnp.sum(getattr(nnx, name)(x, **kw)))(x)
    assert np.isfinite(np.asarray(g)).all() or name in ("standardize", "normalize"), f"{name}: gradient {g}"


# ------------------------------------------------------------------ initializers

# name -> (scale, mode, distribution)
VARIANCE = {
    "glorot_uniform": (1, "fan_avg", "uniform"), "xavier_uniform": (1, "fan_avg", "uniform"), "glorot_normal": (1, "fan_avg", "truncated_normal"),
    "xavier_normal": (1, "fan_avg", "truncated_normal"), "lecun_uniform": (1, "fan_in", "uniform"), "lecun_normal": (1, "fan_in", "truncated_normal"),
    "he_uniform": (2, "fan_in", "uniform"), "kaiming_uniform": (2, "fan_in", "uniform"), "he_normal": (2, "fan_in", "truncated_normal"), "kaiming_normal": (2, "fan_in", "truncated_normal"),
}
OTHERS = ["variance_scaling", "normal", "uniform", "constant", "zeros", "ones", "orthogonal", "delta_orthogonal"]


@st.composite
def init_cases(draw):
  name = draw(st.sampled_from(sorted(VARIANCE) + OTHERS))
  shape = draw(st.sampled_from([[40, 160], [160, 40], [100, 100], [3, 20, 100], [3, 3, 30, 90], [5, 4, 90, 30], [6, 200], [2, 3], [1, 5], [7, 1]]))
  if name in ("normal", "uniform", "constant", "zeros", "ones"):
    shape = draw(st.sampled_from([shape, shape, [5000], [], [0, 3], [2000, 2]]))
  if name == "orthogonal":
    shape = draw(st.sampled_from([[4, 4], [3, 7], [7, 3], [2, 3, 4], [5, 2, 2], [1, 6], [6, 1], [2, 6, 3], [2, 2, 7, 2], [3, 5, 1]]))
  if name == "delta_orthogonal":
    shape = draw(st.sampled_from([[3, 4, 4], [3, 3, 2, 5], [1, 3, 3], [2, 2, 2, 3, 4], [2, 1, 6], [4, 2, 2]]))
  rank = len(shape)
  inx, outx = (-2, -1)
  if name in VARIANCE or name == "variance_scaling":
    if draw(st.booleans()):
      inx, outx = draw(st.sampled_from([(-1, -2), (0, 1), (rank - 2, rank - 1), (-2, -1)]))
  return {
      "name": name, "shape": shape, "axes": [inx, outx], "batch": draw(st.sampled_from([False, False, True])) and rank > 2,
      "key": draw(st.integers(0, 500)), "dtype": draw(st.sampled_from([None, "float32", "float32", "float16", "bfloat16"])), "scale": draw(st.sampled_from([None, 0.5, 3.0])),
      "mode": draw(st.sampled_from(["fan_in", "fan_out", "fan_avg"])), "dist": draw(st.sampled_from(["normal", "uniform", "truncated_normal"])),
      "column": draw(st.sampled_from([None, -1, 0, -2, 1])), "how": draw(st.sampled_from(["call", "jit"])), "tuple": draw(st.booleans()),
  }


def fans(shape, inx, outx, batch):
  rank = len(shape)
  b = [0] if batch else []
  rest = int(np.prod([shape[i] for i in range(rank) if i not in (inx % rank, outx % rank) and i not in b]))
  return shape[inx] * rest, shape[outx] * rest


def run_init(case, rec):
  name, shape = case["name"], tuple(case["shape"])
  lib = nnx.initializers
  inx, outx = case["axes"]
  kw = {}
  scale, mode, dist = None, None, None
  rec.tag(name)
  batch = case["batch"] and 0 not in (inx % max(1, len(shape)), outx % max(1, len(shape)))
  if name in VARIANCE or name == "variance_scaling":
    if (inx, outx) != (-2, -1) or case["tuple"]:
      kw.update(in_axis=inx, out_axis=outx)
    if batch:
      kw["batch_axis"] = (0,)
  if name in VARIANCE:
    scale, mode, dist = VARIANCE[name]
    init = getattr(lib, name)(**kw)
  elif name == "variance_scaling":
    scale, mode, dist = case["scale"] or 1.0, case["mode"], case["dist"]
    init = lib.variance_scaling(scale, mode, dist, **kw)
  elif name in ("normal", "uniform"):
    init = getattr(lib, name)(*([] if case["scale"] is None else [case["scale"]]))
  elif name == "constant":
    init = lib.constant(case["scale"] or -2.5)
  elif name in ("zeros", "ones"):
    init = getattr(lib, name)()
  else:
    if case["scale"] is not None:
      kw["scale"] = case["scale"]
    if case["column"] is not None and ((name == "orthogonal" and case["column"] < len(shape)) or case["column"] == -1):
      kw["column_axis"] = case["column"]
    init = getattr(lib, name)(**kw)
  key = jax.random.PRNGKey(case["key"])
  size = list(shape) if case["tuple"] else shape
  args = () if case["dtype"] is None else (jnp.dtype(case["dtype"]),)
  if name in ("orthogonal", "delta_orthogonal") and case["dtype"] in ("float16", "bfloat16"):
    args = ()

  def make(key):
    return apply(case["how"], lambda k: init(k, tuple(size) if case["how"] == "jit" else size, *args), key)

  x = make(key)
  dt = "float32" if not args else case["dtype"]
  assert isinstance(x, jax.Array) and x.shape == shape and str(x.dtype) == dt, f"{name}: {x.shape} {x.dtype} for {shape} {dt}"
  xw = N.wide(x)
  assert np.isfinite(xw).all()
  random = name not in ("constant", "zeros", "ones")
  rec.nt(random)
  assert np.array_equal(np.asarray(make(key)), np.asarray(x)), f"{name}: not determined by the key"
  if random and x.size > 3:
    assert not np.array_equal(np.asarray(make(jax.random.PRNGKey(case["key"] + 1))), np.asarray(x)), f"{name}: another key gave the same array"
  e = N.EPS[dt]
  if not random:
    want = {"constant": case["scale"] or -2.5, "zeros": 0.0, "ones": 1.0}[name]
    assert (xw == want).all(), f"{name}: {xw}"
    return
  if name == "orthogonal":
    col = -1 if case["column"] is None else case["column"]
    mat = np.moveaxis(xw, col, -1).reshape(-1, shape[col])
    s = (case["scale"] or 1.0) ** 2
    gram = mat.T @ mat if mat.shape[0] >= mat.shape[1] else mat @ mat.T
    assert np.allclose(gram, s * np.eye(len(gram)), atol=1e-4 * s), f"orthogonal {shape} column {col}: {gram}"
    return
  if name == "delta_orthogonal":
    s = (case["scale"] or 1.0) ** 2
    center = tuple((k - 1) // 2 for k in shape[:-2])
    mat = xw[center]
    other = xw.copy()
    other[center] = 0
    assert not other.any(), f"delta_orthogonal: not zero away from the centre"
    assert np.allclose(mat @ mat.T, s * np.eye(shape[-2]), atol=1e-4 * s), f"delta_orthogonal {shape}: {mat @ mat.T}"
    return
  if name == "normal":
    variance, low, high, kurt = (0.01 if case["scale"] is None else case["scale"]) ** 2, -np.inf, np.inf, 3.0
    mean = 0.0
  elif name == "uniform":
    s = 0.01 if case["scale"] is None else case["scale"]
    variance, low, high, kurt, mean = s * s / 12, 0.0, s, 1.8, s / 2
  else:
    fin, fout = fans(shape, inx, outx, batch)
    fan = {"fan_in": fin, "fan_out": fout, "fan_avg": (fin + fout) / 2}[mode]
    variance, mean = scale / fan, 0.0
    if dist == "uniform":
      high = np.sqrt(3 * variance)
      low, kurt = -high, 1.8
    elif dist == "truncated_normal":
      high = 2 * np.sqrt(variance) / 0.87962566103423978
      low, kurt = -high, 2.4
    else:
      low, high, kurt = -np.inf, np.inf, 3.0
  slack = 4 * e * max(abs(low) if np.isfinite(low) else 0, abs(high) if np.isfinite(high) else 0)
  assert x.size == 0 or (xw.min() >= low - slack and xw.max() <= high + slack), f"{name} {shape}: values in [{xw.min()}, {xw.max()}], not in [{low}, {high}]"
  if x.size < 1000:
    return
  rec.tag("moments")
  n = x.size
  assert abs(xw.mean() - mean) <= 8 * np.sqrt(variance / n) + 4 * e * np.sqrt(variance + mean * mean), f"{name} {shape}: mean {xw.mean()} instead of {mean}"
  got = ((xw - mean) ** 2).mean()
  assert abs(got - variance) <= (8 * np.sqrt((kurt - 1) / n) + 8 * e) * variance, f"{name} {shape}: variance {got} instead of {variance}"
  fourth = ((xw - mean) ** 4).mean() / variance**2
  assert abs(fourth - kurt) <= 0.1 + 60 / np.sqrt(n), f"{name} {shape}: kurtosis {fourth} instead of {kurt}"
  if np.isfinite(high):
    assert xw.max() >= mean + 0.9 * (high - mean), f"{name} {shape}: the largest value {xw.max()} is far from {high}"


EXPORTED = sorted(ELEMENTWISE) + AXIS


CHECKS = [
    Check("elementwise", elementwise_cases, run_elementwise, quick=1500, thorough=20000),
    Check("axis", axis_cases, run_axis, quick=500, thorough=8000),
    Check("init", init_cases, run_init, quick=320, thorough=8000),
]
