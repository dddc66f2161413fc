"""C24 Conv computes the convolution its options describe."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax import lax

import nnx
from props import c23
from vlib import numerics as N
from vlib.driver import Check

RULE = (
    "Cases: Conv layers with 1 to 3 spatial dimensions, kernel sizes 1 to 4, strides, input and kernel dilations (numbers, "
    "tuples, lists, None), SAME, VALID, CIRCULAR and CAUSAL padding, numbers and pairs, feature groups, masks, bias or none, "
    "parameter, computation and input dtypes, 0 to 3 batch dimensions (empty ones included), called directly, after split and "
    "merge and through nnx.jit, compared with the sum over all window positions in float64; parameters compared as for Linear; "
    "derivatives by kernel, bias and input against differences of that sum. "
    "Invalid kernel sizes and paddings must be refused. Non-trivial: at least two window positions and two kernel elements."
)
ASSUMPTIONS = [
    "paddings are not negative", "input dilation is combined with explicit padding only (jax refuses the named ones, or they do not say what they mean then)",
    "inputs have at least the spatial dimensions and the features, spatial dimensions are not empty",
]


@st.composite
def conv_cases(draw):
  d = draw(st.sampled_from([1, 2, 1, 2, 3]))
  kmax = {1: 4, 2: 3, 3: 2}[d]
  ks = [draw(st.integers(1, kmax)) for _ in range(d)]
  padding = draw(st.sampled_from(["SAME", "VALID", "CIRCULAR", "CAUSAL", "int", "ints", "pairs", "mixed"]))
  if padding == "CAUSAL" and d != 1:
    padding = "CIRCULAR"

  def per_dim(hi):
    t = draw(st.sampled_from(["one", "none", "int", "tuple", "list", "tuple"]))
    if t == "one":
      return 1
    if t == "none":
      return None
    if t == "int":
      return draw(st.integers(1, hi))
    v = [draw(st.integers(1, hi)) for _ in range(d)]
    return ["tuple", v] if t == "tuple" else v

  groups = draw(st.sampled_from([1, 1, 2, 3]))
  smax = {1: 7, 2: 5, 3: 4}[d]
  return {
      "k": ks, "klist": draw(st.booleans()), "strides": per_dim(3), "indil": per_dim(3) if padding in ("int", "ints", "pairs", "mixed") else draw(st.sampled_from([1, None])),
      "kdil": per_dim(2 if d == 3 else 3), "padding": padding, "pads": [[draw(st.integers(0, 3)), draw(st.integers(0, 3))] for _ in range(d)],
      "groups": groups, "nin": groups * draw(st.integers(1, 2)), "nout": groups * draw(st.integers(1, 3)), "bias": draw(st.sampled_from([True, True, False])),
      "mask": draw(st.sampled_from([None, None, "some", "causal"])), "spatial": [draw(st.integers(1, smax)) for _ in range(d)],
      "batch": draw(st.lists(st.sampled_from([2, 1, 3, 2, 0]) if draw(st.integers(0, 9)) == 5 else st.sampled_from([2, 1, 3]), max_size=3)),
      "pdtype": draw(st.sampled_from(["float32"] * 4 + ["float16", "bfloat16"])), "dtype": draw(st.sampled_from([None] * 4 + ["float32", "float16", "bfloat16"])),
      "xdtype": draw(st.sampled_from(["float32"] * 4 + ["float16", "bfloat16", "int32", "uint8"])), "init": draw(st.sampled_from(["default", "recorded", "given"])),
      "seed": draw(st.integers(0, 50)), "x": draw(st.integers(0, 1000)), "how": draw(st.sampled_from(["call", "merge", "jit", "apply", "np"])),
      "stream": draw(st.sampled_from(["params", "default", "both"])), "drawn": draw(st.integers(0, 1)), "custom": draw(st.booleans()), "positional": draw(st.booleans()),
      "precision": draw(st.sampled_from([None] * 3 + list(N.PRECISIONS))),
  }


def arg(v):
  return tuple(v[1]) if isinstance(v, list) and v and v[0] == "tuple" else v


def dims(v, d):
  v = arg(v)
  return (1,) * d if v is None else (v,) * d if isinstance(v, int) else tuple(v)


def pad_arg(case):
  p, pads = case["padding"], case["pads"]
  if p == "int":
    return pads[0][0]
  if p == "ints":
    return [a for a, _ in pads]
  if p == "pairs":
    return tuple(tuple(a) for a in pads)
  if p == "mixed":
    return [tuple(a) if i % 2 else a[0] for i, a in enumerate(pads)]
  return p


def pad_pairs(case, ns, kd, strides):
  p, pads = case["padding"], case["pads"]
  if p == "int":
    return [(pads[0][0],) * 2] * len(ns)
  if p == "ints":
    return [(a, a) for a, _ in pads]
  if p == "pairs":
    return [tuple(a) for a in pads]
  if p == "mixed":
    return [tuple(a) if i % 2 else (a[0], a[0]) for i, a in enumerate(pads)]
  out = []
  for n, k, s in zip(ns, kd, strides):
    if p == "VALID":
      out.append((0, 0))
    elif p == "SAME":
      total = max((-(-n // s) - 1) * s + k - n, 0)
      out.append((total // 2, total - total // 2))
    elif p == "CAUSAL":
      out.append((k - 1, 0))
    else:
      out.append(((k - 1) // 2, k // 2))
  return out


def reference(case, x, w):
  """(sum, sum of absolute values) over the window positions; x: (N, *spatial, in), w: (*kernel, in/groups, out)"""
  d = len(case["k"])
  s, di, dk = dims(case["strides"], d), dims(case["indil"], d), dims(case["kdil"], d)
  kd = [(k - 1) * e + 1 for k, e in zip(case["k"], dk)]
  ns = [(n - 1) * e + 1 for n, e in zip(x.shape[1:-1], di)]
  pads = pad_pairs(case, ns, kd, s)
  outs = [max(0, (n + lo + hi - k) // t + 1) for n, (lo, hi), k, t in zip(ns, pads, kd, s)]
  cin, cout, g = x.shape[-1], w.shape[-1], case["groups"]
  y = np.zeros((x.shape[0], *outs, cout))
  b = np.zeros_like(y)
  per_in, per_out = cin // g, cout // g
  for o in itertools.product(*map(range, outs)):
    for k in itertools.product(*map(range, case["k"])):
      pos = []
      for j in range(d):
        q = o[j] * s[j] + k[j] * dk[j] - pads[j][0]
        if case["padding"] == "CIRCULAR":
          q %= ns[j]
        if not 0 <= q < ns[j] or q % di[j]:
          break
        pos.append(q // di[j])
      else:
        v = x[(slice(None), *pos)]
        for group in range(g):
          vi = v[:, group * per_in:(group + 1) * per_in]
          wi = w[k][:, group * per_out:(group + 1) * per_out]
          sl = (slice(None), *o, slice(group * per_out, (group + 1) * per_out))
          y[sl] += vi @ wi
          b[sl] += np.abs(vi) @ np.abs(wi)
  return y, b


def mask_of(case, shape):
  if case["mask"] == "some":
    return (np.arange(int(np.prod(shape))) % 3 != 1).astype(np.float32).reshape(shape)
  m = np.ones(shape, np.float32)
  m[shape[0] // 2:] = 0
  return m


def run_conv(case, rec):
  d = len(case["k"])
  kinit = binit = None
  kwargs = {}
  if case["init"] != "default":
    kinit, binit = c23.Recorder(c23.plain_init(case["init"], 1)), c23.Recorder(c23.plain_init(case["init"], 2))
    kwargs = dict(kernel_init=kinit, bias_init=binit)
  if not case["bias"]:
    kwargs["use_bias"] = False
  kshape = tuple(case["k"]) + (case["nin"] // case["groups"], case["nout"])
  mask = None
  if case["mask"]:
    mask = mask_of(case, kshape)
    kwargs["mask_fn"] = lambda k: k * jnp.asarray(mask, k.dtype)
  if case["dtype"]:
    kwargs["dtype"] = jnp.dtype(case["dtype"])
  if case["pdtype"] != "float32":
    kwargs["param_dtype"] = jnp.dtype(case["pdtype"])
  if case.get("precision"):
    kwargs["precision"] = N.PRECISIONS[case["precision"]]
  convs = []
  if case["custom"]:
    def conv(*a, **k):
      convs.append(1)
      return lax.conv_general_dilated(*a, **k)

    kwargs["conv_general_dilated"] = conv
  if case["groups"] > 1:
    kwargs["feature_group_count"] = case["groups"]
  if case["indil"] != 1:
    kwargs["input_dilation"] = arg(case["indil"])
  if case["kdil"] != 1:
    kwargs["kernel_dilation"] = arg(case["kdil"])
  if case["padding"] != "SAME" or case["positional"]:
    kwargs["padding"] = pad_arg(case)
  pos = ()
  if case["positional"]:
    pos = (arg(case["strides"]),)
  elif case["strides"] != 1:
    kwargs["strides"] = arg(case["strides"])
  m = nnx.Conv(case["nin"], case["nout"], list(case["k"]) if case["klist"] else tuple(case["k"]), *pos, ctx=c23.context(case), **kwargs)
  keys = c23.keys_of(case, 3)
  state = m.get_state()
  assert sorted(state) == ["bias", "kernel"] and all(type(v) is nnx.Param for v in state.values())
  k1 = c23.check_param(m.kernel, kshape, case["pdtype"], case["init"], jax.nn.initializers.lecun_normal(), keys, kinit, 1, "kernel")
  if case["bias"]:
    k2 = c23.check_param(m.bias, (case["nout"],), case["pdtype"], case["init"], jax.nn.initializers.zeros, keys, binit, 2, "bias")
    assert kinit is None or k1 != k2, "kernel and bias were initialized with the same key"
    if case["init"] == "default":
      m.bias = N.data(case["pdtype"], (case["nout"],), case["x"] + 9)
  else:
    assert m.bias is None
  x = N.data(case["xdtype"], tuple(case["batch"]) + tuple(case["spatial"]) + (case["nin"],), case["x"])
  kernel, bias = m.kernel, m.bias
  arrays = [x, kernel] + ([bias] if bias is not None else [])
  dt = c23.result_dtype(case, *arrays)
  rec.tag(case["padding"])
  rec.tag(f"{d}d")
  rec.tag(f"batch dims {len(case['batch'])}")
  rec.tag("groups", case["groups"] > 1)

  def plain(m, x):
    return m(x)

  y = c23.forward(case["how"], m, x, plain)
  masked = kernel if mask is None else kernel * jnp.asarray(mask, kernel.dtype)
  flat = N.rounded(x, dt).reshape((-1 if x.size else int(np.prod(case["batch"])), *x.shape[len(case["batch"]):]))
  want, bound = reference(case, flat, N.rounded(masked, dt))
  want, bound = want.reshape(tuple(case["batch"]) + want.shape[1:]), bound.reshape(tuple(case["batch"]) + bound.shape[1:])
  if bias is not None:
    want, bound = want + N.rounded(bias, dt), bound + np.abs(N.rounded(bias, dt))
  terms = int(np.prod(kshape[:-1]))
  N.close(y, want, bound * (terms + 3), dt, f"conv of {x.dtype}{list(x.shape)}")
  rec.nt(want.size > want.shape[-1] and int(np.prod(case["k"])) > 1)
  if case.get("precision"):
    N.check_precision(m, jnp.asarray(x), "conv_general_dilated", N.PRECISIONS[case["precision"]])
  assert not case["custom"] or convs, "conv_general_dilated was not used"
  assert np.array_equal(np.asarray(m.kernel), np.asarray(kernel)), "the kernel changed"
  if case.get("grad") and y.size:
    def ref(p, x):
      w = p["kernel"] if mask is None else p["kernel"] * mask
      out, _ = reference(case, np.asarray(x).reshape(flat.shape), w)
      return (out if bias is None else out + p["bias"]).reshape(want.shape)

    N.check_gradients(m, x, plain, ref, case["grad"], "conv")


# ------------------------------------------------------------------ refusals

BAD_PADDINGS = [
    "WRONG", [1, 1, 1, 1], [], [[0, 1]], [["tuple", [0, 1, 2]]], [["tuple", [1]]], [1.5], 1.5, None, ["SAME"], [None], [["tuple", [1, 2]], "x"], [1, [1, 1]],
]


@st.composite
def bad_cases(draw):
  what = draw(st.sampled_from(["kernel", "padding", "padding", "causal", "groups"]))
  d = draw(st.integers(1, 3))
  return {"what": what, "d": d, "k": draw(st.integers(1, 3)), "padding": draw(st.sampled_from(BAD_PADDINGS)), "batch": draw(st.lists(st.integers(1, 2), max_size=2)), "groups": draw(st.integers(2, 4))}


def run_bad(case, rec):
  d, what = case["d"], case["what"]
  rec.nt(True)
  rec.tag(what)
  k = [case["k"]] * d
  kwargs = {}
  nin = nout = 2
  if what == "kernel":
    try:
      nnx.Conv(2, 2, case["k"], ctx=nnx.context(0))
    except TypeError:
      return
    raise AssertionError("a number was accepted as kernel size")
  if what == "causal":
    k, d = k + [1] if d == 1 else k, max(d, 2)
    kwargs["padding"] = "CAUSAL"
  elif what == "padding":
    kwargs["padding"] = [arg(a) for a in case["padding"]] if isinstance(case["padding"], list) else case["padding"]
  else:
    g = case["groups"]
    kwargs["feature_group_count"] = g
    nin, nout = 2 * g + 1, g
  x = jnp.ones(tuple(case["batch"]) + (4,) * d + (nin,))
  try:
    y = nnx.Conv(nin, nout, k, ctx=nnx.context(0), **kwargs)(x)
  except Exception:
    return
  raise AssertionError(f"{what} {kwargs} was accepted: output shape {y.shape}")


@st.composite
def wide_cases(draw):
  d = draw(st.sampled_from([1, 1, 2]))
  size = st.one_of(st.integers(1, 4), st.integers(5, 24 if d == 1 else 7))
  groups = draw(st.sampled_from([1, 2, 5, 12]))
  return {
      **draw(conv_cases().filter(lambda c: len(c["k"]) == d)), "k": [draw(size) for _ in range(d)], "spatial": [draw(size) for _ in range(d)],
      "groups": groups, "nin": groups * draw(st.sampled_from([1, 2, 9 if groups < 5 else 1])), "nout": groups * draw(st.sampled_from([1, 2, 9 if groups < 5 else 1])),
      "batch": draw(st.sampled_from([[], [2], [17], [2, 3], [1, 2, 1, 2], [2, 1, 3, 1, 1]])),
  }


def run_wide(case, rec):
  """Kernels wider than the input, many groups, features and batch dimensions."""
  rec.tag("kernel wider than the input", any(k > n for k, n in zip(case["k"], case["spatial"])))
  run_conv(case, rec)


@st.composite
def grad_cases(draw):
  return {**draw(conv_cases()), "pdtype": "float32", "dtype": None, "xdtype": "float32", "how": "call", "grad": draw(st.sampled_from(["nnx", "jax"]))}


CHECKS = [
    Check("conv", conv_cases, run_conv, quick=900, thorough=10000),
    Check("grad", grad_cases, run_conv, quick=100, thorough=1500),
    Check("bad", bad_cases, run_bad, quick=80, thorough=1000),
    Check("wide", wide_cases, run_wide, quick=60, thorough=1500),
]
