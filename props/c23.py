"""C23 Linear and Embed compute their defining formulas."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax import lax

import nnx
from vlib import numerics as N
from vlib.driver import Check

RULE = (
    "Cases: Linear and Embed layers of all small sizes with parameter, computation and input dtypes (float32, float16, "
    "bfloat16, complex64, integers, booleans), bias or none, default, recorded and given initializers, batch ranks 0 to 4 (empty "
    "and size-one dimensions included), called directly, after a split and merge, through nnx.jit, through apply, and under grad (nnx.grad and jax.grad, Embed with repeated rows, attend and tied weights included); given initializers that return another dtype than asked for too; "
    "outputs are compared with a float64 sum and an error bound for the dtype, parameters with the initializers applied to "
    "the keys of an equal context. Non-trivial: more than one output element and at least two input features (or two rows looked up)."
)
ASSUMPTIONS = ["indices given to Embed are in range (or negative and count from the end, as everywhere in JAX)", "feature sizes are positive where the default initializer is used", "64-bit types are off"]

FLOATS = ["float32", "float32", "float16", "bfloat16", "float32", "float16", "bfloat16", "complex64"]
INPUTS = ["float32", "float32", "float16", "bfloat16", "int32", "int8", "uint8", "bool", "complex64"]
INITS = ["default", "recorded", "given", "normal", "uniform"]
# the dtype a given initializer returns, whatever it is asked for
ODD = st.one_of(st.none(), st.none(), st.none(), st.sampled_from(FLOATS + ["int32"]))


@st.composite
def linear_cases(draw):
  nin, nout = draw(st.integers(1, 6)), draw(st.integers(1, 6))
  return {
      "nin": nin, "nout": nout, "batch": draw(st.lists(st.sampled_from([2, 3, 1, 4, 2, 3, 2, 5, 0]), max_size=4)),
      "pdtype": draw(st.sampled_from(FLOATS)), "dtype": draw(st.one_of(st.none(), st.none(), st.sampled_from(FLOATS), st.sampled_from(["int32"]))),
      "xdtype": draw(st.sampled_from(INPUTS)), "bias": draw(st.sampled_from([True, True, False])),
      "init": draw(st.sampled_from(INITS)), "seed": draw(st.integers(0, 50)), "x": draw(st.integers(0, 1000)),
      "how": draw(st.sampled_from(["call", "merge", "jit", "apply", "jaxjit", "np", "kwargs"])), "stream": draw(st.sampled_from(["params", "default", "both"])),
      "drawn": draw(st.integers(0, 2)), "kodd": draw(ODD), "bodd": draw(ODD), "dot": draw(st.booleans()), "precision": draw(st.sampled_from([None, None, *N.PRECISIONS])), "set": draw(st.booleans()),
  }


def context(case):
  s = case["seed"]
  ctx = nnx.context(params=s, dropout=s + 1) if case["stream"] != "default" else nnx.context(s)
  for _ in range(case["drawn"]):
    ctx.make_rng("params")
  return ctx


def keys_of(case, n):
  ctx = context(case)
  return [ctx.make_rng("params") for _ in range(n)]


class Recorder:
  """An initializer that writes down its calls."""

  def __init__(self, fn):
    self.fn, self.calls = fn, []

  def __call__(self, key, shape, dtype):
    self.calls.append((np.asarray(key).tolist(), tuple(shape), str(jnp.dtype(dtype))))
    return self.fn(key, shape, dtype)


def plain_init(kind, seed, odd=None):
  if odd:
    fn = plain_init(kind, seed)
    return lambda key, shape, dtype: (fn(key, shape, jnp.float32) * (8 if odd == "int32" else 1)).astype(odd)
  if kind == "given":
    return lambda key, shape, dtype: N.data(dtype, shape, seed)
  if kind == "uniform":
    # the uniform initializer of jax has no complex version
    return lambda key, shape, dtype: jax.nn.initializers.uniform(0.5)(key, shape, jnp.float32).astype(dtype)
  return jax.nn.initializers.normal(0.5)


def check_param(value, shape, pdtype, kind, default, keys, recorder, seed, what, odd=None):
  """The parameter is what its initializer gives for one of the keys; returns the number of that key."""
  odd = None if kind == "default" else odd
  assert isinstance(value, jax.Array) and value.shape == shape and str(value.dtype) == (odd or pdtype), f"{what}: {value!r}"
  fn = default if kind == "default" else plain_init(kind, seed, odd)
  got = np.asarray(value)
  which = [i for i, k in enumerate(keys) if np.array_equal(np.asarray(fn(k, shape, jnp.dtype(pdtype))), got)]
  assert which, f"{what}: not the initializer's value for any key of the context: {value}"
  if recorder is not None:
    assert len(recorder.calls) == 1, f"{what}: the initializer was called {len(recorder.calls)} times"
    key, s, d = recorder.calls[0]
    assert s == shape and d == pdtype, f"{what}: the initializer was asked for {s} {d}"
    assert key in [np.asarray(k).tolist() for k in keys], f"{what}: a key that is not of the context"
    return key
  return None


def run_linear(case, rec):
  nin, nout, pdtype = case["nin"], case["nout"], case["pdtype"]
  ctx = context(case)
  kinit = binit = None
  kwargs = {}
  if case["init"] != "default":
    kinit, binit = Recorder(plain_init(case["init"], 1, case.get("kodd"))), Recorder(plain_init(case["init"], 2, case.get("bodd")))
    kwargs = dict(kernel_init=kinit, bias_init=binit)
  if not case["bias"]:
    kwargs["use_bias"] = False
  elif case["set"]:
    kwargs["use_bias"] = True
  if case["dtype"] is not None:
    kwargs["dtype"] = jnp.dtype(case["dtype"])
  if pdtype != "float32" or case["set"]:
    kwargs["param_dtype"] = jnp.dtype(pdtype)
  dots = []
  if case["dot"]:
    def dot(*a, **k):
      dots.append(1)
      return lax.dot_general(*a, **k)

    kwargs["dot_general"] = dot
  if case["precision"]:
    kwargs["precision"] = N.PRECISIONS[case["precision"]]
  m = nnx.Linear(nin, nout, ctx=ctx, **kwargs)
  keys = keys_of(case, 3)
  k1 = check_param(m.kernel, (nin, nout), pdtype, case["init"], jax.nn.initializers.lecun_normal(), keys, kinit, 1, "kernel", case.get("kodd"))
  state = m.get_state()
  assert type(state["kernel"]) is nnx.Param and type(state["bias"]) is nnx.Param and sorted(state) == ["bias", "kernel"], f"{state!r}"
  if case["bias"]:
    k2 = check_param(m.bias, (nout,), pdtype, case["init"], jax.nn.initializers.zeros, keys, binit, 2, "bias", case.get("bodd"))
    assert kinit is None or k1 != k2, "kernel and bias were initialized with the same key"
    if case["init"] == "default":
      m.bias = N.data(pdtype, (nout,), case["x"] + 9)
  else:
    assert m.bias is None, f"bias is {m.bias!r}"
    assert binit is None or not binit.calls
  other = nnx.Linear(nin, nout, ctx=ctx, **kwargs)
  if case["init"] in ("normal", "uniform", "default") and nin * nout > 1 and pdtype != "float16" and pdtype != "bfloat16" and not case.get("kodd"):
    assert not np.array_equal(np.asarray(other.kernel), np.asarray(m.kernel)), "two layers of one context have equal kernels"
  again = nnx.Linear(nin, nout, ctx=context(case), **kwargs)
  assert np.array_equal(np.asarray(again.kernel), np.asarray(m.kernel)), "not reproducible from the seed"

  shape = tuple(case["batch"]) + (nin,)
  x = N.data(case["xdtype"], shape, case["x"])
  run_forward(case, rec, m, x, "linear", lambda m, x: m(x), dots)
  if case["precision"] and not (case["dtype"] and "int" in case["dtype"]):
    N.check_precision(m, jnp.asarray(x), "dot_general", N.PRECISIONS[case["precision"]])


def result_dtype(case, *arrays):
  if case["dtype"] is not None:
    return case["dtype"]
  d = jnp.result_type(*[jnp.asarray(a) for a in arrays])
  if not jnp.issubdtype(d, jnp.inexact):
    d = jnp.promote_types(jnp.float32, d)
  return str(d)


def forward(how, m, x, call):
  if how in ("call", "kwargs"):
    return call(m, x)
  if how == "np":
    return call(m, np.asarray(x))
  if how == "merge":
    return call(m.partition().merge(), x)
  if how == "jit":
    return nnx.jit(call)(m, x)
  if how == "jaxjit":
    return jax.jit(lambda p, x: call(p.merge(), x))(m.partition(), x)
  state, d = m.partition()
  return d.apply(state)(x)[0] if call.__name__ == "plain" else call(d.merge(state), x)


def run_forward(case, rec, m, x, name, call, dots=()):
  kernel, bias = m.kernel, m.bias
  arrays = [x, kernel] + ([bias] if bias is not None else [])
  dt = result_dtype(case, *arrays)
  what = f"{name} of {x.dtype}{list(x.shape)}"

  def plain(m, x):
    return call(m, x)

  rec.tag(case["how"])
  rec.tag(f"dtype {dt}")
  if not jnp.issubdtype(jnp.dtype(dt), jnp.inexact):
    try:
      forward(case["how"], m, x, plain)
    except Exception:
      rec.tag("refused")
      return
    raise AssertionError(f"{what}: integer computation dtype {dt} was accepted")
  if dt != "complex64" and any("complex" in str(a.dtype) for a in arrays):
    # a cast from complex to real is not meant
    return
  y = forward(case["how"], m, x, plain)
  assert isinstance(y, jax.Array)
  xw, kw = N.rounded(x, dt), N.rounded(kernel, dt)
  want = np.zeros(x.shape[:-1] + (kernel.shape[1],), np.result_type(xw, kw))
  bound = np.zeros(want.shape)
  for i in range(kernel.shape[0]):
    want = want + xw[..., i, None] * kw[i]
    bound = bound + np.abs(xw[..., i, None]) * np.abs(kw[i])
  if bias is not None:
    want, bound = want + N.rounded(bias, dt), bound + np.abs(N.rounded(bias, dt))
  N.close(y, want, bound * (kernel.shape[0] + 3), dt, what)
  rec.nt(want.size > 1 and kernel.shape[0] > 1)
  assert not case["dot"] or dots, "dot_general was not used"
  assert np.array_equal(np.asarray(m.kernel), np.asarray(kernel)), "the kernel changed"
  assert m.bias is None if bias is None else np.array_equal(np.asarray(m.bias), np.asarray(bias)), "the bias changed"


# ------------------------------------------------------------------ gradients through Linear


@st.composite
def grad_cases(draw):
  return {"nin": draw(st.integers(1, 4)), "nout": draw(st.integers(1, 4)), "n": draw(st.integers(1, 4)), "bias": draw(st.booleans()), "seed": draw(st.integers(0, 20)), "x": draw(st.integers(0, 500))}


def run_grad(case, rec):
  m = nnx.Linear(case["nin"], case["nout"], use_bias=case["bias"], ctx=nnx.context(case["seed"]))
  x = N.data("float32", (case["n"], case["nin"]), case["x"])
  w = N.data("float32", (case["n"], case["nout"]), case["x"] + 1)
  g = nnx.grad(lambda m: jnp.sum(m(x) * w))(m)
  N.close(g["kernel"].value, N.wide(x).T @ N.wide(w), np.abs(N.wide(x)).T @ np.abs(N.wide(w)) * (case["n"] + 3), "float32", "kernel gradient")
  if case["bias"]:
    N.close(g["bias"].value, N.wide(w).sum(0), np.abs(N.wide(w)).sum(0) * (case["n"] + 3), "float32", "bias gradient")
  else:
    assert g["bias"].value is None
  assert sorted(g) == ["bias", "kernel"]
  rec.nt(case["n"] > 1)


# ------------------------------------------------------------------ embeddings

INTS = ["int32", "int32", "int8", "uint8", "int16", "uint32"]


@st.composite
def embed_cases(draw):
  num = draw(st.integers(1, 9))
  batch = draw(st.lists(st.sampled_from([2, 3, 1, 4, 2, 3, 2, 5, 0]), max_size=3))
  n = int(np.prod(batch)) if batch else 1
  return {
      "num": num, "features": draw(st.integers(1, 5)), "batch": batch, "index": draw(st.lists(st.integers(0, num - 1), min_size=n, max_size=n)),
      "back": draw(st.integers(0, 7)), "idtype": draw(st.sampled_from(INTS)), "pdtype": draw(st.sampled_from(FLOATS)), "dtype": draw(st.one_of(st.none(), st.none(), st.sampled_from(FLOATS), st.just("int32"))),
      "init": draw(st.sampled_from(INITS)), "seed": draw(st.integers(0, 50)), "stream": draw(st.sampled_from(["params", "default", "both"])), "drawn": draw(st.integers(0, 2)), "odd": draw(ODD),
      "how": draw(st.sampled_from(["call", "merge", "jit", "apply", "jaxjit", "np"])), "bad": draw(st.sampled_from(["float32", "bool", "float16", "complex64"])),
      "qdtype": draw(st.sampled_from(INPUTS)), "qbatch": draw(st.lists(st.sampled_from([2, 3, 1]), max_size=3)), "x": draw(st.integers(0, 500)),
  }


def run_embed(case, rec):
  num, features, pdtype = case["num"], case["features"], case["pdtype"]
  kwargs = {}
  init = None
  if case["init"] != "default":
    init = Recorder(plain_init(case["init"], 1, case.get("odd")))
    kwargs["embedding_init"] = init
  if case["dtype"] is not None:
    kwargs["dtype"] = jnp.dtype(case["dtype"])
  if pdtype != "float32":
    kwargs["param_dtype"] = jnp.dtype(pdtype)
  ctx = context(case)
  m = nnx.Embed(num, features, ctx=ctx, **kwargs)
  default = jax.nn.initializers.variance_scaling(1.0, "fan_in", "normal", out_axis=0)
  check_param(m.embedding, (num, features), pdtype, case["init"], default, keys_of(case, 2), init, 1, "embedding", case.get("odd"))
  state = m.get_state()
  assert list(state) == ["embedding"] and type(state["embedding"]) is nnx.Param
  other = nnx.Embed(num, features, ctx=ctx, **kwargs)
  if case["init"] in ("normal", "uniform", "default") and num * features > 1 and pdtype not in ("float16", "bfloat16") and not case.get("odd"):
    assert not np.array_equal(np.asarray(other.embedding), np.asarray(m.embedding)), "two layers of one context have equal tables"
  table = m.embedding
  dt = case["dtype"] or str(table.dtype)
  idx = np.asarray(case["index"], np.int64).reshape(case["batch"])
  if not case["idtype"].startswith("u") and case.get("back"):  # some count from the end
    idx = np.where(np.arange(idx.size).reshape(idx.shape) % case["back"] == 0, idx - num, idx)
    rec.tag("negative indices")
  x = jnp.asarray(idx, case["idtype"])
  rec.tag(case["how"])

  def plain(m, x):
    return m(x)

  def attend(m, x):
    return m.attend(x)

  lossy = "complex" in str(table.dtype) and dt != "complex64"
  if not lossy:
    y = forward(case["how"], m, x, plain)
    assert str(y.dtype) == dt, f"dtype {y.dtype} instead of {dt}"
    cast = np.asarray(table.astype(dt))
    want = np.stack([cast[i] for i in idx.reshape(-1)]).reshape(idx.shape + (features,)) if idx.size else np.zeros(idx.shape + (features,))
    assert y.shape == want.shape, f"shape {y.shape} instead of {want.shape}"
    assert np.array_equal(np.asarray(y), want), f"rows {y} instead of {want}"
    rec.nt(idx.size > 1 and num > 1)
  bad = N.data(case["bad"], tuple(case["batch"]), 1)
  try:
    forward(case["how"], m, bad, plain)
  except ValueError:
    pass
  else:
    raise AssertionError(f"{case['bad']} indices were accepted")

  q = N.data(case["qdtype"], tuple(case["qbatch"]) + (features,), case["x"])
  if lossy or "complex" in case["qdtype"] and dt != "complex64":
    return
  if not jnp.issubdtype(jnp.dtype(dt), jnp.inexact):
    try:
      attend(m, q)
    except ValueError:
      return
    raise AssertionError("attend accepted an integer dtype")
  y = forward(case["how"], m, q, attend)
  qw, tw = N.rounded(q, dt), N.rounded(table, dt)
  want = np.einsum("...f,nf->...n", qw, tw)
  bound = np.einsum("...f,nf->...n", np.abs(qw), np.abs(tw)) * (features + 3)
  N.close(y, want, bound, dt, "attend")
  assert np.array_equal(np.asarray(m.embedding), np.asarray(table)), "the table changed"


# ------------------------------------------------------------------ gradients through Embed


@st.composite
def embed_grad_cases(draw):
  num = draw(st.integers(1, 6))
  return {
      "num": num, "features": draw(st.integers(1, 4)), "index": draw(st.lists(st.integers(0, num - 1), min_size=1, max_size=6)), "form": draw(st.sampled_from(["call", "attend", "tied"])),
      "how": draw(st.sampled_from(["nnx", "jax"])), "seed": draw(st.integers(0, 20)), "x": draw(st.integers(0, 500)),
  }


def run_embed_grad(case, rec):
  """The table gets the gradient of every use: rows looked up (repeatedly), rows attended over, and both of tied weights."""
  m = nnx.Embed(case["num"], case["features"], ctx=nnx.context(case["seed"]))
  i = np.asarray(case["index"])
  form = case["form"]
  rec.tag(form)
  rec.nt(len(set(case["index"])) < len(case["index"]) or form != "call")
  calls = {"call": lambda m, x: m(x), "attend": lambda m, x: m.attend(x), "tied": lambda m, x: m.attend(m(x))}
  refs = {"call": lambda p, x: p["embedding"][i], "attend": lambda p, x: x @ p["embedding"].T, "tied": lambda p, x: p["embedding"][i] @ p["embedding"].T}
  x = N.data("float32", (len(i), case["features"]), case["x"]) if form == "attend" else jnp.asarray(i)
  N.check_gradients(m, x, calls[form], refs[form], case["how"], f"Embed {form}")


CHECKS = [
    Check("linear", linear_cases, run_linear, quick=900, thorough=10000),
    Check("grad", grad_cases, run_grad, quick=60, thorough=800),
    Check("embedgrad", embed_grad_cases, run_embed_grad, quick=60, thorough=800),
    Check("embed", embed_cases, run_embed, quick=700, thorough=8000),
]
