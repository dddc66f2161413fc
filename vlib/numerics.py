"""Float64 references with error bounds, and values of every dtype."""
import jax
import jax.numpy as jnp
import numpy as np

EPS = {"float32": 2.0**-23, "float16": 2.0**-10, "bfloat16": 2.0**-7, "complex64": 2.0**-22, "float64": 2.0**-23, "complex128": 2.0**-22}


def wide(x):
  """The exact float64 (or complex128) copy of an array."""
  x = np.asarray(x)
  return x.astype(np.complex128 if np.iscomplexobj(x) else np.float64)


def rounded(x, dtype):
  """x as it is after a cast to the dtype, in float64."""
  return wide(np.asarray(jnp.asarray(x).astype(dtype)))


def data(dtype, shape, seed, scale=1.0):
  """A jax array of the dtype: values in about [-1.5, 1.5] x scale, no two neighbours equal; integers in [-6, 6]."""
  rng = np.random.RandomState(seed % 100003)
  name = str(jnp.dtype(dtype))
  if name == "bool":
    return jnp.asarray(rng.rand(*shape) < 0.5)
  if name.startswith("uint"):
    return jnp.asarray(rng.randint(0, 7, shape), dtype)
  if name.startswith("int"):
    return jnp.asarray(rng.randint(-6, 7, shape), dtype)
  x = (rng.rand(*shape) * 3 - 1.5) * scale
  if name.startswith("complex"):
    x = x + 1j * (rng.rand(*shape) * 3 - 1.5) * scale
  return jnp.asarray(np.asarray(x), dtype)


def close(got, want, bound, dtype, what):
  """|got - want| <= eps(dtype) * bound elementwise, for the float64 reference `want`."""
  assert str(got.dtype) == str(jnp.dtype(dtype)), f"{what}: dtype {got.dtype} instead of {jnp.dtype(dtype)}"
  assert tuple(got.shape) == tuple(want.shape), f"{what}: shape {got.shape} instead of {want.shape}"
  g = wide(got)
  eps = EPS[str(jnp.dtype(dtype))]
  tiny = 1e-30 if "16" not in str(jnp.dtype(dtype)) else 1e-6
  limit = eps * np.asarray(bound) + tiny
  bad = ~(np.abs(g - want) <= limit)
  if bad.any():
    i = tuple(int(k) for k in np.argwhere(bad)[0])
    raise AssertionError(f"{what}: element {i} is {g[i]} instead of {want[i]} (allowed error {np.broadcast_to(limit, want.shape)[i]:.3g})")


PRECISIONS = {
    "highest": "highest", "high": "high", "enum": jax.lax.Precision.HIGHEST, "default": jax.lax.Precision.DEFAULT,
    "pair": ("highest", "default"), "enum pair": (jax.lax.Precision.HIGH, jax.lax.Precision.HIGHEST),
}


def check_precision(fn, x, primitive, asked):
  """Every operation of the kind is traced with the precision that was asked for (a CPU computes the same with any)."""
  e = jnp.ones((1, 1))
  want = jax.make_jaxpr(lambda e: jax.lax.dot_general(e, e, (((1,), (0,)), ((), ())), precision=asked))(e).eqns[0].params["precision"]
  found = []

  def visit(jaxpr):
    for q in jaxpr.eqns:
      if q.primitive.name == primitive:
        found.append(q.params["precision"])
      for v in q.params.values():
        for s in v if isinstance(v, (tuple, list)) else [v]:
          s = getattr(s, "jaxpr", s)
          if hasattr(s, "eqns"):
            visit(s)

  visit(jax.make_jaxpr(fn)(x).jaxpr)
  assert found and all(f == want for f in found), f"{primitive} with precision {found}, asked for {asked}"


def check_gradients(m, x, call, ref, how, what):
  """The gradients of a layer's weighted output, along one direction per argument, against differences of the float64 formula."""
  import nnx

  y = call(m.clone(), x)
  w = data("float32", y.shape, 11)
  state, d = m.partition()
  names = [k for k, v in state.items() if v.value is not None]
  args = {k: wide(state[k].value) for k in names}
  if x is not None and jnp.issubdtype(x.dtype, jnp.inexact):
    args["input"] = wide(x)
  fixed = x
  if how == "nnx":
    g = nnx.grad(lambda m: jnp.sum(call(m, x) * w))(m.clone())
    assert set(g) <= set(state), f"{what}: gradients of {sorted(g)}"
    grads = {k: g[k].value for k in g if k in names}
    names = sorted(grads)
  else:
    def pure(arrays, x):
      new = d.merge(state)
      new.update_state(nnx.State({k: state[k].replace(value=a) for k, a in arrays.items()}))
      return jnp.sum(call(new, x) * w)

    arrays = {k: state[k].value for k in names}
    if "input" in args:
      grads, grads["input"] = jax.grad(pure, argnums=(0, 1))(arrays, x)
      names = names + ["input"]
    else:
      grads = jax.grad(pure)(arrays, x)
  h = 1e-5
  for k in names:
    g = wide(grads[k])
    assert g.shape == args[k].shape, f"{what}: gradient of {k} has shape {g.shape}"
    v = wide(data("float32", g.shape, 13))
    hi, lo = dict(args), dict(args)
    hi[k], lo[k] = args[k] + h * v, args[k] - h * v
    take = lambda a: a.pop("input", fixed)
    xh, xl = take(hi), take(lo)
    want = float(np.sum(wide(w) * (ref(hi, xh) - ref(lo, xl)))) / (2 * h)
    got = float(np.sum(g * v))
    limit = 2e-3 * (float(np.sum(np.abs(g * v))) + float(np.sum(np.abs(wide(w)))) + 1)
    assert abs(got - want) <= limit, f"{what}: the derivative by {k} is {got} instead of {want} (allowed error {limit:.3g})"
