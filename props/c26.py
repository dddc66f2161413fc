"""C26 Dropout masks, scales and switches off exactly as specified."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import numerics as N
from vlib.driver import Check

RULE = (
    "Cases: Dropout layers of every rate (0 and 1 included), broadcast dimensions (negative ones included), stream name and "
    "dtype, over shapes of rank 0 to 6, the switch given by every combination of call argument, layer attribute and context flag "
    "(contradicting and missing ones included), called directly, after split and merge, under jax.jit and grad, with one or several "
    "contexts; every output element is compared with the input, the masks of repeated draws, streams, seeds and equal contexts with "
    "each other, and the number of dropped elements (in all, and along every dimension) with the rate within 8 standard deviations. "
    "Non-trivial: a mask of at least 200 independent elements was drawn."
)
ASSUMPTIONS = ["inputs are floating point jax arrays, or float32 numpy arrays that are not scalars (numpy promotes the others)", "rates are between 0 and 1", "a call at rate 0 without any switch is not judged"]

TRI = [None, False, None, False, None, False, True]
RATES = [0.5, 0.2, 0.25, 0.1, 0.9, 0.75, 0.3, 0.5, 0.25, 0.75, 0.0, 1.0]


@st.composite
def cases(draw):
  rank = draw(st.sampled_from([2, 3, 2, 1, 4, 0, 5, 6]))
  big = draw(st.sampled_from([True, True, False]))
  sizes = {0: [1], 1: [400, 1000, 64], 2: [20, 30, 40], 3: [8, 12, 10], 4: [6, 5, 7], 5: [4, 3, 5], 6: [3, 4, 2]}[rank] if big else [1, 2, 3]
  shape = [draw(st.sampled_from(sizes)) for _ in range(rank)]
  broadcast = draw(st.lists(st.integers(0, rank - 1), min_size=max(0, rank - 2) if rank > 4 else 0, max_size=rank, unique=True)) if rank and draw(st.booleans()) else []
  return {
      "shape": shape, "broadcast": [b - rank if draw(st.booleans()) else b for b in broadcast], "rate": draw(st.sampled_from(RATES)),
      "dtype": draw(st.sampled_from(["float32", "float32", "float16", "bfloat16"])), "name": draw(st.sampled_from(["dropout", "dropout", "noise"])),
      "stream": draw(st.sampled_from(["own", "several", "own", "several", "own", "several", "own", "missing", "noctx"])), "seed": draw(st.integers(0, 200)), "drawn": draw(st.integers(0, 2)),
      "call": draw(st.sampled_from(TRI)), "layer": draw(st.sampled_from(TRI)), "flag": draw(st.sampled_from(["none", False, "none", False, True])),
      "how": draw(st.sampled_from(["call", "call", "merge", "jit", "sub", "np"])), "positional": draw(st.booleans()), "x": draw(st.integers(0, 1000)), "list": draw(st.booleans()),
  }


@st.composite
def extreme_cases(draw):
  """Rates close to 0 and 1, with enough elements to see them."""
  case = draw(cases())
  shape = draw(st.sampled_from([[200, 200], [40, 1000], [300, 300], [20, 40, 50]]))
  case.update(rate=draw(st.sampled_from([0.999, 0.995, 0.99, 0.97, 0.03, 0.01, 0.005, 0.001])), shape=shape,
              broadcast=[b for b in case["broadcast"] if -1 <= b < 1][:1], call=False, how=draw(st.sampled_from(["call", "jit", "merge"])),
              stream=draw(st.sampled_from(["own", "several"])))
  return case


def make_layer(case, name=None):
  kw = {}
  broadcast = list(case["broadcast"]) if case["list"] else tuple(case["broadcast"])
  name = name or case["name"]
  if case["positional"]:
    return nnx.Dropout(case["rate"], broadcast, case["layer"], name)
  if case["broadcast"]:
    kw["broadcast_dims"] = broadcast
  if case["layer"] is not None:
    kw["deterministic"] = case["layer"]
  if name != "dropout":
    kw["rng_collection"] = name
  return nnx.Dropout(rate=case["rate"], **kw)


def make_context(case, seed=None):
  if case["stream"] == "noctx":
    return None
  seed = case["seed"] if seed is None else seed
  flags = {"flags": {"deterministic": case["flag"]}} if case["flag"] != "none" else {}
  if case["stream"] == "several":
    ctx = nnx.context(seed, dropout=seed, noise=seed + 1000, other=seed + 2000, **flags)
  elif case["stream"] == "own":
    ctx = nnx.context(**{case["name"]: seed, "params": seed}, **flags)
  else:
    ctx = nnx.context(params=seed, **flags)
  if case["stream"] != "missing":
    for _ in range(case["drawn"]):
      ctx.make_rng(case["name"])
  return ctx


class Outer(nnx.Module):

  def __init__(self, layer):
    self.layer = layer

  def __call__(self, x, **kw):
    return self.layer(x, **kw)


def call(case, m, x, ctx):
  kw = {}
  if case["call"] is not None:
    kw["deterministic"] = case["call"]
  how = case["how"]
  if how == "np" and x.ndim and x.dtype == jnp.float32:
    x = np.asarray(x)
  if how == "merge":
    m = m.partition().merge()
  elif how == "sub":
    m = Outer(m).partition().merge()
  if how == "jit":
    if ctx is None:
      return jax.jit(lambda x: m(x, **kw))(x)
    # the same state of the context inside as outside
    return jax.jit(lambda p, x: m(x, ctx=p.merge(), **kw))(ctx.partition(), x)
  if ctx is not None:
    kw["ctx"] = ctx
  return m(x, **kw)


def input_of(case):
  x = N.data(case["dtype"], tuple(case["shape"]), case["x"])
  return jnp.where(x < 0, x - 0.25, x + 0.25).astype(case["dtype"])


def check_masked(y, x, case, what):
  """Every element is zero or scaled; returns the mask of kept elements."""
  rate = case["rate"]
  assert y.dtype == x.dtype and y.shape == x.shape, f"{what}: {y.dtype}{y.shape} for {x.dtype}{x.shape}"
  yw, want = N.wide(y), N.wide(x) / (1 - rate)
  kept = yw != 0
  eps = N.EPS[str(x.dtype)]
  bad = kept & ~(np.abs(yw - want) <= 3 * eps * np.abs(want))
  assert not bad.any(), f"{what}: {yw[bad][0]} is neither zero nor {want[bad][0]}"
  return kept


def reduce_broadcast(kept, case, what):
  for d in case["broadcast"]:
    first = np.take(kept, [0], axis=d)
    assert (kept == first).all(), f"{what}: elements along broadcast dimension {d} differ"
    kept = first
  return kept


def check_rate(kept, rate, what):
  def near(count, n):
    # the counts of rare events are not normally distributed
    return abs(count - n * (1 - rate)) <= 8 * np.sqrt(n * rate * (1 - rate)) + (1 if 0.05 < rate < 0.95 else 6)

  assert near(kept.sum(), kept.size), f"{what}: {kept.sum()} of {kept.size} elements kept at rate {rate}"
  for d in range(kept.ndim):
    per = kept.size // kept.shape[d] if kept.shape[d] else 0
    for i in range(kept.shape[d]):
      s = np.take(kept, i, axis=d)
      assert near(s.sum(), per), f"{what}: {s.sum()} of {per} elements kept at position {i} of dimension {d}"
    # neighbours along the dimension do not share their fate
    if kept.shape[d] > 1 and kept.size >= 400:
      a, b = np.take(kept, range(kept.shape[d] - 1), axis=d), np.take(kept, range(1, kept.shape[d]), axis=d)
      q = rate * rate + (1 - rate) * (1 - rate)
      agree, n = (a == b).sum(), a.size
      assert agree <= n * q + 12 * np.sqrt(n * q * (1 - q)) + 4, f"{what}: {agree} of {n} neighbours along dimension {d} agree"


def run(case, rec):
  rate = case["rate"]
  m = make_layer(case)
  x = input_of(case)
  ctx = make_context(case)
  switch = case["call"]
  if switch is None:
    switch = case["layer"]
  if switch is None and case["flag"] != "none" and ctx is not None:
    switch = case["flag"]
  rec.tag(f"rate {rate}")
  rec.tag(case["how"])
  rec.tag("deterministic" if switch else "no switch" if switch is None else "active")

  if switch is None:
    if rate == 0.0:
      return
    try:
      call(case, m, x, ctx)
    except ValueError:
      return
    raise AssertionError("accepted without a switch")
  if switch or rate == 0.0:
    y = call(case, m, x, ctx)
    assert y.dtype == x.dtype and np.array_equal(np.asarray(y), np.asarray(x)), "not the identity"
    if ctx is not None and case["stream"] != "missing" and case["how"] != "jit":
      # nothing is drawn
      fresh = make_context(case)
      assert np.array_equal(np.asarray(ctx.make_rng(case["name"])), np.asarray(fresh.make_rng(case["name"]))), "a key was drawn for the identity"
    return
  if rate == 1.0:
    y = call(case, m, x, ctx)
    assert y.dtype == x.dtype and y.shape == x.shape and not np.asarray(y).any(), f"rate 1: {y}"
    g = jax.grad(lambda x: jnp.sum(m(x, deterministic=False).astype(jnp.float32)))(x)
    assert not np.asarray(g).any(), "gradient at rate 1"
    return
  if ctx is None or case["stream"] == "missing":
    try:
      call(case, m, x, ctx)
    except ValueError:
      return
    raise AssertionError("a mask was drawn without a stream for it")

  y = call(case, m, x, ctx)
  kept = check_masked(y, x, case, "first draw")
  mask = reduce_broadcast(kept, case, "first draw")
  check_rate(mask, rate, "first draw")
  # every equal context gives the same mask, whatever the layer's history
  y2 = call(case, m, x, make_context(case))
  assert np.array_equal(np.asarray(y), np.asarray(y2)), "an equal context gave another mask"
  if case["how"] != "jit":
    y3 = call(case, m, x, ctx)
    kept3 = reduce_broadcast(check_masked(y3, x, case, "second draw"), case, "second draw")
    check_rate(kept3, rate, "second draw")
  if mask.size >= 200 and mask.size * min(rate, 1 - rate) >= 20:
    rec.nt(True)
    if case["how"] != "jit":
      assert (kept3 != mask).any(), "two draws gave the same mask"
      both = (kept3 == mask).mean()
      q = rate * rate + (1 - rate) * (1 - rate)
      assert abs(both - q) <= 9 * np.sqrt(q * (1 - q) / mask.size) + 0.01, f"two draws agree on {both:.3f} of the elements"
    z = call(case, m, x, make_context(case, case["seed"] + 1))
    assert (check_masked(z, x, case, "other seed") != kept).any(), "another seed gave the same mask"
    # another stream of the same seed
    if case["stream"] == "several":
      other = make_layer(case, "other")
      z = call(case, other, x, make_context(case))
      assert (check_masked(z, x, case, "other stream") != kept).any(), "another stream gave the same mask"
  # the gradient is the mask
  c2 = make_context(case)
  kw = {} if case["call"] is None else {"deterministic": case["call"]}
  if case["how"] in ("call", "merge", "sub", "np"):
    # at the trace level of the gradient
    g = jax.grad(lambda x: jnp.sum(m(x, ctx=c2, **kw).astype(jnp.float32)))(x)
    want = np.where(kept, 1 / (1 - rate), 0.0)
    assert np.allclose(N.wide(g), want, rtol=4 * N.EPS[str(x.dtype)]), "gradient"


CHECKS = [
    Check("dropout", cases, run, quick=1200, thorough=20000),
    Check("extreme", extreme_cases, run, quick=80, thorough=1500),
]
