"""C14 Scan construction stacks independently initialized layers."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import filters as F
from vlib import programs as P
from vlib.driver import Check

RULE = (
    "Cases: a layer constructor (nested and shared modules; variables of several kinds and array attributes, filled from "
    "named random streams, arguments or constants, with or without sharding; library layers), axis filters with axes 0 to 2 "
    "and negative, broadcast and carry filters, a length, a stream selection, a partition name, the Scan class or a decorated "
    "__init__, then zero to two applications that read, update and create variables. Oracle: the same constructor run once "
    "per layer with the i-th split of the selected streams, stacked with numpy. Also scans of scans up to three levels, each with its axis, length, name and stream selection, the class or the decorator, applied, jitted and differentiated: values, names outside and names seen inside at every level. "
    "Non-trivial: length at least 2 and at least "
    "one axis variable filled from a random stream."
)

ASSUMPTIONS = [
    "negative axes are combined with shardings that name every dimension",
    "state outside the axis filters does not depend on split streams (that is refused by jax.vmap; checked to raise)",
]

TOL = 2e-5
STREAMS = ["params", "noise", "extra"]
KINDS = ["Param", "BatchStat", "Cache", "CustomVar"]
ITEM_KINDS = KINDS + ["Node"]
SHAPES = [[2, 3], [3, 2], [2, 2, 2], [3, 4]]
LOG = []


def kind(name):
  return F.TYPES[name]


class Layer(nnx.Module):
  """Built from a frozen description; the description is data of the case."""

  def __init__(self, spec, extra, *, scale=1.0, ctx=None):
    fill(self, spec, extra, scale, ctx)

  def __call__(self, x, e=None, b=None, *, ctx=None):
    return apply(self, x, e)

  def other(self, x, e=None, b=None, *, ctx=None):
    return apply(self, x, e)


class Inner(Layer):
  pass


def fill(self, spec, extra, scale, ctx):
  spec = P.freeze(spec)
  self.static = ("layer", len(spec))
  self.tag = "t"
  for item in spec:
    t, name = item[0], item[1]
    if t == "var" or t == "arr":
      _, _, kd, shape, src, sharding = item
      v = value(shape, src, extra, scale, ctx)
      if t == "arr":
        setattr(self, name, v)
      elif sharding is not None:
        setattr(self, name, kind(kd)(v, sharding=tuple(sharding)))
      elif kd == "Node":
        setattr(self, name, nnx.Node(v, note="kept"))
      else:
        setattr(self, name, kind(kd)(v))
    elif t == "sub":
      setattr(self, name, Inner(item[2], extra, scale=scale, ctx=ctx))
    elif t == "share":
      if hasattr(self, item[2]):
        setattr(self, name, getattr(self, item[2]))
    elif t == "linear":
      init = nnx.initializers.lecun_normal()
      if item[2] is not None:
        init = nnx.with_metadata(init, sharding=tuple(item[2]))
      setattr(self, name, nnx.Linear(3, 2, kernel_init=init, ctx=ctx))
    elif t == "bn":
      setattr(self, name, nnx.BatchNorm(3, ctx=ctx))
    elif t == "emb":
      setattr(self, name, nnx.Embed(4, 3, ctx=ctx))


def value(shape, src, extra, scale, ctx):
  shape = tuple(shape)
  if src[0] == "rng":
    return jax.random.normal(ctx.make_rng(src[1]), shape) * scale
  if src[0] == "two":
    return jax.random.uniform(ctx.make_rng(src[1]), shape) + jax.random.normal(ctx.make_rng(src[2]), shape)
  if src[0] == "arg":
    return jnp.zeros(shape) + extra
  if src[0] == "flag":
    return jnp.full(shape, 2.0 if ctx is not None and ctx.has_flag("f") else 3.0)
  return jnp.full(shape, src[1], dtype=jnp.float32)


def modules(m, path=(), seen=None):
  seen = {} if seen is None else seen
  if id(m) in seen:
    return
  seen[id(m)] = m
  yield path, m
  for name, v in sorted(vars(m).items()):
    if isinstance(v, nnx.Module):
      yield from modules(v, path + (name,), seen)


def containers(m):
  for path, mod in modules(m):
    for name, v in sorted(vars(mod).items()):
      if isinstance(v, nnx.Node):
        yield "/".join(path + (name,)), v


def apply(m, x, e):
  seen = {p: getattr(v, "sharding", None) for p, v in containers(m)}
  LOG.append(seen)
  for p, v in containers(m):
    x = x + 0.25 * jnp.sum(v.value)
  if hasattr(m, "stat"):
    m.stat = m.stat * 0.5 + 1.0
  if e is not None:
    m.made = nnx.Variable(jnp.ones((2, 3)) * x, sharding=("p", "q"))
  return jnp.tanh(x), x


# ------------------------------------------------------------------ cases

FILTERS = [
    ["type", "Param"], ["type", "BatchStat"], ["type", "Cache"], ["type", "CustomVar"], ["type", "Node"], ["buffers"],
    ["path", "w"], ["path", "s"], ["tuple", [["type", "Param"], ["type", "BatchStat"]]],
]
RNG_FILTERS = [None, "all", "params", ["noise"], ["params", "noise"], {"params": True, "extra": False}, "fn", {"extra": True, ...: False}]
NAMES = ["w", "u", "stat", "ws", "z"]


@st.composite
def var_items(draw, name):
  t = draw(st.sampled_from(["var", "var", "var", "arr"]))
  shape = draw(st.sampled_from(SHAPES))
  src = draw(st.one_of(
      st.tuples(st.just("rng"), st.sampled_from(STREAMS)), st.tuples(st.just("rng"), st.sampled_from(STREAMS)),
      st.tuples(st.just("two"), st.sampled_from(STREAMS), st.sampled_from(STREAMS)),
      st.tuples(st.just("const"), st.sampled_from([0.5, -1.0])), st.just(("arg",)), st.just(("flag",)),
  ))
  sharding = draw(st.one_of(st.none(), st.lists(st.sampled_from(["a", "b", "c", None]), min_size=len(shape), max_size=len(shape)),
                            st.lists(st.sampled_from(["a", None]), max_size=len(shape))))
  return [t, name, draw(st.sampled_from(ITEM_KINDS)), shape, list(src), sharding]


@st.composite
def layers(draw, depth=0):
  names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
  out = [draw(var_items(n)) for n in names]
  if depth < 2 and draw(st.integers(0, 2)) == 0:
    out.append(["sub", "s", draw(layers(depth + 1))])
    if draw(st.booleans()):
      out.append(["share", "s2", "s"])
  extra = draw(st.sampled_from([None, None, "linear", "bn", "emb"]))
  if extra == "linear":
    out.append(["linear", "lin", draw(st.sampled_from([None, ["a", "b"], [None, "c"]]))])
  elif extra:
    out.append([extra, "lib"])
  return out


@st.composite
def cases(draw):
  spec = draw(layers())
  n = draw(st.sampled_from([0, 1, 1, 1, 2, 3]))
  which = [0, 0, 1, -1, -2] if "lib" in str(spec) or "lin" in str(spec) else [0, 0, 1, 2, -1, -2, -3]
  axes = draw(st.lists(st.tuples(st.sampled_from(FILTERS), st.sampled_from(which)).map(list), min_size=n, max_size=n))
  bcast = draw(st.sampled_from([["none"], ["none"], *FILTERS]))
  if n < 3 and draw(st.integers(0, 3)) > 0:
    axes.append([draw(st.sampled_from([["type", "Node"], ["type", "Param"], ["buffers"]])), draw(st.sampled_from(which))])
  split = draw(st.sampled_from([0, 1, 1, 1, 2, 3, 4, 4, 5, 6]))
  if draw(st.integers(0, 7)) > 0:
    repair(spec, axes, split, "")
  if any(ax < 0 for _, ax in axes):
    complete(spec)
  return {
      "g": spec, "axes": axes, "bcast": bcast, "L": draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.sampled_from([1, 2, 3, 4, 11]))), "split": split,
      "name": draw(st.sampled_from([None, "layers", "layers"])), "form": draw(st.sampled_from(["Scan", "Scan", "dec", "other"])),
      "ctx": True, "seeds": draw(st.lists(st.integers(0, 5), min_size=3, max_size=3)),
      "length": draw(st.sampled_from([True, True, False])), "applies": draw(st.integers(0, 2)),
      "make": draw(st.booleans()), "jit": draw(st.booleans()), "flag": draw(st.booleans()),
  }


def repair(spec, axes, split, path):
  """Random values only in axis variables, so that construction is possible."""
  for item in spec:
    if item[0] in ("var", "arr"):
      if classify(path + item[1], item, axes, ["none"]) == "c":
        if any(rng_split(split, s) for s in item[4][1:] if isinstance(s, str)):
          item[4] = ["const", 0.25]
    elif item[0] == "sub":
      repair(item[2], axes, split, path + item[1] + "/")


def complete(spec):
  for item in spec:
    if item[0] in ("var", "arr") and item[5] is not None:
      item[5] = (item[5] + [None] * 3)[:len(item[3])]
    elif item[0] == "sub":
      complete(item[2])


def classify(path, item, axes, bcast):
  spec = ["val", ["j"]] if item[0] == "arr" else ["var", item[2], None, []]
  for n, (f, _) in enumerate(axes):
    if F.match(f, path, spec):
      return n
  return "b" if F.match(bcast, path, spec) else "c"


def class_of(path, v, axes, bcast):
  if isinstance(v, nnx.Node):
    return classify(path, ["var", "", type(v).__name__], axes, bcast)
  return classify(path, ["arr"], axes, bcast)


def rng_filter(k):
  f = RNG_FILTERS[k]
  return ... if f == "all" else (lambda name: name != "params") if f == "fn" else f


def rng_split(k, name):
  f = RNG_FILTERS[k]
  if f is None:
    return False
  if f == "all":
    return True
  if f == "fn":
    return name != "params"
  if isinstance(f, str):
    return f == name
  if isinstance(f, dict):
    return f.get(name, False)
  return name in f


def entries(m):
  """path -> container or array, for every module at its first path."""
  out = {}
  for path, mod in modules(m):
    for name, v in sorted(vars(mod).items()):
      if isinstance(v, (nnx.Node, jax.Array)):
        out["/".join(path + (name,))] = v
  return out


def statics(m):
  return {
      (path, name): v for path, mod in modules(m) for name, v in vars(mod).items()
      if isinstance(v, (str, int, float, tuple, bool, type(None))) and not name.startswith("_")
  }


def shape_of_graph(m):
  index = {id(mod): i for i, (_, mod) in enumerate(modules(m))}
  return [
      (type(mod).__name__ if path else "", sorted((n, index[id(v)]) for n, v in vars(mod).items() if isinstance(v, nnx.Module)))
      for path, mod in modules(m)
  ]


def with_name(sharding, axis, name, ndim):
  """Where a stacked variable with this sharding carries the partition name."""
  s = list(sharding)
  if axis < 0:
    axis += ndim + 1
  s += [None] * (axis - len(s))
  return tuple(s[:axis] + [name] + s[axis:])


def stripped(s):
  s = list(s or ())
  while s and s[-1] is None:
    s.pop()
  return tuple(s)


def uses_split(spec, split, axes, bcast, path=""):
  """Paths outside the axis filters whose value depends on a split stream."""
  out = []
  for item in spec:
    t = item[0]
    if t in ("var", "arr"):
      if not isinstance(classify(path + item[1], item, axes, bcast), int):
        if item[4][0] in ("rng", "two") and any(rng_split(split, s) for s in item[4][1:]):
          out.append(path + item[1])
    elif t == "sub":
      out += uses_split(item[2], split, axes, bcast, path + item[1] + "/")
    elif t in ("linear", "emb") and rng_split(split, "params"):
      leaf = "lin/kernel" if t == "linear" else "lib/embedding"
      if not isinstance(classify(path + leaf, ["var", "", "Param"], axes, bcast), int):
        out.append(path + leaf)
  return out


def run(case, rec):
  spec, L, name, split = case["g"], case["L"], case["name"], case["split"]
  bcast = case["bcast"]
  axes, keys_seen = [], {}
  for f, ax in case["axes"]:
    keys_seen.setdefault(str(f), ax)
  axes = [[f, keys_seen[str(f)]] for n, (f, _) in enumerate(case["axes"]) if [g for g, _ in case["axes"]].index(f) == n]
  any_split = any(rng_split(split, s) for s in STREAMS)
  give = case["length"] or bool(axes) or any_split
  kw = dict(
      variable_axes={F.make(f): ax for f, ax in axes}, variable_broadcast=F.make(bcast), split_rngs=rng_filter(split),
      length=L if give else None, metadata_params={} if name is None else {nnx.PARTITION_NAME: name},
  )
  kw = P.lean(case, kw, variable_axes={}, variable_broadcast=None, split_rngs=None, length=None, metadata_params={})
  rec.tag(case["form"])
  rec.tag("no length", not give)

  def context():
    p, n, e = case["seeds"]
    return nnx.context(params=p, noise=n, extra=e, flags={"f": True} if case["flag"] else {})

  args, kwargs = (P.freeze(spec), jnp.float32(0.75)), {"scale": 2.0}

  # layers one by one
  keys, ctxdef = context().partition()
  splits = {k: jax.random.split(v, L) for k, v in keys.items() if rng_split(split, k)}
  singles = [
      Layer(*args, **kwargs, ctx=ctxdef.merge({k: splits[k][i] if k in splits else v for k, v in keys.items()})) for i in range(L)
  ]
  refused = bool(uses_split(spec, split, axes, bcast)) and give

  def construct():
    if case["form"] == "Scan":
      return nnx.Scan(Layer, **kw)(*args, **kwargs, ctx=context())
    if case["form"] == "other":

      class Cls(nnx.Module):
        setup = nnx.scan(lambda self, *a, **k: fill(self, *a, k.pop("scale"), k.pop("ctx")), is_init=True, **kw)

        def __init__(self, *a, **k):
          self.setup(*a, **k)
    else:

      class Cls(nnx.Module):

        def __init__(self, spec, extra, *, scale=1.0, ctx=None):
          fill(self, spec, extra, scale, ctx)

        __init__ = nnx.scan(__init__, **kw)

    return Cls(*args, **kwargs, ctx=context())

  try:
    built = construct()
  except ValueError:
    assert refused, "construction refused"
    rec.tag("refused")
    return
  assert not refused, "state that differs between layers was accepted as shared"
  module = built.scan_module if case["form"] == "Scan" else built

  # ---- stacked values, shardings, everything else
  one = entries(singles[0])
  got = entries(module)
  assert set(got) == set(one), f"variables {sorted(got)} instead of {sorted(one)}"
  axis_rng = False
  want_sharding = {}
  for path, v in one.items():
    c = class_of(path, v, axes, bcast)
    assert type(got[path]) is type(v) or not isinstance(v, nnx.Node), f"{path}: {type(got[path])}"
    assert getattr(got[path], "note", None) == getattr(v, "note", None), f"{path}: metadata"
    vals = [entries(s)[path] for s in singles]
    raw = [x.value if isinstance(x, nnx.Node) else x for x in vals]
    have = got[path].value if isinstance(v, nnx.Node) else got[path]
    if isinstance(c, int):
      want = np.stack([np.asarray(x) for x in raw], axis=axes[c][1])
      axis_rng = axis_rng or any(not np.array_equal(np.asarray(x), np.asarray(raw[0])) for x in raw)
    else:
      want = np.asarray(raw[0])
    assert tuple(have.shape) == want.shape, f"{path}: shape {have.shape} instead of {want.shape}"
    np.testing.assert_allclose(np.asarray(have), want, rtol=TOL, atol=TOL, err_msg=path)
    if isinstance(v, nnx.Node):
      sh = getattr(v, "sharding", None)
      if sh is not None and isinstance(c, int) and name is not None:
        sh = with_name(sh, axes[c][1], name, raw[0].ndim)
        rec.tag("named")
      want_sharding[path] = sh
      assert getattr(got[path], "sharding", None) == sh, f"{path}: sharding {got[path].sharding} instead of {sh}"
  assert statics(module).items() >= statics(singles[0]).items(), "static attributes"
  assert shape_of_graph(module) == shape_of_graph(singles[0]), "modules and sharing"
  rec.nt(L >= 2 and axis_rng)
  rec.tag("random layers", axis_rng)

  # ---- applications
  inner = {p: getattr(v, "sharding", None) for p, v in containers(singles[0])}
  make = case["make"] and any(F.match(f, "made", ["var", "Variable", None, []]) for f, _ in axes)
  for n in range(case["applies"]):
    LOG.clear()
    step = built if case["form"] == "Scan" else nnx.scan(lambda m, x, e, b=None, *, ctx=None: apply(m, x, e), **kw)
    xs = jnp.ones((L,)) if make else None
    first = jnp.float32(0.5)
    def go(m, x):
      if case["form"] == "Scan":
        if give or xs is not None:
          return m(x, xs)
        return nnx.scan(lambda m, x, e: apply(m, x, e), **{**kw, "length": L})(m.scan_module, x, xs)
      if not give:
        return nnx.scan(lambda m, x, e: apply(m, x, e), **{**kw, "length": L})(m, x, xs)
      return step(m, x, xs)

    (nnx.jit(go) if case["jit"] else go)(built, first)
    assert LOG, "the layer did not run"
    for seen in LOG:
      for p, s in inner.items():
        assert name is None or p not in seen or name not in (seen[p] or ()), f"{p}: the layer saw sharding {seen[p]}"
        assert stripped(seen[p]) == stripped(s), f"{p}: the layer saw sharding {seen[p]} instead of {s}"
      if "made" in seen:
        assert stripped(seen["made"]) == ("p", "q"), f"made: the layer saw {seen['made']}"
    got = entries(module)
    for p, s in want_sharding.items():
      assert getattr(got[p], "sharding", None) == s, f"{p}: sharding {got[p].sharding} instead of {s} after application {n}"
    if make:
      c = class_of("made", got["made"], axes, bcast)
      want = ("p", "q") if name is None else with_name(("p", "q"), axes[c][1], name, 2)
      assert got["made"].sharding == want, f"made: {got['made'].sharding} instead of {want}"
      rec.tag("created in the loop")
    for path, v in one.items():
      if path != "stat" and isinstance(class_of(path, v, axes, bcast), int):
        raw = [entries(s)[path] for s in singles]
        raw = [x.value if isinstance(x, nnx.Node) else x for x in raw]
        have = got[path].value if isinstance(v, nnx.Node) else got[path]
        want = np.stack([np.asarray(x) for x in raw], axis=axes[class_of(path, v, axes, bcast)][1])
        np.testing.assert_allclose(np.asarray(have), want, rtol=TOL, atol=TOL, err_msg=path)
  rec.tag("applied", case["applies"] > 0)


# ------------------------------------------------------------------ names alone


@st.composite
def name_cases(draw):
  n = draw(st.integers(0, 4))
  full = draw(st.lists(st.sampled_from(["a", "b", "c", None]), min_size=n, max_size=n))
  short = draw(st.integers(0, n))
  neg = draw(st.booleans())
  return {
      "ndim": n, "sharding": full if neg else full[:short], "axes": draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)),
      "neg": neg, "name": draw(st.sampled_from(["layers", "x"])), "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)),
      "plain": draw(st.booleans()),
  }


def run_names(case, rec):
  """Stacked dimensions named one inside the other, then taken off again in the opposite order."""
  m = Layer([], None)
  for i, k in enumerate(case["kinds"]):
    setattr(m, f"v{i}", kind(k)(jnp.zeros((2,) * case["ndim"]), sharding=tuple(case["sharding"])))
  if case["plain"]:
    m.plain = nnx.Param(jnp.zeros(2))
    m.none = nnx.Param(jnp.zeros(2), sharding=None)
    m.node = nnx.Node(jnp.zeros(2))  # has no sharding at all
    m.noted = nnx.Node(jnp.zeros(2), note="n")
    m.split = nnx.Node(jnp.zeros((2,) * case["ndim"]), sharding=tuple(case["sharding"]))
  state = m.get_state()
  want, history = tuple(case["sharding"]), []
  for n, a in enumerate(case["axes"]):
    ndim = case["ndim"] + n
    axis = a % (ndim + 1)
    if case["neg"]:
      axis -= ndim + 1
    elif axis > len(want):
      want = want + (None,) * (axis - len(want))
    params = {nnx.PARTITION_NAME: case["name"] + str(n), "other": 1}
    history.append((state, want, axis, params))
    state = nnx.spmd.add_axis(state, axis, params)
    want = with_name(want, axis, case["name"] + str(n), ndim)
    check_state(state, want, case)
  rec.nt(len(set(want)) > 1)
  rec.tag("negative axis", case["neg"])
  for before, want, axis, params in reversed(history):
    state = nnx.spmd.remove_axis(state, axis, params)
    check_state(state, want, case, removed=True)  # None may have been appended to reach the axis
  check_state(history[0][0], case["sharding"], case)


def check_state(state, want, case, removed=False):
  flat = dict(state.items())
  for i, k in enumerate(case["kinds"]):
    c = flat[f"v{i}"]
    assert type(c) is kind(k)
    have, expect = (stripped(c.sharding), stripped(want)) if removed else (tuple(c.sharding), tuple(want))
    assert have == expect, f"{c.sharding} instead of {want}"
  if case["plain"]:
    assert not hasattr(flat["plain"], "sharding") or flat["plain"].sharding is None
    assert flat["none"].sharding is None
    assert type(flat["node"]) is type(flat["noted"]) is nnx.Node and getattr(flat["node"], "sharding", None) is None
    assert flat["noted"].note == "n" and getattr(flat["noted"], "sharding", None) is None
    have, expect = (stripped(flat["split"].sharding), stripped(want)) if removed else (tuple(flat["split"].sharding), tuple(want))
    assert have == expect, f"split: {flat['split'].sharding} instead of {want}"


# ------------------------------------------------------------------ stacks of stacks


@st.composite
def stack_cases(draw):
  level = st.fixed_dictionaries({
      "L": st.integers(1, 3), "ax": st.sampled_from([0, 0, 1, -1]), "name": st.sampled_from([None, "layers", "blocks", "stages"]),
      "split": st.booleans(), "form": st.sampled_from(["Scan", "init"]), "reverse": st.booleans(),
  })
  return {
      "levels": draw(st.lists(level, min_size=1, max_size=3)), "ctx": draw(st.integers(0, 9)), "calls": draw(st.integers(1, 2)),
      "wrap": draw(st.sampled_from([None, "jit", "grad"])), "between": draw(st.sampled_from([None, "clone", "split"])),
  }


class Cell(nnx.Module):
  def __init__(self, *, ctx):
    self.w = nnx.Param(jax.random.normal(ctx.make_rng("params"), (3,)), sharding=("f",))
    self.u = nnx.Param(jax.random.normal(ctx.make_rng("other"), (3,)))
    self.n = nnx.BatchStat(jnp.zeros(3), sharding=("f",))

  def __call__(self, x, _=None):
    LOG.append(("cell", vars(self)["w"].sharding, self.w.shape, vars(self)["n"].sharding))
    x = jnp.tanh(x * self.w + self.u * 0.5 + self.n * 0.1)
    self.n = self.n * 0.5 + x
    return x, None


class Stack(nnx.Module):
  """One level: a Scan of what is below it."""

  def __init__(self, levels, *, ctx):
    self.depth = len(levels)
    self.layers = level_scan(levels)(ctx=ctx)

  def __call__(self, x, _=None):
    inner = self.layers.scan_module if isinstance(self.layers, nnx.Scan) else self.layers
    LOG.append((self.depth, [(p, v.sharding, v.value.shape) for p, v in inner.filter(nnx.Param).items()]))
    return self.layers(x, None)[0], None


def level_scan(levels):
  lv, rest = levels[0], levels[1:]
  below = (lambda *, ctx: Stack(rest, ctx=ctx)) if rest else Cell
  kw = dict(variable_axes={nnx.Param: lv["ax"]}, length=lv["L"], split_rngs=["params"] if lv["split"] else None, reverse=lv["reverse"])
  if lv["name"]:
    kw["metadata_params"] = {nnx.PARTITION_NAME: lv["name"]}
  if lv["form"] == "Scan":
    return nnx.Scan(below, **kw)

  class Held(nnx.Module):
    def __init__(self, *, ctx):
      self.scan_module = below(ctx=ctx)

    def __call__(self, x, _=None):
      return self.scan_module(x, _)

    __init__ = nnx.scan(__init__, **kw)
    __call__ = nnx.scan(__call__, **kw)

  return Held


def cells(levels, ctx):
  """The parameters that loops of single cells hold, stacked."""
  if not levels:
    return {"w": jax.random.normal(ctx.make_rng("params"), (3,)), "u": jax.random.normal(ctx.make_rng("other"), (3,))}
  lv = levels[0]
  keys, ctxdef = ctx.partition()
  split = jax.random.split(keys["params"], lv["L"]) if lv["split"] else [keys["params"]] * lv["L"]
  each = [cells(levels[1:], ctxdef.merge({**keys, "params": split[i]})) for i in range(lv["L"])]
  return {k: jnp.stack([e[k] for e in each], axis=lv["ax"]) for k in "wu"}


def loop(levels, params, n, x):
  if not levels:
    x = jnp.tanh(x * params["w"] + params["u"] * 0.5 + n * 0.1)
    return x, n * 0.5 + x
  lv = levels[0]
  for i in list(range(lv["L"]))[::-1] if lv["reverse"] else range(lv["L"]):
    x, n = loop(levels[1:], {k: jnp.take(v, i, axis=lv["ax"]) for k, v in params.items()}, n, x)
  return x, n


def names_of(levels):
  """sharding of w, from the cell outwards"""
  names, rank = ("f",), 1
  for lv in levels[::-1]:
    rank += 1
    if lv["name"]:
      ax = lv["ax"] % rank
      names = names[:ax] + (lv["name"],) + names[ax:]
  return names


def run_stacks(case, rec):
  """Scans of scans: every level adds its dimension and its name, and takes both away inside."""
  levels = case["levels"]
  named = [bool(lv["name"]) for lv in levels]
  if any(named) and not all(named):  # a name for some dimensions only says nothing about the position of the others
    for lv in levels:
      lv["name"] = lv["name"] or "layers"
  rec.nt(len(levels) > 1)
  rec.tag("levels", len(levels))
  make = lambda: nnx.context(params=case["ctx"], other=case["ctx"] + 1)
  del LOG[:]
  module = Stack(levels, ctx=make())
  params = cells(levels, make())
  n, path = jnp.zeros(3), "layers/scan_module/" * len(levels)
  check_stack(module, path, params, n, levels)
  for k in range(case["calls"]):
    x = jnp.asarray([0.5, -1.0, 0.25]) * (k + 1)
    want, after = loop(levels, params, n, x)
    del LOG[:]
    if case["wrap"] == "grad":
      grads = nnx.grad(lambda m, x: m(x)[0].sum())(module, x)
      wg = jax.grad(lambda p: loop(levels, p, n, x)[0].sum())(params)
      assert sorted(grads) == [path + "u", path + "w"]
      for q in "uw":
        P.same_tree(grads[path + q].value, wg[q], TOL, f"gradient of {q}")
        assert grads[path + q].sharding == module.get_state()[path + q].sharding
    else:
      got, _ = (nnx.jit(lambda m, x: m(x)) if case["wrap"] else lambda m, x: m(x))(module, x)
      P.same_tree(got, want, TOL, f"output of call {k}")
    n = after
    for entry in LOG:
      if entry[0] == "cell":
        assert entry[1:] == (("f",), (3,), ("f",)), f"the cell saw {entry}"
      else:
        d = len(levels) - entry[0]
        for p, sharding, shape in entry[1]:
          assert sharding == (names_of(levels[d:]) if p.endswith("w") else None), f"level {d} saw {p} with {sharding}"
    assert LOG
    check_stack(module, path, params, n, levels)
    if case["between"] == "clone":
      module = module.clone()
    elif case["between"] == "split":
      module = module.partition(nnx.Param, ...).merge()


def check_stack(module, path, params, n, levels):
  state = module.get_state()
  assert sorted(state) == sorted(path + q for q in "nuw"), sorted(state)
  for q, v in (("n", n), ("u", params["u"]), ("w", params["w"])):
    P.same_tree(state[path + q].value, v, TOL, q)
  want = {"w": names_of(levels), "u": None, "n": ("f",)}
  for q in "wun":
    assert state[path + q].sharding == want[q], f"sharding of {q}: {state[path + q].sharding} instead of {want[q]}"


CHECKS = [
    Check("construct", cases, run, quick=500, thorough=10000),
    Check("stacks", stack_cases, run_stacks, quick=60, thorough=2500),
    Check("names", name_cases, run_names, quick=500, thorough=10000),
]
