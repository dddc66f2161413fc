"""C20 Sequence and Dict modules behave like their Python counterparts."""
import collections
import functools
import types

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: Dict modules built from a mapping, pairs, keywords or a mix, then up to 8 operations (item and attribute "
    "assignment, attribute deletion, split and merge, state update, passing through nnx.jit, nesting), observed after each "
    "through every mapping method and compared with a dict; Sequence modules over any iterable of callables with every "
    "signature (positional, keyword, context or not, nested sequences, functions, bound methods, partial objects, builtins) "
    "and output form (value, tuple, named tuple, dict, None), compared with a Python loop that records every call. "
    "Non-trivial: at least one operation after construction, or at least two elements called."
)

ASSUMPTIONS = [
    "keys of a Dict are not names of Module or Mapping attributes (they would shadow them)",
    "elements that take **kwargs without naming ctx, and negative Sequence indices, have no specified behaviour beyond raising or matching lists",
]

KEYS = ["a", "b", "w", "x2", "x10", "_p", "Z", "0", "with space"]
MISSING = ["zz", "c", "partition", "keys", "items", "get", "_module__state", "__class__", "init", "call", 3, None]


def value(v):
  """(real, what reading gives)"""
  t = v[0]
  if t == "py":
    x = tuple(v[1]) if isinstance(v[1], list) else v[1]
    return x, x
  if t == "arr":
    return jnp.asarray(V.arr("f", [2], v[1])), jnp.asarray(V.arr("f", [2], v[1]))
  if t == "var":
    x = jnp.asarray(V.arr("f", [2], v[2]))
    return V.KINDS[v[1]](x), x
  if t == "mod":
    m = V.ModA()
    m.q = v[1]
    return m, m
  m = nnx.Dict({k: value(x)[0] for k, x in v[1]})
  return m, m


VALUES = st.one_of(
    st.tuples(st.just("py"), st.sampled_from([0, 1, "s", None, [1, 2], 2.5])), st.tuples(st.just("arr"), st.integers(0, 9)),
    st.tuples(st.just("var"), st.sampled_from(["Param", "BatchStat", "Node", "CustomVar"]), st.integers(0, 9)),
    st.tuples(st.just("mod"), st.integers(0, 9)),
    st.tuples(st.just("dict"), st.lists(st.tuples(st.sampled_from(KEYS), st.tuples(st.just("arr"), st.integers(0, 9))), max_size=2, unique_by=lambda t: t[0])),
).map(lambda t: list(t))


@st.composite
def dict_cases(draw):
  keys = draw(st.lists(st.sampled_from(KEYS), max_size=5, unique=True))
  ops = []
  for _ in range(draw(st.integers(0, 8))):
    t = draw(st.sampled_from(["item", "item", "attr", "del", "merge", "jit", "update", "updatem", "grow"]))
    if t in ("item", "attr"):
      ops.append([t, draw(st.sampled_from(KEYS)), draw(VALUES)])
    elif t == "del":
      ops.append([t, draw(st.sampled_from(KEYS))])
    else:
      ops.append([t, draw(st.integers(1, 3))])
  return {
      "items": [[k, draw(VALUES)] for k in keys], "how": draw(st.sampled_from(["mapping", "pairs", "iter", "kwargs", "mix", "proxy"])), "ops": ops,
  }


def same(a, b, what):
  if isinstance(b, nnx.Module):
    assert type(a) is type(b), f"{what}: {a!r} instead of {b!r}"
    return
  if isinstance(b, jax.Array):
    assert isinstance(a, jax.Array) and np.array_equal(np.asarray(a), np.asarray(b)), f"{what}: {a!r} instead of {b!r}"
  else:
    assert type(a) is type(b) and a == b, f"{what}: {a!r} instead of {b!r}"


def observe(d, model, order, what):
  assert len(d) == len(model), f"{what}: length {len(d)} instead of {len(model)}"
  for listed in (list(d), list(d.keys()), [k for k, _ in d.items()]):
    assert sorted(listed) == sorted(model), f"{what}: iteration gives {listed} instead of {list(model)}"
    assert not order or listed == list(model), f"{what}: order {listed} instead of {list(model)}"
  listed = list(d)
  for k, x in zip(listed, d.values()):
    same(x, model[k], f"{what}: values() for {k}")
  for k, x in d.items():
    same(x, model[k], f"{what}: items() for {k}")
  for k, x in model.items():
    same(d[k], x, f"{what}: [{k!r}]")
    same(getattr(d, k), x, f"{what}: .{k}")
    same(d.get(k), x, f"{what}: get({k!r})")
    assert k in d and k in d.keys(), f"{what}: {k!r} not in"
  assert bool(d) == bool(model), f"{what}: truth value"
  for k in MISSING:
    if k in model:
      continue
    assert k not in d, f"{what}: {k!r} in"
    assert d.get(k) is None and d.get(k, 7) == 7, f"{what}: get({k!r})"
    try:
      d[k]
    except KeyError:
      continue
    raise AssertionError(f"{what}: [{k!r}] did not raise")
  for k in ("zz", "nothing"):
    assert not hasattr(d, k), f"{what}: attribute {k}"
  copy = dict(d)
  assert sorted(copy) == sorted(model), f"{what}: dict(d)"
  assert {**d}.keys() == model.keys(), f"{what}: unpacking"


def run_dict(case, rec):
  pairs = [(k, *value(v)) for k, v in case["items"]]
  model = {k: m for k, _, m in pairs}
  conts = {k: v[1] for k, v in case["items"] if v[0] == "var"}
  real = {k: r for k, r, _ in pairs}
  how = case["how"]
  if how == "mapping":
    d = nnx.Dict(real)
  elif how == "pairs":
    d = nnx.Dict(list(real.items()))
  elif how == "iter":
    d = nnx.Dict((k, v) for k, v in real.items())
  elif how == "kwargs":
    d = nnx.Dict(**real)
  elif how == "proxy":
    d = nnx.Dict(types.MappingProxyType(real))
  else:
    n = len(real) // 2
    items = list(real.items())
    d = nnx.Dict(dict(items[:n]), **dict(items[n:]))
  rec.tag(how)
  order = True
  observe(d, model, order, "new")
  for i, op in enumerate(case["ops"]):
    what = f"after operation {i} {op[0]}"
    t = op[0]
    if t in ("item", "attr"):
      k = op[1]
      r, m = value(op[2])
      if k in conts:
        if isinstance(r, (nnx.Module, str)) or r is None or (isinstance(r, nnx.Node) and type(r) is not V.KINDS[conts[k]]):
          continue
      elif isinstance(r, nnx.Node):
        conts[k] = type(r).__name__
      if t == "item":
        d[k] = r
      else:
        setattr(d, k, r)
      model[k] = m
    elif t == "del":
      if op[1] not in model:
        continue
      delattr(d, op[1])
      del model[op[1]]
      conts.pop(op[1], None)
    elif t == "merge":
      states = d.partition(nnx.Param, ...) if op[1] == 2 else d.partition()
      if op[1] == 2:
        d = states[1].merge(*states[0])
      else:
        d = states[1].merge(states[0])
      order = False
    elif t == "jit":
      key = next((k for k in model if isinstance(model[k], jax.Array)), None)

      def f(d):
        assert len(d) == len(model) and sorted(d) == sorted(model), f"inside nnx.jit: {list(d)} instead of {list(model)}"
        if key is not None:
          d[key] = d[key] + 1
        return sum(jnp.sum(v) for v in d.values() if isinstance(v, jax.Array))

      nnx.jit(f)(d)
      if key is not None:
        model[key] = model[key] + 1
      # nodes come out of jit as arrays
      model.update({k: jax.tree_util.tree_map(jnp.asarray, model[k]) for k in conts})
    elif t == "update":
      state = d.get_state()
      d.update_state(jax.tree_util.tree_map(lambda x: x + op[1], state))
      for k, v in model.items():
        if k in conts or isinstance(v, jax.Array):
          model[k] = jax.tree_util.tree_map(lambda x: x + op[1], v)
    elif t == "updatem":
      name = f"new{op[1]}"
      if name in model:
        continue
      d.update_state(nnx.State({name: nnx.Param(jnp.ones(2) * op[1])}))
      model[name] = jnp.ones(2) * op[1]
      conts[name] = "Param"
    elif t == "grow":
      outer = nnx.Dict(inner=d)
      observe(outer, {"inner": d}, True, f"{what}: outer")
      assert outer["inner"] is d and outer.inner is d
    observe(d, model, order, what)
    rec.nt(True)
    rec.tag(t)


SLASH = {"a": "a/b", "w": "w/", "x2": "/x2", "Z": "a/b/c", "0": "0/1", "_p": "/"}


@st.composite
def slash_cases(draw):
  """Keys that look like paths. Node values below such a key cannot be split (see known_findings.txt)."""
  case = draw(dict_cases())
  if case["how"] == "kwargs" and draw(st.booleans()):
    case["how"] = "mix"
  split = any(op[0] not in ("item", "attr", "del") for op in case["ops"])

  def key(k):
    return SLASH.get(k, k)

  def plain(k, v):
    return ["py", 7] if split and k in SLASH and v[0] != "py" else v

  case["items"] = [[key(k), plain(k, v)] for k, v in case["items"]]
  case["ops"] = [[op[0], key(op[1]), *(plain(op[1], v) for v in op[2:])] if isinstance(op[1], str) else op for op in case["ops"]]
  return case


# ------------------------------------------------------------------ sequences: items


@st.composite
def item_cases(draw):
  return {"items": draw(st.lists(VALUES, max_size=6)), "how": draw(st.sampled_from(["list", "tuple", "gen", "map", "dictvalues"])), "merge": draw(st.integers(0, 2))}


def run_items(case, rec):
  pairs = [value(v) for v in case["items"]]
  real, model = [r for r, _ in pairs], [m for _, m in pairs]
  it = {"list": lambda: real, "tuple": lambda: tuple(real), "gen": lambda: (x for x in real), "map": lambda: map(lambda x: x, real),
        "dictvalues": lambda: dict(enumerate(real)).values()}[case["how"]]()
  s = nnx.Sequence(it)
  rec.nt(len(model) > 1)
  for n in range(case["merge"] + 1):
    what = f"after {n} merges"
    assert len(s) == len(model), f"{what}: length {len(s)} instead of {len(model)}"
    got = list(s)
    assert len(got) == len(model), what
    for i, m in enumerate(model):
      same(got[i], m, f"{what}: item {i} of the iteration")
      same(s[i], m, f"{what}: [{i}]")
      if n == 0 and isinstance(m, nnx.Module):
        assert got[i] is m and s[i] is m
    for i in (len(model), len(model) + 1, 100):
      try:
        s[i]
      except IndexError:
        continue
      raise AssertionError(f"{what}: [{i}] did not raise")
    for i in (-1, -len(model), -len(model) - 1):
      try:
        x = s[i]
      except Exception:
        continue
      assert -len(model) <= i < 0, f"{what}: [{i}] did not raise"
      same(x, model[i], f"{what}: [{i}]")
    assert bool(s) == bool(model), "truth value"
    state, d = s.partition()
    s = d.merge(state)


# ------------------------------------------------------------------ sequences: calls

OUTS = ["x", "x", "tuple2", "tuple1", "tuple0", "named", "dict", "dictb", "none", "cached", "list"]
FORMS = ["fn", "fn", "fnctx", "fnctx", "module", "modulectx", "bound", "boundctx", "partial", "builtin", "ufunc", "ctxpos", "fnown", "lambda", "partialctx"]


def element_specs(depth=0):
  one = st.tuples(st.sampled_from(FORMS), st.sampled_from(OUTS), st.integers(1, 3)).map(list)
  if depth == 0:
    return st.one_of(one, one, one, st.lists(one, min_size=1, max_size=3).map(lambda x: ["seq", x]))
  return one


@st.composite
def call_cases(draw):
  return {
      "elements": draw(st.lists(element_specs(), min_size=1, max_size=5)), "ctx": draw(st.booleans()),
      "args": draw(st.integers(0, 2)), "kwargs": draw(st.sampled_from([[], [], ["k"], ["k", "b"]])),
      "merge": draw(st.booleans()), "bad": draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 4))), "times": draw(st.integers(1, 2)),
  }


LOG = []


def out_of(kind, total, cached):
  if kind == "x" or kind == "list":
    return total if kind == "x" else [total]
  if kind == "tuple2":
    return total, 1
  if kind == "tuple1":
    return (total,)
  if kind == "tuple0":
    return ()
  if kind == "named":
    return PAIR(total, 2)
  if kind == "dict":
    return {"k": total}
  if kind == "dictb":
    return {"k": total, "b": 3}
  if kind == "cached":
    cached["k"] = 5
    return cached
  return None


PAIR = collections.namedtuple("PAIR", ["p", "q"])


def total(args, k, b):
  def num(a):
    return a[0] if isinstance(a, list) else 0 if a is None else a

  return sum(num(a) for a in args) + num(k) * 2 + num(b) * 5


class Elem(nnx.Module):

  def __init__(self, name, out, add, cached):
    self.name, self.out, self.add = name, out, add
    self.cached_id = id(cached)

  def __call__(self, *args, k=0, b=0):
    LOG.append((self.name, args, k, b, None))
    return out_of(self.out, total(args, k, b) + self.add, CACHES[self.cached_id])

  def meth(self, *args, k=0, b=0):
    return Elem.__call__(self, *args, k=k, b=b)


class ElemCtx(Elem):

  def __call__(self, *args, k=0, b=0, ctx=None):
    LOG.append((self.name, args, k, b, ctx))
    return out_of(self.out, total(args, k, b) + self.add, CACHES[self.cached_id])

  def meth(self, *args, k=0, b=0, ctx=None):
    return ElemCtx.__call__(self, *args, k=k, b=b, ctx=ctx)


CACHES = {}


def make_element(spec, name, caches):
  if spec[0] == "seq":
    return nnx.Sequence([make_element(s, f"{name}.{i}", caches) for i, s in enumerate(spec[1])])
  form, out, add = spec
  cached = {}
  CACHES[id(cached)] = cached
  caches[name] = cached

  def fn(*args, k=0, b=0):
    LOG.append((name, args, k, b, None))
    return out_of(out, total(args, k, b) + add, cached)

  def fnctx(*args, k=0, b=0, ctx=None):
    LOG.append((name, args, k, b, ctx))
    return out_of(out, total(args, k, b) + add, cached)

  def fnown(*args, k=0, b=0, ctx="own"):
    return fnctx(*args, k=k, b=b, ctx=ctx)

  def ctxpos(x=0, y=0, ctx=None, k=0, b=0):
    LOG.append((name, (x, y), k, b, ctx))
    return out_of(out, total((x, y), k, b) + add, cached)

  def three(extra, *args, k=0, b=0):
    return fn(*args, k=k, b=b)

  def threectx(extra, *args, k=0, b=0, ctx=None):
    return fnctx(*args, k=k, b=b, ctx=ctx)

  if form in ("fn", "fnctx", "ctxpos", "fnown"):
    return {"fn": fn, "fnctx": fnctx, "ctxpos": ctxpos, "fnown": fnown}[form]
  if form == "lambda":
    return lambda *args, k=0, b=0: fn(*args, k=k, b=b)
  if form == "partial":
    return functools.partial(three, 1)
  if form == "partialctx":
    return functools.partial(threectx, 1)
  if form == "builtin":
    return type
  if form == "ufunc":
    return UFUNC
  m = (ElemCtx if form.endswith("ctx") else Elem)(name, out, add, cached)
  return m.meth if form.startswith("bound") else m


# a builtin and a ufunc have no signature to inspect
UFUNC = np.negative


def reference(spec, name, caches, args, kwargs, ctx, log):
  """Calls one element the way the property says."""
  if spec[0] == "seq":
    return compose(spec[1], name, caches, args, kwargs, ctx, log)
  form, out, add = spec
  if form == "builtin":
    return type(*args, **kwargs)
  if form == "ufunc":
    return np.negative(*args, **kwargs)
  k, b = kwargs.get("k", 0), kwargs.get("b", 0)
  takes = form in ("fnctx", "fnown", "modulectx", "boundctx", "ctxpos", "partialctx")
  if form == "ctxpos":
    if len(args) > 2 or set(kwargs) - {"k", "b"}:
      raise TypeError
    args = tuple(args) + (0,) * (2 - len(args))
  elif set(kwargs) - {"k", "b"}:
    raise TypeError
  if form == "fnown" and ctx is None:
    ctx = "own"
  log.append((name, tuple(args), k, b, ctx if takes else None))
  return out_of(out, total(args, k, b) + add, caches[name])


def compose(specs, name, caches, args, kwargs, ctx, log):
  out = None
  for i, s in enumerate(specs):
    if i > 0:
      if isinstance(out, tuple):
        args, kwargs = tuple(out), {}
      elif isinstance(out, dict):
        args, kwargs = (), dict(out)
      else:
        args, kwargs = (out,), {}
    out = reference(s, f"{name}.{i}" if name else str(i), caches, args, kwargs, ctx, log)
  return out


def fill_caches(specs, name, caches):
  for i, s in enumerate(specs):
    n = f"{name}.{i}" if name else str(i)
    if s[0] == "seq":
      fill_caches(s[1], n, caches)
    else:
      caches[n] = {}


def run_calls(case, rec):
  specs = case["elements"]
  caches = {}
  elements = [make_element(s, str(i), caches) for i, s in enumerate(specs)]
  bad = case["bad"]
  if bad is not None and bad < len(elements):
    elements[bad] = 7
  s = nnx.Sequence(elements)
  if case["merge"]:
    state, d = s.partition()
    s = d.merge(state)
  ctx = nnx.context(params=0, flags={"train": True}) if case["ctx"] else None
  args = (1, 2)[:case["args"]]
  kwargs = {k: 4 for k in case["kwargs"]}
  ref_caches = {}
  fill_caches(specs, "", ref_caches)
  rec.nt(len(specs) > 1)
  rec.tag("context", case["ctx"])
  for _ in range(case["times"]):
    log = []
    LOG.clear()
    if bad is not None and bad < len(specs):
      try:
        compose(specs[:bad], "", ref_caches, args, kwargs, ctx, log)
      except TypeError:
        return
      try:
        s(*args, **kwargs, **({"ctx": ctx} if ctx is not None else {}))
      except TypeError:
        assert LOG == log, "elements before the one that is not callable"
        return
      raise AssertionError("an element that is not callable was accepted")
    try:
      want = compose(specs, "", ref_caches, args, kwargs, ctx, log)
    except TypeError:
      want = TypeError
    try:
      got = s(*args, **kwargs, **({"ctx": ctx} if ctx is not None else {}))
    except TypeError:
      assert want is TypeError, "the call was refused"
      rec.tag("refused")
      return
    assert want is not TypeError, f"the call was accepted: {got}"
    assert [(n, a, k, b) for n, a, k, b, _ in LOG] == [(n, a, k, b) for n, a, k, b, _ in log], f"calls {LOG} instead of {log}"
    for x, y in zip(LOG, log):
      assert x[4] is y[4], f"element {x[0]}: context {x[4]} instead of {y[4]}"
    assert got == want and type(got) is type(want), f"output {got!r} instead of {want!r}"
    for n in caches:
      assert caches[n] == ref_caches[n], f"the output of element {n} was changed: {caches[n]}"


# ------------------------------------------------------------------ far more elements than above


@st.composite
def large_cases(draw):
  return {
      "n": draw(st.sampled_from([11, 12, 20, 64, 101, 130, 260])), "seed": draw(st.integers(0, 50)), "how": draw(st.sampled_from(["mapping", "pairs", "iter", "proxy", "mix"])),
      "ops": draw(st.lists(st.tuples(st.sampled_from(["item", "attr", "del", "merge", "grow", "update"]), st.integers(0, 300)).map(list), max_size=4)),
      "ctx": draw(st.booleans()), "through": draw(st.sampled_from(["plain", "merge", "jit", "clone"])),
  }


def run_large(case, rec):
  n, k = case["n"] if case["through"] != "jit" else min(case["n"], 24), case["seed"]  # compiling takes long
  rec.nt(True)
  vals = [["py", 1], ["arr", 3], ["var", "Param", 4], ["var", "BatchStat", 5], ["mod", 2], ["py", "s"]]
  items = [[f"k{i}", vals[(i * 7 + k) % len(vals)]] for i in range(n)]
  ops = [
      [t, f"k{j % (n + 3)}", ["arr", j % 9]] if t in ("item", "attr") else [t, f"k{j % n}"] if t == "del" else [t, 1 + j % 3] for t, j in case["ops"]
  ]
  run_dict({"items": items, "how": case["how"], "ops": ops}, rec)

  # a sequence is called, measured, indexed and sliced like a list
  class Add(nnx.Module):
    def __init__(self, i):
      self.w = nnx.Param(jnp.float32(i))

    def __call__(self, x, *, ctx=None):
      return x * 0.5 + self.w

  class Draw(Add):
    def __call__(self, x, *, ctx):
      return x * 0.5 + self.w + jax.random.randint(ctx.make_rng("noise"), (), 0, 8)

  elements = [Draw(i % 5) if case["ctx"] and (i + k) % 4 == 0 else Add(i % 7) if (i + k) % 3 else (lambda x: x + 1) for i in range(n)]
  seq = nnx.Sequence(list(elements))
  if case["through"] == "merge":
    seq = seq.partition().merge()
  elif case["through"] == "clone":
    seq = seq.clone()
  assert len(seq) == n and len(list(seq)) == n, f"{len(seq)} and {len(list(seq))} elements instead of {n}"
  for i in (0, 1, 9, 10, 11, n // 2, n - 1):
    if i < n:
      assert type(seq[i]) is type(elements[i]), f"element {i}"
      assert not isinstance(elements[i], Add) or float(seq[i].w) == float(elements[i].w), f"element {i}"
  for a, b in zip(seq, elements):
    assert type(a) is type(b) and (not isinstance(b, Add) or float(a.w) == float(b.w)), "elements in another order"
  make = lambda: nnx.context(noise=k)
  x = jnp.float32(k)
  call = nnx.jit(lambda m, x, ctx=None: m(x, ctx=ctx)) if case["through"] == "jit" else lambda m, x, ctx=None: m(x, ctx=ctx)
  got = call(seq, x, ctx=make()) if case["ctx"] else call(seq, x)
  ctx = make()
  if case["through"] == "jit":
    ctx = ctx.partition().merge()
  want = x
  for f in elements:
    want = f(want, ctx=ctx) if isinstance(f, Draw) else f(want)
  assert np.allclose(float(got), float(want), rtol=1e-5), f"output {got} instead of {want}"


CHECKS = [
    Check("dict", dict_cases, run_dict, quick=500, thorough=10000),
    Check("slash", slash_cases, run_dict, quick=150, thorough=3000),
    Check("items", item_cases, run_items, quick=300, thorough=5000),
    Check("calls", call_cases, run_calls, quick=1500, thorough=40000),
    Check("large", large_cases, run_large, quick=32, thorough=400),
]
