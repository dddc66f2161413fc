"""C13 nnx.scan over layers equals the unrolled Python loop."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import filters as F
from vlib import graphs as G
from vlib import nest as N
from vlib import programs as P
from vlib.driver import Check

RULE = (
    "Cases: a layer program (submodules, sharing, cycles; updating, creating and recording state), a classification of "
    "its state into axis variables (one to three filters, axes 0, 1, -1, -2), broadcast and carry variables, a length, "
    "reverse, unroll, in_axes and out_axes over argument and output trees, extra broadcast arguments, a context with a "
    "split filter, the decorator or the Scan class, inside or outside nnx.jit, applied once or twice. Oracle: the same "
    "program in a Python loop over slices of a plain reference model. Also layers that create carried, shared and "
    "per-step variables in the first step and use them in the later ones; arguments, outputs and up to 8 axis variables of "
    "ranks 1 to 6 and six dtypes, each with its own axis (exact); and keys of up to 700 steps. Also nnx.scan around trees of up to three transforms (jit, grad, remat, scan, in sequence, repeated, shared; creating state, drawing random numbers), against plain jax and loops. "
    "Non-trivial: length at least 2 and there are axis "
    "variables, carried changes, or stacked outputs."
)

ASSUMPTIONS = [
    "broadcast variables are shared: loop bodies read them and may create missing ones, but do not modify existing ones",
    "a loop of no steps that would create variables in its first one may be refused",
    "split streams are jax.random.split of the context's split key, one per step",
]

TOL = 3e-5

FILTERS = [
    ["type", "Param"], ["type", "BatchStat"], ["type", "Cache"], ["type", "Intermediate"], ["type", "Node"],
    ["type", "CustomVar"], ["buffers"], ["path", "a"], ["path", "v1"], ["path", "m"],
    ["tuple", [["type", "Cache"], ["type", "BatchStat"]]], ["All", [["type", "Param"], ["path", "w"]]],
    ["tuple", [["type", "Param"], ["type", "Intermediate"]]], ["tuple", [["buffers"], ["type", "Cache"]]],
]
RNG_FILTERS = [None, "all", "params", "noise", ["noise"], ["params", "noise"], {"params": True, "noise": False}, "fn", {"noise": True, ...: False}]


class S(P.P):
  """A layer for the Scan class called directly."""

  def __call__(self, x, e, b=None, *, k=1.0, ctx=None):
    return scan_step(P.LIVE, self, self.prog, x, e, b, k, ctx)

  def step(self, x, e, b=None, *, k=1.0, ctx=None):
    return scan_step(P.LIVE, self, self.prog, x, e, b, k, ctx)


class PS(P.P):
  def step(self, x, e, b=None, *, k=1.0, ctx=None):
    return scan_step(P.LIVE, self, self.prog, x, e, b, k, ctx)


P.CLASSES["S"] = S
P.CLASSES["PS"] = PS
P.CLASSES["PS2"] = type("PS2", (PS,), {})


def scan_step(env, m, prog, x, e, b, k, ctx):
  for leaf in jax.tree_util.tree_leaves(e):
    x = x + 0.5 * leaf.reshape(-1)[:2]
  if b is not None:
    x = x * b["s"] + b["t"][0] * k
  y = interp(env, m, prog, x, ctx)
  return y, outputs(y)


def outputs(y):
  return (y * 2, {"o": jnp.outer(y, jnp.ones(3)), "n": None})


def interp(env, m, prog, x, ctx):
  return P.interp(env, m, prog, x, ctx)


@st.composite
def cases(draw):
  spec = draw(P.programs(max_mods=3, max_ops=4, containers=False))
  cls = draw(st.sampled_from(["dec", "dec", "dec", "Scan", "Scan"]))
  if cls == "Scan":
    spec["mods"][0]["cls"] = draw(st.sampled_from(["S", "PS"]))
  n_axes = draw(st.sampled_from([0, 1, 1, 1, 2, 3]))
  axes = draw(st.lists(st.tuples(st.sampled_from(FILTERS), st.sampled_from([0, 0, 1, -1, -2])).map(list), min_size=n_axes, max_size=n_axes))
  bcast = draw(st.sampled_from([["none"], ["none"], *FILTERS]))
  fix_ops(spec, axes, bcast)
  length = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.sampled_from([1, 2, 3, 4, 11])))
  in_tree = draw(st.sampled_from(["array", "tuple", "dict", "none"]))
  return {
      "g": spec, "form": cls, "axes": axes, "bcast": bcast, "L": length,
      "give": draw(st.booleans()), "reverse": draw(st.booleans()), "unroll": draw(st.sampled_from([1, 1, 2, 3, 7])),
      "in": in_tree, "in_axes": [draw(st.sampled_from([0, 0, 1, -1, -2])) for _ in range(2)],
      "in_prefix": draw(st.booleans()), "out_prefix": draw(st.integers(0, 2)),
      "out_axes": [draw(st.sampled_from([0, 0, 1, -1])) for _ in range(2)],
      "b": draw(st.booleans()), "k": draw(st.sampled_from([None, 0.5])), "ctx": draw(st.booleans()),
      "split": draw(st.integers(0, len(RNG_FILTERS) - 1)), "jit": draw(st.sampled_from([False, False, True])),
      "applies": draw(st.sampled_from([1, 1, 2])), "seed": draw(st.integers(0, 9)),
  }


def classify(path, a, axes, bcast):
  """Index of the axis filter, 'b' or 'c' for the entry."""
  spec = ["val", ["j"]] if a[0] == "arr" else ["var", a[1], None, []]
  for n, (f, _) in enumerate(axes):
    if F.match(f, path, spec):
      return n
  return "b" if F.match(bcast, path, spec) else "c"


def entry_paths(model):
  """(module index, name) -> path for existing entries, and module index -> first path."""
  firsts = {}

  def walk(i, path):
    if i in firsts:
      return
    firsts[i] = path
    for name in sorted(model[i]["attrs"]):
      a = model[i]["attrs"][name]
      if a[0] == "mod":
        walk(a[1], path + (name,))

  walk(0, ())
  return firsts


def fix_ops(spec, axes, bcast):
  """Replaces the operations whose result a Python loop with shared broadcast variables could not mean."""
  model = P.model_of(spec)
  firsts = entry_paths(model)
  for i, m in enumerate(spec["mods"]):
    prog = []
    for op in m["prog"]:
      t = op[0]
      if t in ("set", "put", "new", "newarr", "sow"):
        j = P.Ref(model).follow(i, op[1])
        name = op[2]
        kind = {"new": P.NEW, "sow": P.SOWN}.get(t, {}).get(name)
        a = model[j]["attrs"].get(name) if t in ("set", "put") else (("var", kind) if kind else ("arr",))
        c = classify("/".join(firsts[j] + (name,)), a, axes, bcast)
        if c == "b":
          if t in ("set", "put"):
            op = ["mul", op[1], name]
          elif t == "new":
            op = ["once", op[1], name]
          else:
            continue
        elif t == "sow" and c == "c":
          continue
      prog.append(op)
    m["prog"] = prog


def rng_filter(k):
  f = RNG_FILTERS[k]
  if f == "all":
    return ...
  if f == "fn":
    return lambda name: name != "params"
  return f


def rng_split(k, name):
  f = RNG_FILTERS[k]
  if f is None:
    return False
  if f == "all":
    return True
  if f == "fn":
    return name != "params"
  if isinstance(f, str):
    return f == name
  if isinstance(f, dict):
    return f.get(name, False)
  return name in f


def value_of(a):
  return a[3] if a[0] == "var" else a[1]


def with_value(a, v):
  return ("var", a[1], a[2], v) if a[0] == "var" else ("arr", v)


def tmap(f, *xs):
  return jax.tree_util.tree_map(f, *xs)


def slice_model(model, axes, bcast, i):
  out = P.copy_model(model)
  for path, (a, j, name) in P.model_state(model).items():
    c = classify(path, a, axes, bcast)
    if isinstance(c, int):
      out[j]["attrs"][name] = with_value(a, tmap(lambda x: jnp.take(x, i, axis=axes[c][1]), value_of(a)))
  return out


def reference(case, model, x, xs, b, k, ctx):
  """Python loop. Returns (carry, outs, model afterwards)."""
  axes, bcast, L = case["axes"], case["bcast"], case["L"]
  keys = ctxdef = None
  if ctx is not None:
    keys, ctxdef = ctx.partition()
    split = {n: jax.random.split(key, L) for n, key in keys.items() if rng_split(case["split"], n)}
  order = range(L)[::-1] if case["reverse"] else range(L)
  cur = model
  slices, outs = [None] * L, [None] * L
  for i in order:
    # the layer: axis variables of step i, everything else as the last step left it
    step = slice_model(model, axes, bcast, i)
    for path, (a, j, name) in P.model_state(cur).items():
      if not isinstance(classify(path, a, axes, bcast), int):
        step[j]["attrs"][name] = a
    c = None
    if ctx is not None:
      c = ctxdef.merge({n: split[n][i] if n in split else key for n, key in keys.items()})
    e = [v[i] for v in xs]
    env = P.Ref(step)
    prog = step[0]["attrs"]["prog"][1]
    x, out = scan_step(env, 0, prog, x, e, b, k, c)
    slices[i], outs[i] = step, out
    cur = step
  after = P.copy_model(cur)
  for path, (a, j, name) in P.model_state(cur).items():
    cl = classify(path, a, axes, bcast)
    if isinstance(cl, int):
      vals = [value_of(s[j]["attrs"][name]) for s in slices]
      after[j]["attrs"][name] = with_value(a, tmap(lambda *v: jnp.stack(v, axis=axes[cl][1]), *vals))
  return x, outs, after


DEFAULTS = dict(variable_axes={}, variable_broadcast=None, split_rngs=None, in_axes=0, out_axes=0, reverse=False, unroll=1)


def run(case, rec):
  spec, axes, bcast, L = case["g"], case["axes"], case["bcast"], case["L"]
  model = P.model_of(spec)
  rec.tag(case["form"])
  kw = {
      "variable_axes": {F.make(f): ax for f, ax in axes}, "variable_broadcast": F.make(bcast),
      "split_rngs": rng_filter(case["split"]), "reverse": case["reverse"], "unroll": case["unroll"],
  }
  if len(kw["variable_axes"]) < len(axes):  # the same filter twice: a mapping keeps one axis for it
    axes = case["axes"] = [[f, dict((str(g), ax2) for g, ax2 in axes)[str(f)]] for f, _ in axes]
  has_axis = any(isinstance(classify(p, e[0], axes, bcast), int) for p, e in P.model_state(model).items())

  # arguments of the loop, per layer and stacked
  per = [[jnp.asarray(P.base(case["seed"] + 3 * i + n)).reshape(2, 1) * jnp.ones((2, 3)) for i in range(L)] for n in range(2)]
  stacked = [jnp.stack(p, axis=ax) for p, ax in zip(per, case["in_axes"])]
  if case["in"] == "none":
    xs, used, in_axes = None, [], case["in_axes"][0]
  elif case["in"] == "array":
    xs, used, in_axes = stacked[0], per[:1], case["in_axes"][0]
  elif case["in_prefix"]:
    stacked = [jnp.stack(p, axis=case["in_axes"][0]) for p in per]
    used, in_axes = per, case["in_axes"][0]
    xs = tuple(stacked) if case["in"] == "tuple" else {"p": stacked[0], "q": [stacked[1], None]}
  elif case["in"] == "tuple":
    xs, used, in_axes = tuple(stacked), per, tuple(case["in_axes"])
  else:
    xs, used, in_axes = {"p": stacked[0], "q": [stacked[1], None]}, per, {"p": case["in_axes"][0], "q": case["in_axes"][1]}
  oa = case["out_axes"]
  out_axes = [oa[0], (oa[0], oa[1]), (oa[0], {"o": oa[1], "n": oa[0]})][case["out_prefix"]]
  o_ax = [(oa[0], oa[0]), (oa[0], oa[1]), (oa[0], oa[1])][case["out_prefix"]]
  if case["out_prefix"] == 2:
    out_axes = (oa[0], {"o": oa[1], "n": None})
  infer = has_axis or case["in"] != "none"
  if case["give"] or not infer or case["form"] == "Scan":
    kw["length"] = L
  kw["in_axes"], kw["out_axes"] = in_axes, out_axes
  kw = P.lean(case, kw, **DEFAULTS)

  # the live module, its axis variables stacked
  if case["form"] == "Scan":
    holder = nnx.Scan(lambda: P.build(spec), **kw)()
    module = holder.scan_module
  else:
    holder = None
    module = P.build(spec)
  live = module.mutable_state_dict()
  for n, (path, (a, j, name)) in enumerate(P.model_state(model).items()):
    c = classify(path, a, axes, bcast)
    if isinstance(c, int):
      v = jnp.stack([jnp.asarray(P.base(case["seed"] + n + 2 * i)) for i in range(L)], axis=axes[c][1])
      model[j]["attrs"][name] = with_value(a, v)
      if case["form"] == "Scan":
        assert live[path].value.shape == v.shape
      live[path].value = v
    elif case["form"] == "Scan":
      P.same_tree(live[path].value, value_of(a), 0, f"{path} after construction")
  P.same_module(module, model, 0, "before")

  if case["form"] == "Scan":
    if spec["mods"][0]["cls"] == "S":
      call = lambda h, *a, **k: h(*a, **k)
    else:
      call = lambda h, *a, **k: h.call.step(*a, **k)
    target = holder
  else:
    prog = P.freeze(spec["mods"][0]["prog"])

    def layer(m, x, e, b=None, *, k=1.0, ctx=None):
      return scan_step(P.LIVE, m, prog, x, e, b, k, ctx)

    scanned = nnx.scan(layer, **kw)
    call = lambda m, *a, **k: scanned(m, *a, **k)
    target = module

  f = nnx.jit(lambda m, x, xs, b, ctx=None: apply_call(call, m, x, xs, b, case["k"], ctx)) if case["jit"] else (
      lambda m, x, xs, b, ctx=None: apply_call(call, m, x, xs, b, case["k"], ctx)
  )
  rec.tag("reverse", case["reverse"])
  rec.tag("jit", case["jit"])
  for n in range(case["applies"]):
    x = jnp.asarray(P.base(case["seed"] + n))
    b = {"s": jnp.float32(0.75), "t": [jnp.asarray(P.base(2))]} if case["b"] else None
    ckw, rctx = {}, None
    if case["ctx"]:
      streams = {"params": 1, "noise": n}
      if not P.uses_rng(spec) and (case["seed"] + n) % 2:
        streams = {}  # a context need not have streams
        rec.tag("ctx without streams")
      ckw["ctx"] = nnx.context(**streams, flags={"train": True})
      rctx = nnx.context(**streams, flags={"train": True})
      if case["jit"]:
        rctx = rctx.partition().merge()
    want_x, want_outs, after = reference(case, model, x, list(used), b, case["k"] or 1.0, rctx)
    got_x, got_out = f(target, x, xs, b, **ckw)
    P.same_tree(got_x, want_x, TOL, "carry")
    want_out = (
        jnp.stack([o[0] for o in want_outs], axis=o_ax[0]),
        {"o": jnp.stack([o[1]["o"] for o in want_outs], axis=o_ax[1]), "n": None},
    )
    P.same_tree(got_out, want_out, TOL, "stacked outputs")
    P.same_module(module, after, TOL, "module after the loop")
    created = len(P.model_state(after)) - len(P.model_state(model))
    rec.tag("creates state", created > 0)
    rec.tag("carried changes", any(
        classify(p, e[0], axes, bcast) == "c" and str(after[e[1]]["attrs"][e[2]]) != str(e[0])
        for p, e in P.model_state(model).items()))
    rec.tag("axis variables", has_axis)
    for p, (a, _, _) in P.model_state(after).items():
      if p not in P.model_state(model):
        rec.tag("new " + {"b": "broadcast", "c": "carry"}.get(classify(p, a, axes, bcast), "axis"))
    rec.nt(L >= 2)
    model = after


def apply_call(call, m, x, xs, b, k, ctx):
  args = (x, xs) if b is None else (x, xs, b)
  kw = {} if k is None else {"k": k}
  if ctx is not None:
    kw["ctx"] = ctx
  return call(m, *args, **kw)


# ------------------------------------------------------------------ lengths


@st.composite
def length_cases(draw):
  n = st.one_of(st.integers(1, 4), st.sampled_from([1, 2, 3, 4, 33, 130, 257]))
  return {
      "vars": draw(st.lists(n, max_size=2)), "args": draw(st.lists(n, max_size=2)),
      "length": draw(st.one_of(st.none(), n)), "same": draw(st.booleans()), "ax": draw(st.sampled_from([0, 1, -1])),
      "jit": draw(st.booleans()),
  }


def run_length(case, rec):
  ls = case["vars"] + case["args"]
  if case["same"] and ls:
    case["vars"] = [ls[0]] * len(case["vars"])
    case["args"] = [ls[0]] * len(case["args"])
  found = set(case["vars"] + case["args"])
  length = case["length"]
  ok = len(found) == 1 and length in (None, *found) or (not found and length is not None)
  rec.nt(len(found) > 1 or length is not None)
  rec.tag("accepted" if ok else "refused")
  ax = case["ax"]
  shape = lambda n: (n, 5) if ax == 0 else (5, n)
  m = P.P(())
  for i, n in enumerate(case["vars"]):
    setattr(m, f"p{i}", nnx.Param(jnp.ones(shape(n))))
  m.count = nnx.BatchStat(jnp.zeros(()))
  xs = tuple(jnp.ones(shape(n)) for n in case["args"])

  def layer(m, c, x):
    m.count = m.count + 1
    return c + 1, c

  before = G.canon(m)
  f = nnx.scan(layer, variable_axes={nnx.Param: ax}, in_axes=ax, length=length)
  if case["jit"]:
    f = nnx.jit(f)
  try:
    c, out = f(m, jnp.zeros(()), xs)
  except ValueError:
    assert not ok, f"lengths {found} with length={length} refused"
    assert G.canon(m) == before
    return
  assert ok, f"lengths {found} with length={length} accepted"
  n = length if length is not None else found.pop()
  assert float(c) == n and list(np.asarray(out)) == list(range(n)) and float(m.count) == n, "number of steps"


# ------------------------------------------------------------------ keys of long scans


SPLITS = {"none": None, "all": ..., "a": "a", "list": ["b", "a"], "map": {"a": True, "b": False}, "fn": lambda name: name == "b",
          "but": {"b": True, ...: False}, "rest": {"b": False, ...: True}, "nested": [["b"], lambda name: False], "nobody": {"b": False}, "unknown": ["z"], "empty": []}
SPLIT_OF = {"none": "", "all": "ab", "a": "a", "list": "ab", "map": "a", "fn": "b", "but": "b", "rest": "ab", "nested": "b", "nobody": "", "unknown": "", "empty": ""}


@st.composite
def key_cases(draw):
  return {
      "n": draw(st.one_of(st.sampled_from([1, 2, 3, 33, 70, 130, 257, 600]), st.integers(2, 700))),
      "split": draw(st.sampled_from(sorted(SPLITS))), "per": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 9)),
      "before": draw(st.integers(0, 2)), "form": draw(st.sampled_from(["call", "init", "class"])), "jit": draw(st.booleans()),
      "reverse": draw(st.booleans()),
  }


def run_keys(case, rec):
  n, per = case["n"], case["per"]
  rec.nt(n > 4)
  rec.tag(case["form"] + " " + case["split"])
  rec.tag("64 steps or more", n >= 64)

  class Layer(nnx.Module):
    def __init__(self, *, ctx):
      self.a = nnx.Param(jnp.stack([ctx.make_rng("a") for _ in range(per)]))
      self.b = nnx.Param(jnp.stack([ctx.make_rng("b") for _ in range(per)]))

    def __call__(self, c, x, *, ctx):
      return c, {k: jnp.stack([ctx.make_rng(k) for _ in range(per)]) for k in "ab"}

  def context():
    ctx = nnx.context(a=case["seed"], b=case["seed"] + 20)
    for _ in range(case["before"]):
      ctx.make_rng("a")
    return ctx

  kw = dict(split_rngs=SPLITS[case["split"]], length=n, reverse=case["reverse"])
  if case["form"] == "call":
    f = nnx.scan(Layer.__call__, **kw)
    f = nnx.jit(f) if case["jit"] else f
    _, out = f(Layer(ctx=nnx.context(a=1, b=2)), jnp.zeros(()), None, ctx=context())
  else:
    scan = nnx.Scan(Layer, variable_axes={nnx.Param: 0}, **kw)(ctx=context())
    assert scan.scan_module.a.shape == (n, per, 2), scan.scan_module.a.shape
    out = {k: getattr(scan.scan_module, k) for k in "ab"}
    if case["form"] == "class":
      call = lambda s, ctx: s(jnp.zeros(()), None, ctx=ctx)
      _, out = (nnx.jit(call) if case["jit"] else call)(scan, ctx=context())
  seen = {}
  for k in "ab":
    keys = np.asarray(out[k])
    assert keys.shape == (n, per, 2), keys.shape
    rows = [tuple(r) for r in keys.reshape(-1, 2).tolist()]
    want = n * per if k in SPLIT_OF[case["split"]] else per
    assert len(set(rows)) == want, f"{len(set(rows))} keys of stream {k} in {n} steps with {per} each, split {case['split']}"
    if want == per:
      assert all((keys[i] == keys[0]).all() for i in range(n)), f"stream {k} is not the same in all steps"
    seen[k] = set(rows)
  assert not seen["a"] & seen["b"], "two streams share keys"


# ------------------------------------------------------------------ variables the loop creates


KINDS = {"axis": nnx.Param, "carry": nnx.BatchStat, "broadcast": nnx.Cache}


@st.composite
def create_cases(draw):
  return {
      "made": draw(st.lists(st.fixed_dictionaries({
          "how": st.sampled_from(sorted(KINDS)), "sub": st.booleans(), "tree": st.booleans(), "late": st.booleans(),
      }), min_size=1, max_size=5)),
      "L": draw(st.integers(2, 6)), "reverse": draw(st.booleans()), "unroll": draw(st.sampled_from([1, 1, 2, 9])), "ax": draw(st.sampled_from([0, 1, -1])),
      "jit": draw(st.booleans()), "applies": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 9)), "form": draw(st.sampled_from(["scan", "Scan", "method"])),
      "given": draw(st.booleans()),
  }


def grow(case, get, put, has, c, w, x, n):
  """One layer: creates what is missing, updates what is there (except what is shared), uses all of it."""
  c = c * 0.5 + w * x
  for i, m in enumerate(case["made"]):
    if m["late"] and n == 0:  # only from the second application on
      continue
    if not has(i, m):
      put(i, m, {"p": c + i, "q": [c * 2]} if m["tree"] else c + i)
    elif m["how"] != "broadcast":
      put(i, m, tmap(lambda v: v * 0.5 + c, get(i, m)))
    for leaf in jax.tree_util.tree_leaves(get(i, m)):
      c = c * 0.75 + leaf
  return c, c * 2


class Sub(nnx.Module):
  pass


def run_creates(case, rec):
  """A variable created in the first step is there in the later ones: carried, shared, or each step's own."""
  L, ax, seed = case["L"], case["ax"], case["seed"]
  ws = np.stack([P.base(seed + 2 * i) for i in range(L)])
  xs = np.stack([P.base(seed + 3 * i + 1) for i in range(L)])
  turn = [0]

  class Layer(nnx.Module):
    def __init__(self):
      self.w = nnx.Param(jnp.asarray(P.base(seed)), note="w")
      self.sub = Sub()

    def __call__(self, c, x):
      at = lambda m: self.sub if m["sub"] else self
      return grow(
          case, lambda i, m: getattr(at(m), f"v{i}"), lambda i, m, v: setattr(at(m), f"v{i}", v if f"v{i}" in vars(at(m)) else KINDS[m["how"]](v, note=i)),
          lambda i, m: f"v{i}" in vars(at(m)), c, self.w, x, turn[0],
      )

    def step(self, c, x):
      return self(c, x)

  kw = dict(variable_axes={nnx.Param: ax}, variable_broadcast=nnx.Cache, reverse=case["reverse"], unroll=case["unroll"])
  if case["given"] or case["form"] != "scan":
    kw["length"] = L
  if case["form"] == "scan":
    module = target = Layer()
    scanned = nnx.scan(Layer.__call__, **kw)
  else:
    target = nnx.Scan(Layer, **kw)()
    module = target.scan_module
    scanned = (lambda h, c, x: h(c, x)) if case["form"] == "Scan" else (lambda h, c, x: h.call.step(c, x))
  module.w = jnp.moveaxis(jnp.asarray(ws), 0, ax)
  order = list(range(L))[::-1] if case["reverse"] else list(range(L))
  shared, own = {}, [{} for _ in range(L)]
  rec.nt(True)
  for n in range(case["applies"]):
    turn[0] = n
    for m in case["made"]:
      rec.tag("creates " + m["how"])
    outs = [None] * L
    c = jnp.asarray(P.base(seed + n))
    for i in order:
      d = lambda m: own[i] if m["how"] == "axis" else shared
      c, outs[i] = grow(
          case, lambda k, m: d(m)[k], lambda k, m, v: d(m).__setitem__(k, v), lambda k, m: k in d(m), c, jnp.asarray(ws[i]), jnp.asarray(xs[i]), n,
      )
    f = nnx.jit(lambda t, c, x: scanned(t, c, x)) if case["jit"] else scanned
    got, out = f(target, jnp.asarray(P.base(seed + n)), jnp.asarray(xs))
    P.same_tree(got, c, TOL, f"carry of application {n}")
    P.same_tree(out, jnp.stack(outs), TOL, f"stacked outputs of application {n}")
    want = {"w": jnp.moveaxis(jnp.asarray(ws), 0, ax)}
    for i, m in enumerate(case["made"]):
      if not (m["late"] and n == 0):
        want["sub/" * m["sub"] + f"v{i}"] = (
            tmap(lambda *v: jnp.stack(v, axis=ax), *(o[i] for o in own)) if m["how"] == "axis" else shared[i])
    state = module.get_state()
    assert sorted(state) == sorted(want), f"state {sorted(state)} instead of {sorted(want)}"
    for k, v in want.items():
      kind = nnx.Param if k == "w" else KINDS[case["made"][int(k[-1])]["how"]]
      assert type(state[k]) is kind and vars(state[k]).get("note") == ("w" if k == "w" else int(k[-1])), f"kind and metadata of {k}"
      P.same_tree(state[k].value, v, TOL, f"{k} after application {n}")


# ------------------------------------------------------------------ ranks, axes and dtypes


DTYPES = ["float32", "int32", "bool", "float16", "uint8", "complex64"]


@st.composite
def rank_cases(draw):
  def one():
    r = draw(st.integers(1, 6))
    return {
        "sizes": draw(st.lists(st.integers(1, 3), min_size=r - 1, max_size=r - 1)), "ax": draw(st.integers(-r, r - 1)),
        "dtype": draw(st.sampled_from(DTYPES)), "out": draw(st.integers(-r, r - 1)),
    }
  n_vars = draw(st.sampled_from([0, 1, 2, 3, 3, 8]))
  return {
      "args": [one() for _ in range(draw(st.integers(1, 4)))], "vars": [one() for _ in range(n_vars)],
      "L": draw(st.sampled_from([0, 1, 2, 2, 3, 4, 5])), "reverse": draw(st.booleans()), "unroll": draw(st.sampled_from([1, 1, 2, 4])),
      "jit": draw(st.booleans()), "tree": draw(st.sampled_from(["list", "dict", "nest"])), "form": draw(st.sampled_from(["scan", "scan", "method"])),
      "seed": draw(st.integers(0, 9)),
  }


def some(shape, dtype, seed):
  a = (np.arange(int(np.prod(shape))) * 7 + seed * 3) % 11
  return (a % 2 == 0 if dtype == "bool" else a + (0 if dtype == "uint8" else -4)).astype(dtype).reshape(shape)


def run_ranks(case, rec):
  """Arguments, outputs and axis variables of every rank, axis and dtype, each with an axis of its own; exact."""
  L, seed = case["L"], case["seed"]
  per = lambda specs, s: [[some(v["sizes"], v["dtype"], s + 5 * n + 2 * i) for i in range(max(L, 1))] for n, v in enumerate(specs)]
  args, vals = per(case["args"], seed), per(case["vars"], seed + 1)
  pack = {"list": list, "dict": lambda xs: {f"k{i}": x for i, x in enumerate(xs)}, "nest": lambda xs: (xs[0], {"r": list(xs[1:])})}[case["tree"]]
  pile = lambda xs, axis: np.stack(xs, axis=axis).take(range(L), axis=axis)  # also of no steps
  flip = lambda a: ~a if a.dtype == bool else a + np.asarray(1, a.dtype)
  rec.nt(L > 1)
  rec.tag("no steps", L == 0)
  rec.tag("rank 4 or more", any(len(v["sizes"]) > 2 for v in case["args"]))
  rec.tag("axis past 2", any(v["ax"] % (len(v["sizes"]) + 1) > 2 for v in case["args"]))
  rec.tag("many axis filters", len(vals) > 3)

  class Layer(nnx.Module):
    def __init__(self):
      for i, v in enumerate(case["vars"]):
        setattr(self, f"v{i}", nnx.Param(jnp.asarray(pile(vals[i], v["ax"])), note=i))
      self.count = nnx.BatchStat(jnp.zeros((), jnp.int32))

    def __call__(self, c, xs):
      self.count = self.count + 1
      seen = []
      for i in range(len(vals)):
        seen.append(getattr(self, f"v{i}"))
        setattr(self, f"v{i}", flip(seen[-1]))
      return {"t": c["t"] * 2 + self.count, "n": None}, (jax.tree_util.tree_map(flip, xs), seen, c["t"])

    def act(self, c, xs):
      return self(c, xs)

  out_axes = (pack([v["out"] for v in case["args"]]), [v["out"] for v in case["vars"]], 0)
  f = nnx.scan(
      Layer.__call__ if case["form"] == "scan" else Layer.act,
      variable_axes={(lambda path, v, i=i: path == f"v{i}"): v["ax"] for i, v in enumerate(case["vars"])},
      in_axes=pack([v["ax"] for v in case["args"]]), out_axes=out_axes, reverse=case["reverse"], unroll=case["unroll"],
  )
  m = Layer()
  xs = pack([jnp.asarray(pile(a, v["ax"])) for a, v in zip(args, case["args"])])
  c, (ys, seen, ts) = (nnx.jit(f) if case["jit"] else f)(m, {"t": jnp.int32(seed), "n": None}, xs)

  t, want_t = seed, [None] * L
  for n, i in enumerate(list(range(L))[::-1] if case["reverse"] else range(L)):
    want_t[i] = t
    t = t * 2 + n + 1
  exact = lambda a, b, what: P.same_tree(np.asarray(a), np.asarray(b), 0, what) if a.dtype == b.dtype else fail(f"{what}: {a.dtype} instead of {b.dtype}")
  assert c["n"] is None and int(c["t"]) == t and np.asarray(ts).tolist() == want_t, "the carry"
  assert int(m.count) == L
  want = pack([pile([flip(x) for x in a], v["out"]) for a, v in zip(args, case["args"])])
  assert jax.tree_util.tree_structure(ys) == jax.tree_util.tree_structure(want), "structure of the outputs"
  for a, b in zip(jax.tree_util.tree_leaves(ys), jax.tree_util.tree_leaves(want)):
    exact(a, b, "output")
  for i, v in enumerate(case["vars"]):
    exact(seen[i], pile(vals[i], v["out"]), f"variable {i} as the steps saw it")
    exact(getattr(m, f"v{i}"), pile([flip(x) for x in vals[i]], v["ax"]), f"variable {i} afterwards")
    assert vars(m)[f"v{i}"].note == i


def fail(message):
  raise AssertionError(message)


CHECKS = [
    Check("nested", N.cases("scan"), N.run, quick=80, thorough=3000),
    Check("keys", key_cases, run_keys, quick=60, thorough=1500),
    Check("ranks", rank_cases, run_ranks, quick=180, thorough=4000),
    Check("creates", create_cases, run_creates, quick=50, thorough=1500),
    Check("loops", cases, run, quick=320, thorough=8000),
    Check("lengths", length_cases, run_length, quick=160, thorough=3000),
]
