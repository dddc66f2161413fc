"""C15 Remat is transparent."""
import collections
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax._src.ad_checkpoint import saved_residuals
from jax.ad_checkpoint import checkpoint_name

import nnx
from props import c14
from vlib import filters as F
from vlib import nest as N
from vlib import programs as P
from vlib.driver import Check

RULE = (
    "Cases: a module program (submodules, sharing, cycles; reading, updating, creating and recording state, nested modules "
    "whose own __call__ is rematerialized), Remat with an access chain or the decorator (also applied twice), positional "
    "arguments in any order with any subset static, a policy and prevent_cse, a context, and the surroundings: alone, "
    "nnx.jit, nnx.grad, nnx.scan, jax.grad of a pure function, up to 2 calls. Oracle: the program on a plain reference "
    "model, jax.grad of it for gradients, and jax.checkpoint of it for what is saved; for construction (Remat, a decorated __init__ or other initializer) the module built without remat. Also nnx.remat around trees of up to three transforms (jit, grad, remat, scan, in sequence, repeated, shared; creating state, drawing random numbers), against plain jax and loops. "
    "Non-trivial: the program reads or "
    "changes state, or draws random numbers."
)

ASSUMPTIONS = ["a context given to a rematerialized function is split first, as under nnx.jit"]

TOL = 3e-5
POLICIES = [None, None, "everything_saveable", "nothing_saveable", "dots_saveable", "dots_with_no_batch_dims_saveable"]


class R(P.P):
  """A module whose own __call__ and go are rematerialized."""

  def __call__(self, x, *, ctx=None):
    return P.interp(P.LIVE, self, self.prog, x, ctx)

  __call__ = nnx.remat(__call__)

  def go(self, x, scale=0.5, *, ctx=None):
    return P.interp(P.LIVE, self, self.prog, x * scale, ctx)

  go = nnx.remat(go, prevent_cse=False)


class T(P.P):
  """Root module for Remat: takes arguments in the order of its case."""

  order = ()

  def __call__(self, *args, ctx=None):
    return body(P.LIVE, self, self.prog, args, self.order, ctx)

  def step(self, *args, ctx=None):
    return body(P.LIVE, self, self.prog, args, self.order, ctx)


class Ref(P.Ref):

  def call(self, i, x, scale, ctx):
    if ctx is not None and self.model[i]["cls"] == "R":
      ctx = ctx.partition().merge()
    return super().call(i, x, scale, ctx)


P.CLASSES["R"] = R
P.CLASSES["T"] = T


def body(env, m, prog, args, order, ctx):
  """args are named by order: x array, e tree, n int (static or not), s mode (static), z None."""
  a = dict(zip(order, args))
  x = a["x"]
  if "e" in a:
    x = x * a["e"]["s"] + a["e"]["t"][0]
  if "s" in a:
    x = x + 1.0 if a["s"] == "plus" else x * 2.0
  if "n" in a:
    x = x + a["n"]
  reps = a.get("k", 1)
  for _ in range(reps):
    x = P.interp(env, m, prog, x, ctx)
  return x, {"y": x * 2, "none": None}


@st.composite
def cases(draw):
  spec = draw(P.programs(max_mods=4, max_ops=4))
  for m in spec["mods"][1:]:
    if m["cls"] == "P" and draw(st.integers(0, 2)) == 0:
      m["cls"] = "R"
  form = draw(st.sampled_from(["dec", "dec", "Remat", "Remat.step", "chain", "twice"]))
  if form in ("Remat", "Remat.step"):
    spec["mods"][0]["cls"] = "T"
  path = []
  if form == "chain":
    path, i = draw(P.walk_path(spec, 0, 2))
    if spec["mods"][i]["cls"] not in ("P", "P2", "R"):
      path, i = [], 0
  order = draw(st.permutations(["x"] + draw(st.lists(st.sampled_from(["e", "s", "n", "k"]), max_size=4, unique=True))))
  if form == "chain":
    order = ["x"]
  # what steers Python control flow has to be static
  static = [i for i, a in enumerate(order) if a in ("s", "k") or (a == "n" and draw(st.booleans()))]
  if draw(st.booleans()):
    static = [i - len(order) for i in static]
  static = draw(st.permutations(static))
  return {
      "g": spec, "form": form, "path": path, "order": list(order), "static": list(static),
      "int": draw(st.booleans()), "policy": draw(st.sampled_from(POLICIES)), "cse": draw(st.booleans()),
      "wrap": draw(st.sampled_from([None, None, "jit", "grad", "grad", "scan", "jax.grad", "jit grad"])),
      "ctx": draw(st.booleans()), "calls": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 9)),
      "method": draw(st.booleans()),
  }


def arguments(case, n):
  vals = {
      "x": jnp.asarray(P.base(case["seed"] + n)), "e": {"s": jnp.float32(0.5), "t": [jnp.asarray(P.base(n + 1))]},
      "s": ["plus", "times"][(n + case["seed"]) % 2], "n": [0, 2, 1][(case["seed"] + n) % 3], "k": 1 + n,
  }
  return tuple(vals[a] for a in case["order"])


def wrapped(case, module_of, options):
  """Returns (object to call the result on, function(object, *args, **kw))."""
  spec, form, path = case["g"], case["form"], case["path"]
  prog = P.freeze(spec["mods"][0]["prog"])
  order = case["order"]

  def fn(m, *args, ctx=None):
    return body(P.LIVE, m, prog, args, order, ctx)

  if form == "dec":
    return module_of(), nnx.remat(fn, **options)
  if form == "twice":
    return module_of(), nnx.remat(nnx.remat(fn, **options), **{**options, "policy": None})
  holder = nnx.Remat(module_of, **options)()
  holder.remat_module.order = tuple(order)  # static attribute of the module under test
  if form == "Remat":
    return holder, lambda h, *a, **k: h(*a, **k)
  if form == "Remat.step":
    return holder, lambda h, *a, **k: h.call.step(*a, **k)

  def chain(h, *a, **k):
    return P.LIVE.follow(h.call, path)(*a, **k)

  return holder, chain


def reference(case, env, args, ctx, n):
  spec, path = case["g"], case["path"]
  if ctx is not None:
    ctx = ctx.partition().merge()
    if case["form"] == "twice":
      ctx = ctx.partition().merge()
  if case["form"] == "chain":
    return env.call(env.follow(0, path), args[0], None, ctx)
  return body(env, 0, P.freeze(spec["mods"][0]["prog"]), args, case["order"], ctx)


def loss(out):
  return sum(jnp.sum(v * v + 0.5 * v) for v in jax.tree_util.tree_leaves(out))


def value_of(a):
  return a[3] if a[0] == "var" else a[1]


def run(case, rec):
  spec, wrap, form = case["g"], case["wrap"], case["form"]
  model = P.model_of(spec)
  if form not in ("dec", "twice"):
    model[0]["attrs"]["order"] = ("stat", tuple(case["order"]))
  static = tuple(case["static"])
  if form == "twice":  # positions from the end mean the same for both
    static = tuple(i - len(case["order"]) if i >= 0 else i for i in static)
  if case["int"] and len(static) == 1:
    static = static[0]
  options = {"static_argnums": static, "prevent_cse": case["cse"]}
  if case["policy"] is not None:
    options["policy"] = getattr(jax.checkpoint_policies, case["policy"])
  options = P.lean(case, options, static_argnums=(), prevent_cse=True)
  target, f = wrapped(case, lambda: P.build(spec), options)
  module = target if form in ("dec", "twice") else target.remat_module
  P.same_module(module, model, 0, "before")
  rec.tag(f"{form}")
  rec.tag(f"in {wrap}")
  rec.tag("static arguments", bool(case["static"]))
  rec.tag("nested remat", any(m["cls"] == "R" for m in spec["mods"]))

  streams = {"params": 1, "noise": case["seed"]}
  if case["seed"] % 2 and form != "chain" and not P.uses_rng(spec):
    streams = {}  # a context need not have streams
  make_ctx = lambda: nnx.context(**streams, flags={"train": True})
  for n in range(case["calls"]):
    args = arguments(case, n)
    live_ctx = make_ctx() if case["ctx"] else None
    ref_ctx = make_ctx() if case["ctx"] else None
    kw = {"ctx": live_ctx} if case["ctx"] else {}
    entries = P.model_state(model)
    new = P.copy_model(model)
    what = f"call {n}"
    if wrap is None:
      got = f(target, *args, **kw)
      P.same_tree(got, reference(case, Ref(new), args, ref_ctx, n), TOL, what)
      if case["ctx"] and streams:  # the context itself goes on where the split left it
        np.testing.assert_array_equal(live_ctx.make_rng("noise"), ref_ctx.make_rng("noise"))
    elif wrap == "jit":
      got = nnx.jit(lambda m, ctx=None: f(m, *args, **({} if ctx is None else {"ctx": ctx})))(target, **kw)
      ref = None if ref_ctx is None else ref_ctx.partition().merge()
      P.same_tree(got, reference(case, Ref(new), args, ref, n), TOL, what)
    elif wrap == "scan":
      def layer(m, c, e, ctx=None):
        return c + 1, f(m, *args, **({} if ctx is None else {"ctx": ctx}))

      if any(isinstance(v, tuple) for v in map(value_of, (e[0] for e in entries.values()))) or creates(case, model, args):
        got, steps = f(target, *args, **kw), None  # carries keep their structure: apply it alone
        P.same_tree(got, reference(case, Ref(new), args, ref_ctx, n), TOL, what)
      else:
        _, got = nnx.scan(layer, length=2)(target, jnp.zeros(()), None, **kw)
        ref = None if ref_ctx is None else ref_ctx.partition().merge()
        outs = []
        for _ in range(2):
          c = None
          if ref_ctx is not None:
            keys, d = make_ctx().partition()
            c = d.merge(keys)
          outs.append(reference(case, Ref(new), args, c, n))
        P.same_tree(got, jax.tree_util.tree_map(lambda *v: jnp.stack(v), *outs), TOL, what)
        rec.tag("scanned")
    else:
      sel = {p: value_of(a) for p, (a, _, _) in entries.items() if F.match(["type", "Param"], p, spec_of(a))}

      def ref_loss(vals):
        m = P.copy_model(model)
        for p, v in vals.items():
          a, j, name = entries[p]
          m[j]["attrs"][name] = ("var", a[1], a[2], v)
        c = None if case["ctx"] is False else make_ctx()
        if c is not None:
          c = c.partition().merge()
          if wrap == "jit grad":
            c = c.partition().merge()
        return loss(reference(case, Ref(m), args, c, n)), m

      want = jax.grad(lambda v: ref_loss(v)[0])(sel) if jax.tree_util.tree_leaves(sel) else sel
      value, new = ref_loss(sel)
      pctx = None if live_ctx is None else live_ctx.partition()
      prefix = "" if form in ("dec", "twice") else "remat_module/"

      def live_loss(m, pctx):
        k = {} if pctx is None else {"ctx": pctx.merge()}
        return loss(f(m, *args, **k))

      if wrap == "jax.grad":
        (params, rest), d = target.partition(nnx.Param, ...)

        def pure(params):
          m = d.merge(params, rest)
          v = live_loss(m, pctx)
          return v, (v, m.get_state())

        g, (v, st_) = jax.grad(pure, has_aux=True)(params)
        target.update_state(st_)
        P.same_tree(v, value, TOL * 4, what)
      elif wrap == "grad":
        g = nnx.grad(live_loss)(target, pctx)
      else:
        def both(m, ctx=None):
          return nnx.grad(live_loss)(m, None if ctx is None else ctx.partition())

        k = {}
        if case["ctx"]:
          k["ctx"] = make_ctx()
        g = nnx.jit(both)(target, **k)
      assert list(g.keys()) == sorted(prefix + p for p in sel), f"{what}: gradients {list(g.keys())}"
      for p in sel:
        a = entries[p][0]
        P.same_attr(g[prefix + p], ("var", a[1], a[2], want[p]), TOL * 4, f"{what}: gradient of {p}")
      rec.tag("gradients", any(np.any(np.asarray(w) != 0) for w in jax.tree_util.tree_leaves(want)))
    rec.tag("changes state", str(new) != str(model))
    used = [op[0] for _, op in P.uses(spec)] if form != "chain" else ["mul"]
    rec.nt(str(new) != str(model) or any(t in ("mul", "add") for t in used) or (case["ctx"] and "rng" in used))
    model = new
    P.same_module(module, model, TOL * 4, f"module after {what}")


def creates(case, model, args):
  m = P.copy_model(model)
  c = nnx.context(params=1, noise=1, flags={"train": True}) if case["ctx"] else None
  reference(case, Ref(m), args, c, 0)
  return str(jax.tree_util.tree_structure(P.model_state(m))) != str(jax.tree_util.tree_structure(P.model_state(model)))


def spec_of(a):
  return ["val", ["j"]] if a[0] == "arr" else ["var", a[1], None, []]


# ------------------------------------------------------------------ what is saved


@st.composite
def saved_cases(draw):
  ops = draw(st.lists(st.sampled_from(["sin", "tanh", "dot", "exp", "mulp", "addp", "save", "offload"]), min_size=1, max_size=6))
  return {
      "ops": ops, "policy": draw(st.sampled_from(POLICIES + ["names", "names2"])), "form": draw(st.sampled_from(["dec", "Remat"])),
      "cse": draw(st.booleans()),
  }


class Chain(nnx.Module):

  def __init__(self, ops):
    self.ops = tuple(ops)
    self.w = nnx.Param(jnp.ones((4, 4)) * 0.1)
    self.p = nnx.Param(jnp.ones((3, 4)) * 0.3)

  def __call__(self, x):
    return chain(self.ops, x, self.w, self.p)


def chain(ops, x, w, p):
  for op in ops:
    if op == "dot":
      x = x @ w
    elif op == "mulp":
      x = x * p
    elif op == "addp":
      x = x + p
    elif op in ("save", "offload"):
      x = checkpoint_name(jnp.cos(x), op)
    else:
      x = getattr(jnp, op)(x)
  return x


def run_saved(case, rec):
  ops = tuple(case["ops"])
  policy = case["policy"]
  if policy == "names":
    policy = jax.checkpoint_policies.save_only_these_names("save")
  elif policy == "names2":
    policy = jax.checkpoint_policies.save_any_names_but_these("save")
  elif policy is not None:
    policy = getattr(jax.checkpoint_policies, policy)
  options = P.lean(case, {"policy": policy, "prevent_cse": case["cse"]}, policy=None, prevent_cse=True)
  if case["form"] == "Remat":
    target, f = nnx.Remat(Chain, **options)(ops), lambda h, x: h(x)
  else:
    target, f = Chain(ops), nnx.remat(lambda m, x: m(x), **options)
  x = jnp.linspace(0.0, 1.0, 12).reshape(3, 4)
  state, d = target.partition()
  live = saved(lambda s, x: jnp.sum(jnp.sin(f(d.merge(s), x))), state, x)
  pure = jax.checkpoint(lambda w, p, x: chain(ops, x, w, p), **options)
  assert cse(lambda s, x: f(d.merge(s), x), state, x) == [case["cse"]], "prevent_cse is not what was asked for"
  vals = {k.split("/")[-1]: v.value for k, v in state.items()}
  plain = saved(lambda s, x: jnp.sum(jnp.sin(pure(s["w"], s["p"], x))), vals, x)
  assert live == plain, f"saved for the backward pass: {dict(live)} instead of {dict(plain)}"
  nothing = saved(lambda s, x: jnp.sum(jnp.sin(chain(ops, x, s["w"], s["p"]))), vals, x)
  rec.nt(nothing != plain)


def cse(f, *args):
  """The prevent_cse parameter of every checkpoint in the function."""
  out = []

  def visit(jaxpr):
    for e in jaxpr.eqns:
      if "prevent_cse" in e.params:
        out.append(bool(e.params["prevent_cse"]))
      for sub in jax.core.jaxprs_in_params(e.params):
        visit(sub)

  visit(jax.make_jaxpr(f)(*args).jaxpr)
  return out


def saved(f, *args):
  return collections.Counter(str(aval) for aval, why in saved_residuals(f, *args) if "argument" not in why)


# ------------------------------------------------------------------ construction


@st.composite
def construct_cases(draw):
  return {
      "g": draw(c14.layers()), "form": draw(st.sampled_from(["Remat", "init", "explicit"])), "cse": draw(st.booleans()),
      "seeds": draw(st.lists(st.integers(0, 5), min_size=3, max_size=3)), "flag": draw(st.booleans()), "more": draw(st.booleans()),
  }


def run_construct(case, rec):
  spec = P.freeze(case["g"])
  options = P.lean(case, {"prevent_cse": case["cse"]}, prevent_cse=True)

  def context():
    p, n, e = case["seeds"]
    return nnx.context(params=p, noise=n, extra=e, flags={"f": True} if case["flag"] else {})

  class Plain(nnx.Module):

    def __init__(self, spec, extra, *, scale=1.0, ctx):
      c14.fill(self, spec, extra, scale, ctx)

  class Init(nnx.Module):

    @functools.partial(nnx.remat, **options)
    def __init__(self, spec, extra, *, scale=1.0, ctx):
      c14.fill(self, spec, extra, scale, ctx)

  class Explicit(nnx.Module):

    def __init__(self, *args, **kwargs):
      self.setup(*args, **kwargs)

    @functools.partial(nnx.remat, is_init=True, **options)
    def setup(self, spec, extra, *, scale=1.0, ctx):
      c14.fill(self, spec, extra, scale, ctx)

  ctx, ref = context(), context()
  args, kwargs = (spec, jnp.float32(0.75)), {"scale": 2.0} if case["more"] else {}
  plain = Plain(*args, **kwargs, ctx=ref)
  if case["form"] == "Remat":
    built = nnx.Remat(Plain, **options)(*args, **kwargs, ctx=ctx)
    assert isinstance(built, nnx.Remat)
    built = built.remat_module
  else:
    built = (Init if case["form"] == "init" else Explicit)(*args, **kwargs, ctx=ctx)
  got, want = built.get_state(), plain.get_state()
  assert sorted(got) == sorted(want), f"state {sorted(got)} instead of {sorted(want)}"
  assert jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want), "kinds or metadata differ"
  for path in want:
    a, b = (np.asarray(v.value if isinstance(v, nnx.Node) else v) for v in (got[path], want[path]))
    assert a.dtype == b.dtype and np.array_equal(a, b), f"{path}: {a} instead of {b}"
  shape = lambda m: {p: (type(x).__name__, sorted(vars(x))) for p, x in c14.modules(m) if p}
  assert shape(built) == shape(plain), f"structure {shape(built)} instead of {shape(plain)}"
  for name in ("params", "noise", "extra"):
    np.testing.assert_array_equal(ctx.make_rng(name), ref.make_rng(name))
  rec.nt("rng" in str(spec) or "two" in str(spec))
  rec.tag(case["form"])


CHECKS = [
    Check("nested", N.cases("remat"), N.run, quick=80, thorough=3000),
    Check("programs", cases, run, quick=1000, thorough=20000),
    Check("saved", saved_cases, run_saved, quick=150, thorough=2500),
    Check("construct", construct_cases, run_construct, quick=200, thorough=3000),
]
