"""C09 Modules and contexts cannot be changed or used across trace levels."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: a random nesting (depth up to 3) of jax and NNX transforms whose bodies create modules and contexts and "
    "attempt every kind of mutation, draw and split on every object made so far (objects of enclosing, finished and "
    "sibling levels included), with bodies that raise. Oracle: a model of the level stack: jit, scan, cond, while, "
    "checkpoint, eval_shape, make_jaxpr open a jax level; nnx.jit opens a jax and an NNX level; nnx.grad an NNX level; "
    "nnx.remat and nnx.scan a jax level; jax.vmap and jax.grad run at their caller's level. Non-trivial: at least one "
    "attempt from another level and one from the object's own level inside a transform. A second check: a context "
    "that refused draws and splits inside transforms yields the keys of one that was never asked."
)

ASSUMPTIONS = [
    "jax.vmap, jax.grad, jax.vjp and jax.jvp alone run their function at the caller's trace level (NNX does not guard there)",
]

OPS = [
    "static", "var", "newattr", "newvar", "box", "arr", "del", "delvar", "update", "update_tuple", "update_pure",
    "update_module", "updsub", "updnew", "updbare", "updbare_tuple", "barestatic", "baresow", "updboth", "pop", "popsub", "sow", "leaf", "method", "apply", "clone", "dict",
    "mixown", "mixupd", "mixupd", "mixpop", "mixpop",
]
GIVEN_OPS = ["static", "var", "box", "update", "leaf", "method", "updsub", "apply", "clone", "update_pure", "mixown", "mixupd"]
JAX_LEVEL = {"jit", "scan", "cond", "while", "checkpoint", "eval_shape", "make_jaxpr", "nnx.jit", "nnx.remat", "nnx.scan", "fori", "nnx.Remat", "nnx.Scan"}
NNX_LEVEL = {"nnx.jit", "nnx.grad"}
TRANSFORMS = sorted(JAX_LEVEL | NNX_LEVEL) + ["vmap", "grad", "vjp", "jvp", "nnx.jit", "nnx.grad"]


@st.composite
def bodies(draw, depth):
  out = []
  for _ in range(draw(st.integers(1, 4))):
    k = draw(st.sampled_from(["new", "newctx", "mut", "mut", "mut", "ctx", "ctx"] + ["t"] * (3 if depth else 0)))
    if k in ("new", "newctx"):
      out.append([k])
    elif k == "mut":
      out.append([k, draw(st.integers(0, 15)), draw(st.sampled_from(OPS))])
    elif k == "ctx":
      out.append([k, draw(st.integers(0, 15)), draw(st.sampled_from(["draw", "split", "draw", "split", "copy"]))])
    else:
      out.append([
          "t", draw(st.sampled_from(TRANSFORMS)), draw(st.integers(0, 15)),
          draw(st.one_of(st.none(), st.integers(0, 15))), draw(bodies(depth - 1)), draw(st.integers(0, 3)) == 0,
          draw(st.booleans()),
      ])
  return out


@st.composite
def cases(draw):
  return {"body": draw(bodies(3))}


class Boom(Exception):
  pass


class Bare(nnx.Module):
  """A module without state."""


class Mod(nnx.Module):
  def __init__(self):
    self.p = nnx.Param(np.ones((2,), np.float32))
    self.s = 0
    self.bare = Bare()

  def bump(self):
    self.s = self.s + 1
    return self.s

  def __call__(self, x, *args, ctx=None):
    return self.fn(self, x, ctx)


def arr(k):
  return np.full((2,), k, np.float32)


class Obj:
  def __init__(self, o, level, given, kind):
    self.o, self.level, self.given, self.kind = o, level, given, kind


class Machine:
  def __init__(self, rec):
    self.rec = rec
    self.levels = [(0, 0)]
    self.n = 0
    self.pool = []
    self.ctxs = []
    self.foreign = self.own = 0

  # -------------------------------------------------------------- levels

  def enter(self, t):
    self.n += 1
    j, n = self.levels[-1]
    self.levels.append((self.n if t in JAX_LEVEL else j, self.n if t in NNX_LEVEL else n))

  def here(self, level):
    return level == self.levels[-1]

  def add(self, m, given=False):
    o = Obj(m, self.levels[-1], given, "mod")
    self.pool.append(o)
    return o

  def add_ctx(self, c):
    o = Obj(c, self.levels[-1], False, "ctx")
    self.ctxs.append(o)
    return o

  # -------------------------------------------------------------- attempts

  def attempt(self, obj, what, fn, view):
    """fn() must work iff obj belongs to the current level; otherwise it must raise and change nothing."""
    before = view()
    if self.here(obj.level):
      if len(self.levels) > 1:
        self.own += 1
      try:
        return fn()
      except nnx.TraceContextError as e:
        raise AssertionError(f"{what} refused at the object's own level {obj.level}") from e
    self.foreign += 1
    try:
      fn()
    except nnx.TraceContextError:
      pass
    else:
      raise AssertionError(
          f"{what} allowed at level {self.levels[-1]} on an object of level {obj.level}"
      )
    assert view() == before, f"{what} was refused but changed the object"
    return None

  def mutate(self, i, op):
    obj = self.pool[i % len(self.pool)]
    m = obj.o
    self.n += 1
    k = self.n
    if obj.given and op not in GIVEN_OPS:
      op = GIVEN_OPS[k % len(GIVEN_OPS)]
    self.rec.tag("op " + op)
    raw = vars(m)
    if op == "del" and "arr" not in raw:
      op = "arr"
    if op in ("delvar", "pop", "popsub") and "nv" not in raw:
      op = "newvar"
    if op in ("update_pure", "update_module", "apply", "clone") and not self.usable(obj):
      op = "static"
    view = lambda: G.canon(m)
    if op.startswith("mix"):
      self.mixed(obj, op, k)
      return

    def holder():
      h = nnx.Dict()
      h["sub"] = m
      return h

    fns = {
        "static": lambda: setattr(m, "s", k),
        "var": lambda: setattr(m, "p", arr(k)),
        "newattr": lambda: setattr(m, f"fresh{k}", k),
        "newvar": lambda: setattr(m, "nv", nnx.Cache(arr(k))),
        "box": lambda: setattr(m, "p", nnx.Param(arr(k))),
        "arr": lambda: setattr(m, "arr", arr(k)),
        "del": lambda: delattr(m, "arr"),
        "delvar": lambda: delattr(m, "nv"),
        "update": lambda: m.update_state(nnx.State({"p": nnx.Param(arr(k))})),
        "update_tuple": lambda: m.update_state((nnx.State({"p": nnx.Param(arr(0))}), nnx.State({"new": nnx.Cache(arr(k))}))),
        "update_pure": lambda: m.update_state(m.partition()),
        "update_module": lambda: m.update_state(m.clone()),
        "updsub": lambda: holder().update_state(nnx.State({"sub/p": nnx.Param(arr(k))})),
        "updnew": lambda: m.update_state(nnx.State({f"fresh{k}": nnx.Cache(arr(k))})),
        "updbare": lambda: m.bare.update_state(nnx.State({f"v{k}": nnx.Param(arr(k))})),
        "updbare_tuple": lambda: m.update_state((nnx.State({f"bare/v{k}": nnx.Param(arr(k))}),)),
        "updboth": lambda: m.update_state(nnx.State({f"bare/v{k}": nnx.Param(arr(k)), "p": nnx.Param(arr(k))})),
        "barestatic": lambda: setattr(m.bare, f"s{k}", k),
        "baresow": lambda: m.bare.sow(nnx.Intermediate, f"i{k}", arr(k)),
        "pop": lambda: m.pop_state(nnx.Cache),
        "popsub": lambda: holder().pop_state(nnx.Cache, nnx.Intermediate),
        "sow": lambda: m.sow(nnx.Intermediate, "i", arr(k)),
        "leaf": lambda: setattr(m.mutable_state_dict()["p"], "value", arr(k)),
        "method": lambda: m.bump(),
        "dict": lambda: nnx.Dict.__setitem__(m, "item", k) if isinstance(m, nnx.Dict) else setattr(m, "item", k),
    }
    if op in ("apply", "clone"):
      before = view()
      if op == "apply":
        out, new = m.apply.bump()
        assert out == m.s + 1 and new.s == m.s + 1
      else:
        new = m.clone()
        new.s = k
      assert view() == before, f"{op} changed the module"
      self.add(new, obj.given)
      return
    self.attempt(obj, f"mutation ({op})", fns[op], view)
    if self.here(obj.level):
      raw = vars(m)
      got = {
          "static": lambda: raw["s"] == k, "newattr": lambda: raw[f"fresh{k}"] == k, "var": lambda: raw["p"].value[0] == k,
          "del": lambda: "arr" not in raw, "delvar": lambda: "nv" not in raw, "pop": lambda: "nv" not in raw,
          "update": lambda: raw["p"].value[0] == k, "leaf": lambda: raw["p"].value[0] == k,
      }.get(op)
      assert got is None or got(), f"mutation ({op}) at its own level had no effect"

  def mixed(self, obj, op, k):
    """A module of this level that holds the object, which can be of another one."""
    m = obj.o
    h = nnx.Dict(a=nnx.Cache(arr(0)), sub=m, z=nnx.Cache(arr(0)))
    view = lambda: (G.canon(m), h["sub"] is m, {n: h[n][0] for n in h if n != "sub"}, sorted(h))
    if op == "mixown" or (op == "mixpop" and "nv" not in vars(m)):
      before = G.canon(m)
      h.update_state((nnx.State({"z": nnx.Cache(arr(k))}), nnx.State({"y": nnx.Cache(arr(k))})))
      assert h["z"][0] == k and h["y"][0] == k, "an update had no effect"
      got = h.pop_state(lambda path, x: path in ("a", "y"))
      assert sorted(got) == ["a", "y"] and sorted(h) == ["sub", "z"], f"popped {sorted(got)}, left {sorted(h)}"
      assert G.canon(m) == before, f"{op} changed another module"
    elif op == "mixupd":
      update = lambda: h.update_state(nnx.State({"a": nnx.Cache(arr(k)), "sub/p": nnx.Param(arr(k)), "z": nnx.Cache(arr(k))}))
      self.attempt(obj, "an update of several modules", update, view)
      if self.here(obj.level):
        assert h["a"][0] == h["z"][0] == k and vars(m)["p"].value[0] == k, "an update had no effect"
    else:
      self.attempt(obj, "popping from several modules", lambda: h.pop_state(nnx.Cache), view)
      if self.here(obj.level):
        assert sorted(h) == ["sub"] and "nv" not in vars(m), "popping had no effect"

  def usable(self, obj):
    """Its contents may be touched: the level it belongs to has not ended."""
    return obj.level in self.levels

  def use_ctx(self, i, op):
    obj = self.ctxs[i % len(self.ctxs)]
    c = obj.o
    self.rec.tag("ctx " + op)
    view = lambda: None
    if op == "draw":
      self.attempt(obj, "make_rng", lambda: c.make_rng("params"), view)
    elif op == "copy":
      # a copy is of the level of the original, wherever it is made; or it is refused
      try:
        new = c.copy()
      except nnx.TraceContextError:
        assert not self.here(obj.level), "a copy was refused at the context's own level"
        return
      assert new is not c
      self.ctxs.append(Obj(new, obj.level, False, "ctx"))
    else:
      pure = self.attempt(obj, "context split", lambda: c.partition(), view)
      if pure is not None:
        self.add_ctx(pure.merge())
    assert c.has_rng("params") and c.get_flag("train") is True

  def probe(self, where):
    """Every object answers according to the current level."""
    for o in self.pool:
      self.n += 1
      k = self.n
      self.attempt(o, f"attribute write ({where})", lambda: setattr(o.o, "s", k), lambda: vars(o.o)["s"])
    for o in self.ctxs:
      self.attempt(o, f"make_rng ({where})", lambda: o.o.make_rng("params"), lambda: None)

  # -------------------------------------------------------------- bodies

  def body(self, acts):
    for a in acts:
      if a[0] == "new":
        self.add(Mod())
      elif a[0] == "newctx":
        self.add_ctx(nnx.context(len(self.ctxs), flags={"train": True}))
      elif a[0] == "mut":
        self.mutate(a[1], a[2])
      elif a[0] == "ctx":
        self.use_ctx(a[1], a[2])
      else:
        self.transform(*a[1:])

  def transform(self, t, mi, ci, acts, raises, stateful):
    self.rec.tag("t " + t)
    x = jnp.ones((2,), jnp.float32)
    sentinel = self.add(Mod())
    depth = len(self.levels)
    ran = []

    def inside(x, m=None, ctx=None):
      self.enter(t)
      try:
        ran.append(1)
        if m is not None:
          self.add(m, given=True)
        if ctx is not None:
          self.add_ctx(ctx)
        self.probe("entering " + t)
        self.body(acts)
        self.probe("leaving " + t)
        if raises:
          raise Boom()
        return x * 2.0
      finally:
        self.levels.pop()

    expect = None
    obj = ctx = None
    if t.startswith("nnx."):
      obj = self.pool[mi % len(self.pool)]
      if not self.usable(obj) or t in ("nnx.Remat", "nnx.Scan"):
        obj = sentinel
      if ci is not None and t != "nnx.grad":
        ctx = self.ctxs[ci % len(self.ctxs)]
      if ctx is not None and not self.here(ctx.level):
        expect = "ctx"
      elif not self.here(obj.level) and (stateful or t in ("nnx.remat", "nnx.scan")):
        expect = "module"
    kw = {} if ctx is None else {"ctx": ctx.o}
    before = None if obj is None else G.canon(obj.o)
    try:
      if t == "jit":
        jax.jit(inside)(x)
      elif t == "scan":
        jax.lax.scan(lambda c, _: (inside(c), None), x, None, length=2)
      elif t == "cond":
        jax.lax.cond(True, inside, lambda x: x, x)
      elif t == "while":
        jax.lax.while_loop(lambda x: x[0] < 3.0, inside, x)
      elif t == "fori":
        jax.lax.fori_loop(0, 2, lambda i, x: inside(x), x)
      elif t == "checkpoint":
        jax.checkpoint(inside)(x)
      elif t == "eval_shape":
        jax.eval_shape(inside, x)
      elif t == "make_jaxpr":
        jax.make_jaxpr(inside)(x)
      elif t == "vmap":
        jax.vmap(inside)(x)
      elif t == "grad":
        jax.grad(lambda x: inside(x).sum())(x)
      elif t == "vjp":
        jax.vjp(inside, x)
      elif t == "jvp":
        jax.jvp(inside, (x,), (x,))
      elif t == "nnx.jit":
        nnx.jit(lambda m, x, ctx=None: inside(x, m, ctx), stateful=stateful)(obj.o, x, **kw)
      elif t == "nnx.grad":
        nnx.grad(lambda m, x: (inside(x, m) * m.p).sum(), stateful=stateful)(obj.o, x)
      elif t == "nnx.remat":
        nnx.remat(lambda m, x, ctx=None: inside(x, m, ctx))(obj.o, x, **kw)
      elif t == "nnx.scan":
        nnx.scan(lambda m, c, _, ctx=None: (inside(c, m, ctx), None), length=2)(obj.o, x, None, **kw)
      elif t == "nnx.Remat":
        r = nnx.Remat(Mod)()
        r.remat_module.fn = Fn(lambda m, x, ctx: inside(x, m, ctx))
        r(x, **kw)
      elif t == "nnx.Scan":
        r = nnx.Scan(Mod, length=2)()
        r.scan_module.fn = Fn(lambda m, x, ctx: (inside(x, m, ctx), None))
        r(x, None, **kw)
      else:
        raise KeyError(t)
    except Boom:
      assert raises and expect != "ctx"
    except nnx.TraceContextError:
      if not (expect == "ctx" or (expect == "module" and not raises)):
        raise
      assert expect == "module" or not ran
    else:
      assert not raises and expect is None, f"{t} with a {expect} of another level was accepted"
    if expect != "ctx":
      assert ran, f"the function given to {t} did not run"
    if expect == "module":
      assert G.canon(obj.o) == before, f"{t} changed a module of another level"
    assert len(self.levels) == depth
    self.rec.tag("body raised", raises)
    assert self.here(sentinel.level)
    self.probe(f"after {t}" + (" that raised" if raises else ""))


class Fn:
  def __init__(self, fn):
    self.fn = fn

  def __call__(self, m, x, ctx):
    return self.fn(m, x, ctx)


def run(case, rec):
  mach = Machine(rec)
  mach.add(Mod())
  mach.add_ctx(nnx.context(0, flags={"train": True}))
  mach.body(case["body"])
  mach.probe("end")
  rec.nt(mach.foreign > 0 and mach.own > 0)
  rec.tag("foreign attempts", mach.foreign > 0)


# ---------------------------------------------------------------- refused draws

ACT = st.sampled_from(["params", "noise", "split"])
WHERE = ["jit", "nnx.jit", "nnx.grad", "scan", "cond", "eval_shape", "make_jaxpr", "checkpoint", "nnx.remat"]


@st.composite
def refused_cases(draw):
  # ["own", act] or [transform, acts]
  steps = []
  for _ in range(draw(st.integers(1, 5))):
    if draw(st.booleans()):
      steps.append(["own", [draw(ACT)]])
    else:
      steps.append([draw(st.sampled_from(WHERE)), draw(st.lists(ACT, min_size=1, max_size=3))])
  if all(w == "own" for w, _ in steps):
    steps.append([draw(st.sampled_from(WHERE)), [draw(ACT)]])
  return {"steps": steps, "inner": draw(st.sampled_from([None, "jit"])), "copy": draw(st.booleans())}


def under(t, fn):
  """Runs fn once or more in the transform."""
  x = jnp.ones((2,), jnp.float32)

  def body(x):
    fn()
    return x * 2.0

  if t == "jit":
    jax.jit(body)(x)
  elif t == "scan":
    jax.lax.scan(lambda c, _: (body(c), None), x, None, length=2)
  elif t == "cond":
    jax.lax.cond(True, body, lambda x: x, x)
  elif t == "eval_shape":
    jax.eval_shape(body, x)
  elif t == "make_jaxpr":
    jax.make_jaxpr(body)(x)
  elif t == "checkpoint":
    jax.checkpoint(body)(x)
  elif t == "nnx.jit":
    nnx.jit(lambda m, x: body(x))(Mod(), x)
  elif t == "nnx.grad":
    nnx.grad(lambda m, x: (body(x) * m.p).sum())(Mod(), x)
  else:
    nnx.remat(lambda m, x: body(x))(Mod(), x)


def run_refused(case, rec):
  def act(ctx, a):
    if a == "split":
      new = ctx.partition().merge()
      return [new.make_rng("params"), new.make_rng("noise")]
    return [ctx.make_rng(a)]

  def refused(ctx, a):
    try:
      ctx.partition() if a == "split" else ctx.make_rng(a)
    except nnx.TraceContextError:
      return
    raise AssertionError(f"{a} allowed inside a transform on a context made outside")

  def history(with_refused):
    ctx = nnx.context(7, noise=8)
    keys = []
    for where, acts in case["steps"]:
      if where == "own":
        keys += act(ctx, acts[0])
      elif with_refused:
        c = ctx.copy() if case["copy"] else ctx
        under(where, lambda: [refused(c, a) for a in acts])
    keys += [k for a in ("params", "noise", "split", "noise") for k in act(ctx, a)]
    return keys

  rec.nt(True)
  rec.tag("inside a transform", case["inner"] is not None)
  for w, _ in case["steps"]:
    rec.tag(w)
  if case["inner"] == "jit":  # the whole history at a level of its own
    got, want = jax.jit(lambda: (history(True), history(False)))()
  else:
    got, want = history(True), history(False)
  got, want = [[np.asarray(k).tolist() for k in ks] for ks in (got, want)]
  assert got == want, "a refused draw or split used up keys"


CHECKS = [
    Check("refused", refused_cases, run_refused, quick=400, thorough=8000),
    Check("levels", cases, run, quick=3500, thorough=80000),
]
