"""C11 nnx.jit equals calling the function eagerly, state included."""
import functools
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from jax.sharding import Mesh, NamedSharding
from jax.sharding import PartitionSpec as PS

import nnx
from vlib import graphs as G
from vlib import nest as N
from vlib import programs as P
from vlib.driver import Check

RULE = (
    "Cases: a module program, a function of the module (access chain, extra array arguments in containers, static "
    "arguments, a context), nnx.jit options (stateful or not, static by number or name, nested in another nnx.jit), and "
    "a series of up to 4 calls with other values, switching static arguments and raising in between. Oracle: the "
    "program run eagerly on a plain reference model. Also the options that place data (shardings, device, backend, "
    "donation, inline, keep_unused), on 4 devices: same values, placed as asked; and functions that "
    "also remove variables: the others end up as they do eagerly; and one jitted function of modules edited between the "
    "calls (statics, kinds, metadata, attributes, submodules, sharing, classes; hundreds of variables). Also nnx.jit around trees of up to three transforms (jit, grad, remat, scan, in sequence, repeated, shared; creating state, drawing random numbers), against plain jax and loops. "
    "Non-trivial: the calls change, create "
    "or share state, or placement is asked for."
)

ASSUMPTIONS = [
    "functions do not add submodules, tie them or edit static attributes under the transform: these are not variables or node "
    "attributes, and nnx.jit refuses the first and does not carry out the others",
]

TOL = 2e-5


@st.composite
def cases(draw):
  spec = draw(P.programs(max_mods=3, max_ops=4))
  path, i = draw(P.walk_path(spec, 0, 3))
  if spec["mods"][i]["cls"] not in ("P", "P2"):
    path, i = [], 0
  return {
      "g": spec, "path": path, "i": i, "stateful": draw(st.sampled_from([True, True, True, False])),
      "nest": draw(st.sampled_from([0, 0, 0, 1])), "static": draw(st.sampled_from([None, "num", "name", "negnum"])),
      "out": draw(st.sampled_from(["plain", "dict", "pair"])), "names": draw(st.sampled_from(["list", "str", "tuple"])),
      "calls": draw(st.lists(
          st.fixed_dictionaries({
              "x": st.integers(0, 9), "e": st.integers(0, 9), "k": st.sampled_from([1, 2]), "ctx": st.sampled_from([False, True, True, "flags", "noise", "none"]),
              "raises": st.sampled_from([False, False, False, False, True]), "poke": st.booleans(),
          }), min_size=2, max_size=4)),
  }


class Boom(Exception):
  pass


def run(case, rec):
  spec = case["g"]
  model = P.model_of(spec)
  objs = P.build_all(spec)
  module = objs[0]
  path, i, out_kind = case["path"], case["i"], case["out"]

  def finish(y, x, extra):
    if out_kind == "plain":
      return y
    if out_kind == "dict":
      return {"y": y, "n": None, "e": extra["e"] * 2}
    return (y, [x, extra["t"][0]])

  def fun(m, x, extra, k=1, ctx=None, raises=False):
    if case["static"]:  # a number the program itself needs
      k = sum(1 for _ in range(k))
    y = P.interp(P.LIVE, P.LIVE.follow(m, path), prog, x * k, ctx)
    if raises:
      raise Boom()
    return finish(y * extra["e"], x, extra)

  prog = P.freeze(spec["mods"][i]["prog"])
  kw = {"static_argnames": ["raises"]}
  if case["static"] == "num":
    kw["static_argnums"] = 3
  elif case["static"] == "name":
    kw["static_argnames"] = ["k", "raises"]
  elif case["static"] == "negnum":
    kw["static_argnums"] = (3,)
  if case.get("names") == "str" and case["static"] != "name":
    kw["static_argnames"] = "raises"
  elif case.get("names") == "tuple":
    kw["static_argnames"] = tuple(kw["static_argnames"])
  traces = []
  said = any(c["ctx"] == "none" for c in case["calls"])

  @functools.wraps(fun)
  def counted(*a, **k):
    traces.append(1)
    return fun(*a, **k)

  kw = P.lean(case, {"stateful": case["stateful"], **kw}, stateful=True)
  f = nnx.jit(counted, **kw)
  if case["nest"]:
    inner = f
    outer_kw = dict(kw)

    def outer(m, x, extra, k=1, ctx=None, raises=False):
      more = {} if ctx is None and not said else {"ctx": ctx}
      if case["static"] == "name":
        return inner(m, x, extra, k=k, raises=raises, **more)
      return inner(m, x, extra, k, raises=raises, **more)

    f = nnx.jit(outer, **outer_kw)
  rec.tag("nested", bool(case["nest"]))
  rec.tag("not stateful", not case["stateful"])
  rec.tag("chain", bool(path))
  for n, call in enumerate(case["calls"]):
    if call["poke"] and n:  # the module changes between calls
      st_ = P.model_state(model)
      for p, (a, j, name) in sorted(st_.items())[:1]:
        if a[0] == "var" and not isinstance(a[3], tuple):
          v = jnp.asarray(P.base(call["x"] + 3))
          P.Ref(model).put(j, name, v)
          leaf = module.mutable_state_dict()[p]
          leaf.value = v
          rec.tag("changed between calls")
    x = jnp.asarray(P.base(call["x"]))
    extra = {"e": jnp.asarray(P.base(call["e"])), "t": (jnp.asarray(P.base(call["x"] + 1)),)}
    new = P.copy_model(model)
    kwargs, rctx = {}, None
    if call["ctx"] == "none":
      kwargs["ctx"] = None  # said, not left out
    elif call["ctx"]:
      rec.tag("ctx")
      flags = {"train": bool(call["k"] == 1)}
      streams = {"params": 3, "noise": call["e"]}
      if call["ctx"] != True and not P.uses_rng(spec):  # a context need not have streams
        streams = {} if call["ctx"] == "flags" else {"noise": call["e"]}
        rec.tag("ctx streams", len(streams))
      make = lambda: nnx.context(**streams, flags=flags)
      kwargs["ctx"] = make()
      rctx = make().partition().merge()
      if case["nest"]:
        rctx = rctx.partition().merge()
    y = P.interp(P.Ref(new), P.Ref(new).follow(0, path), prog, x * call["k"], rctx)
    want = finish(y * extra["e"], x, extra)
    before = G.canon(module)
    ids = [id(m) for m in G.walk_modules(module)[0]]
    if call["raises"]:
      kwargs["raises"] = True
    args = (x, extra, call["k"])
    if case["static"] == "name" or (case["static"] is None and n % 2):
      args, kwargs = (x, extra), {**kwargs, "k": call["k"]}
    try:
      got = f(module, *args, **kwargs)
    except Boom:
      assert call["raises"]
      assert G.canon(module) == before, "the function raised and the module was changed"
      rec.tag("raised")
      continue
    assert not call["raises"], "the function's exception was swallowed"
    P.same_tree(got, want, TOL, f"output of call {n}")
    assert [id(m) for m in G.walk_modules(module)[0]] == ids, "the module's submodules were replaced"
    changed = str(new) != str(model)
    rec.nt(changed)
    rec.tag("creates state", len(P.model_state(new)) != len(P.model_state(model)))
    if case["stateful"]:
      model = new
      P.same_module(module, model, TOL, f"module after call {n}")
    else:
      assert G.canon(module) == before, "stateful=False changed the module"
    if kwargs.get("ctx") is not None:  # the caller's context went on by one split
      c = kwargs["ctx"]
      r = make()
      r.partition()
      assert c.get_flag("train") == r.get_flag("train")
      for s in ("params", "noise"):
        assert c.has_rng(s) == r.has_rng(s) == (s in streams)
      for s in streams:
        assert (c.make_rng(s) == r.make_rng(s)).all(), "the context was not split exactly once"
  assert traces


# ------------------------------------------------------------------ options that only pass through


@st.composite
def option_cases(draw):
  where = st.sampled_from(["r", "r", "s0", "s1"])  # replicated, or the first / second dimension over the devices
  return {
      "stateful": draw(st.booleans()),
      "inline": draw(st.booleans()), "keep_unused": draw(st.booleans()), "donate": draw(st.sampled_from([(), (), 1, (1, 2), 0])),
      "place": draw(st.sampled_from(["none", "device", "backend", "in", "out", "both", "out", "both"])),
      "device": draw(st.integers(0, 3)), "in": draw(st.tuples(where, where, where)), "out": draw(st.tuples(where, where, where)),
      "form": draw(st.sampled_from(["tuple", "tuple", "one"])), "seed": draw(st.integers(0, 20)), "calls": draw(st.integers(1, 3)),
      "unused": draw(st.booleans()), "deep": draw(st.booleans()),
  }


class Opt(nnx.Module):
  def __init__(self, seed, deep):
    self.w = nnx.Param(jnp.asarray(arr(seed)), note="w")
    self.n = nnx.BatchStat(jnp.asarray(arr(seed + 1)))
    if deep:
      self.sub = Opt(seed + 3, False)

  def step(self, x):
    self.n = self.n * 0.5 + x
    y = self.w * x + self.n
    return self.sub.step(y) if "sub" in vars(self) else y


def arr(seed):
  return ((np.arange(16) * 5 + seed * 7) % 13 - 6).reshape(4, 4).astype(np.float32) * 0.25


def run_options(case, rec):
  """Options are those of jax.jit for a function of the split module: placement as asked, same values."""
  mesh = Mesh(np.array(jax.devices()[:4]), ("d",))
  sh = {"r": NamedSharding(mesh, PS()), "s0": NamedSharding(mesh, PS("d")), "s1": NamedSharding(mesh, PS(None, "d"))}
  kw = {"inline": case["inline"], "keep_unused": case["keep_unused"]}
  if case["donate"] != ():
    kw["donate_argnums"] = case["donate"] if isinstance(case["donate"], int) else tuple(case["donate"])
  place, stateful = case["place"], case["stateful"]
  ins = outs = None
  if place == "device":
    kw["device"] = jax.devices()[case["device"]]
  elif place == "backend":
    kw["backend"] = "cpu"
  if place in ("in", "both"):
    ins = [sh[k] for k in case["in"]]
    if case["form"] == "one":
      ins = ins[:1] * 3
    kw["in_shardings"] = ins[0] if case["form"] == "one" else tuple(ins)
  if place in ("out", "both"):
    a, b, c = (sh[k] for k in case["out"])
    if place == "both":
      a = ins[0]  # what comes out of one call goes into the next, and jax refuses arrays placed otherwise
    if case["form"] == "one":
      b = c = a
    outs = (a, b, c)  # of the updates, and of the two outputs
    tree = {"y": b, "x": c}
    kw["out_shardings"] = a if case["form"] == "one" else (a, tree) if stateful else tree
  seen = []

  def fun(m, x, e):
    seen.append(type(m))
    y = m.step(x)
    return {"y": y if case["unused"] else y + e, "x": (x * 2).T}

  f = nnx.jit(fun, **P.lean(case, {"stateful": stateful, **kw}, stateful=True))
  module, ref = Opt(case["seed"], case["deep"]), Opt(case["seed"], case["deep"])
  rec.tag(place)
  rec.tag("donated", case["donate"] != ())
  rec.nt(place != "none")
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    for n in range(1 if place == "in" and stateful else case["calls"]):
      x, e = arr(case["seed"] + n), arr(case["seed"] + 2 * n)
      if not stateful:
        ref = Opt(case["seed"], case["deep"])
      want = fun(ref, jnp.asarray(x), jnp.asarray(e))
      if case["donate"] == 0 and not stateful:
        module = Opt(case["seed"], case["deep"])  # the variables of the last one were given away
      got = f(module, jnp.asarray(x), jnp.asarray(e))
      P.same_tree(got, want, TOL, f"output of call {n}")
      if case["donate"] == 0 and not stateful:
        continue
      state = module.get_state()
      plain = (ref if stateful else Opt(case["seed"], case["deep"])).get_state()
      assert list(state) == list(plain)
      for k in state:
        assert type(state[k]) is type(plain[k]) and vars(state[k]).get("note") == vars(plain[k]).get("note")
        P.same_tree(state[k].value, plain[k].value, TOL, f"{k} after call {n}")
      if place == "device":
        assert got["y"].devices() == {kw["device"]}, f"output on {got['y'].devices()}"
        assert not stateful or all(v.value.devices() == {kw["device"]} for v in state.values()), "updates on another device"
      if outs:
        assert got["y"].sharding.is_equivalent_to(outs[1], 2) and got["x"].sharding.is_equivalent_to(outs[2], 2), "sharding of the outputs"
        if stateful:
          for k in state:
            assert state[k].value.sharding.is_equivalent_to(outs[0], 2), f"sharding of {k}"
  assert len(seen) >= 2
  check_passed_on(case, fun, f, kw)


def check_passed_on(case, fun, f, kw):
  """The traced call has the options of jax.jit for a function of the split module."""
  assert f.__name__ == fun.__name__ and f.__doc__ == fun.__doc__, "the function's name"
  proto, moduledef = Opt(case["seed"], case["deep"]).partition()

  def plain(state, x, e):
    m = moduledef.merge(state)
    out = fun(m, x, e)
    return (m.get_state(), out) if case["stateful"] else out

  def calls_in(g):
    x = jnp.asarray(arr(1))
    eqns = [q for q in jax.make_jaxpr(g)(x, x).eqns if q.primitive.name == "pjit"]
    return [(q.params["keep_unused"], q.params["inline"], sum(q.params["donated_invars"]), [sum(hasattr(z, "is_equivalent_to") for z in q.params[k]) for k in ("in_shardings", "out_shardings")]) for q in eqns]

  got = calls_in(lambda x, e: f(Opt(case["seed"], case["deep"]), x, e))
  want = calls_in(lambda x, e: jax.jit(plain, **kw)(Opt(case["seed"], case["deep"]).get_state(), x, e))
  assert got == want, f"traced with (keep_unused, inline, donated arrays, arrays placed) {got} instead of {want}"


# ------------------------------------------------------------------ functions that also remove variables


@st.composite
def removal_cases(draw):
  names = ["a", "b", "c", "d"]
  act = st.sampled_from(["keep", "keep", "set", "set", "pop", "del"])
  return {
      "top": {n: draw(act) for n in names}, "sub": {n: draw(act) for n in names}, "create": draw(st.sampled_from([0, 0, 1, 2])),
      "seed": draw(st.integers(0, 9)), "calls": draw(st.integers(1, 2)),
  }


class Bag(nnx.Module):
  def __init__(self, seed, sub=True):
    for i, (n, t) in enumerate(zip("abcd", (nnx.Param, nnx.BatchStat, nnx.Cache, nnx.Intermediate))):
      setattr(self, n, t(jnp.asarray(P.base(seed + i)), note=n))
    if sub:
      self.sub = Bag(seed + 5, False)


def run_removal(case, rec):
  """What is not removed ends up as it does eagerly (removal itself does not reach the caller's module)."""
  rec.nt(True)

  def fun(m, x):
    total = x
    for obj, acts in ((m, case["top"]), (m.sub, case["sub"])):
      for n, act in acts.items():
        if n not in vars(obj):
          continue
        v = getattr(obj, n)
        total = total + v
        if act == "set":
          setattr(obj, n, v * 0.5 + x)
        elif act == "del":
          delattr(obj, n)
      for k in range(case["create"]):
        setattr(obj, f"new{k}", nnx.BatchStat(total + k))
    pops = {n for acts in (case["top"], case["sub"]) for n, act in acts.items() if act == "pop"}
    if pops:
      popped = m.pop_state(lambda path, v: (lambda p: (case["sub"][p[1]] if len(p) == 2 and p[1] in case["sub"] else case["top"].get(p[0]) if len(p) == 1 else None) == "pop")(split(path)))
      for v in popped.values():
        total = total + jax.tree_util.tree_leaves(v)[0]
    return total

  def split(path):
    return path.split("/") if isinstance(path, str) else list(path)

  m, ref = Bag(case["seed"]), Bag(case["seed"])
  f = nnx.jit(fun)
  for n in range(case["calls"]):
    x = jnp.asarray(P.base(case["seed"] + n))
    before = set(ref.get_state())
    want = fun(ref, x)
    got = f(m, x)
    P.same_tree(got, want, TOL, f"output of call {n}")
    a, b = m.get_state(), ref.get_state()
    removed = before - set(b)
    rec.tag("removed", bool(removed))
    assert set(a) - removed == set(b), f"state {sorted(a)} instead of {sorted(b)}"
    for k in b:
      assert type(a[k]) is type(b[k]) and vars(a[k]).get("note") == vars(b[k]).get("note"), k
      P.same_tree(a[k].value, b[k].value, TOL, f"{k} after call {n}")
    if removed:
      break


# ------------------------------------------------------------------ a module edited between the calls


EDITS = ["static", "static", "nested static", "add static", "del static", "set", "kind", "meta", "add var", "del var", "replace sub", "share", "unshare", "back", "class"]


@st.composite
def edit_cases(draw):
  return {
      "seed": draw(st.integers(0, 9)), "stateful": draw(st.booleans()), "many": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 0, 3, 40, 90])),
      "nest": draw(st.sampled_from([False, False, True])), "two": draw(st.sampled_from([False, False, True])),
      "steps": draw(st.lists(st.tuples(st.sampled_from(EDITS), st.integers(0, 3), st.booleans()).map(list), min_size=2, max_size=6)),
  }


class Edit(nnx.Module):
  def __init__(self, seed, deep, many=0):
    self.w = nnx.Param(jnp.asarray(P.base(seed)), note=0)
    self.n = nnx.BatchStat(jnp.asarray(P.base(seed + 1)))
    self.mode, self.opts = "add", ("x", 0)
    for i in range(many):
      setattr(self, f"a{i}", nnx.BatchStat(jnp.asarray(P.base(seed + i))))
    if deep:
      self.s, self.t = Edit(seed + 2, False, many), Edit(seed + 4, False)

  def run(self, x):
    """Depends on everything an edit changes."""
    y = self.w + x if self.mode == "add" else self.w * x if self.mode == "mul" else self.w - x * 2
    y = y * (1.0 + 0.25 * self.opts[1]) + (0.5 if vars(self).get("flag") == "on" else 0.0)
    y = y + 3.0 * isinstance(vars(self)["w"], nnx.Cache) + 0.125 * vars(self)["w"].note
    if "b" in vars(self):
      y = y + self.b * 0.25
    for i in range(sum(k[0] == "a" and k[1:].isdigit() for k in vars(self))):
      y = y + getattr(self, f"a{i}") * 0.125
      setattr(self, f"a{i}", getattr(self, f"a{i}") * 0.5 + x)
    self.n = self.n * 0.5 + y
    y = self.end(y)
    if "s" in vars(self):
      y = self.t.run(self.s.run(y) * 0.5)
    return y

  def end(self, y):
    return y


class Edit2(Edit):
  def end(self, y):
    return y - 1.0


def edit(m, what, k, deep, seed):
  """Changes the module in place, as its owner does between two calls."""
  o = m.s if deep else m
  if what == "static":
    o.mode = ["add", "mul", "sub", "add"][k]
  elif what == "nested static":
    o.opts = ("x", k)
  elif what == "add static":
    o.flag = ["on", "off", "on", 3][k]
  elif what == "del static":
    if "flag" in vars(o):
      del o.flag
  elif what == "set":
    o.w = jnp.asarray(P.base(seed + k))
  elif what == "kind":
    v = vars(o)["w"]
    del o.w
    o.w = [nnx.Param, nnx.Cache][k % 2](v.value, note=v.note)
  elif what == "meta":
    v = vars(o)["w"]
    del o.w
    o.w = type(v)(v.value, note=k)
  elif what == "add var":
    o.b = jnp.asarray(P.base(seed + k)) if "b" in vars(o) else nnx.Cache(jnp.asarray(P.base(seed + k)))
  elif what == "del var":
    if "b" in vars(o):
      del o.b
  elif what == "replace sub":
    setattr(m, "st"[k % 2], Edit(seed + k, False))
  elif what == "share":
    m.t = m.s
  elif what == "unshare":
    if m.t is m.s:
      m.t = Edit(seed + 4, False)
  elif what == "class":
    setattr(m, "st"[k % 2], [Edit, Edit2][k // 2](seed + k, False))


def run_edits(case, rec):
  """One jitted function; the module's statics, kinds, metadata, sharing and classes change from call to call."""
  modules = [Edit(case["seed"], True, case["many"])] + ([Edit(case["seed"] + 1, True)] if case["two"] else [])
  refs = [Edit(case["seed"], True, case["many"])] + ([Edit(case["seed"] + 1, True)] if case["two"] else [])
  f = nnx.jit(lambda m, x: m.run(x), stateful=case["stateful"])
  if case["nest"]:
    inner = f
    f = nnx.jit(lambda m, x: inner(m, x) * 2, stateful=case["stateful"])
  rec.nt(any(s[0] != "set" for s in case["steps"]))
  rec.tag("many variables", case["many"] > 30)
  rec.tag("nested", case["nest"])
  for n, (what, k, deep) in enumerate([["back", 0, False], *case["steps"]]):
    rec.tag(what)
    for m in (*modules, *refs):
      edit(m, what, k, deep, case["seed"] + n)
    x = jnp.asarray(P.base(case["seed"] + n))
    for module, ref in zip(modules, refs):
      before = G.canon(module)
      held = G.canon(ref)
      # eagerly, on a module of its own when the updates are not kept
      target = ref if case["stateful"] else ref.clone()
      want = target.run(x) * (2 if case["nest"] else 1)
      got = f(module, x)
      P.same_tree(got, want, TOL, f"output of call {n}, after {what}")
      if not case["stateful"]:
        assert G.canon(module) == before and G.canon(ref) == held
        continue
      a, b = module.get_state(), ref.get_state()
      assert sorted(a) == sorted(b), f"state {sorted(a)} instead of {sorted(b)}"
      for p in b:
        assert type(a[p]) is type(b[p]) and vars(a[p]).get("note") == vars(b[p]).get("note"), p
        P.same_tree(a[p].value, b[p].value, TOL, f"{p} after call {n}, after {what}")
      assert (module.t is module.s) == (ref.t is ref.s)
      assert [vars(o).get(a) for o in (module, module.s, module.t) for a in ("mode", "opts", "flag")] == [
          vars(o).get(a) for o in (ref, ref.s, ref.t) for a in ("mode", "opts", "flag")], "static attributes"


CHECKS = [
    Check("nested", N.cases("jit"), N.run, quick=80, thorough=3000),
    Check("calls", cases, run, quick=900, thorough=15000),
    Check("edits", edit_cases, run_edits, quick=80, thorough=2500),
    Check("options", option_cases, run_options, quick=200, thorough=3000),
    Check("removal", removal_cases, run_removal, quick=100, thorough=1500),
]
