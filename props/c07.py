"""C07 The functional API is pure and agrees with calling the module."""
from hypothesis import strategies as st

import jax
import jax.numpy as jnp
import nnx
from vlib import programs as P
from vlib.driver import Check

RULE = (
    "Cases: a module program (graph with sharing, cycles, Dict and Sequence modules; a small stateful program per "
    "module, which can also change static attributes, submodules and the set of variables), an access chain through attributes and items ending in a method, a call form (apply of a module, a split "
    "module, a definition; call of a split module) and up to 3 consecutive calls. Oracle: the same program run on a "
    "plain reference model and on the live module. Non-trivial: the chain has an access besides the method, or state "
    "changes. A second check calls modules that are empty or false (as `bool` sees them) the same ways."
)

METHODS = ["", "go", "pair", "fail", "act"]


@st.composite
def cases(draw):
  spec = draw(P.programs(structure=True))
  for m in spec["mods"]:
    if m["cls"] in ("P", "P2"):
      m["attrs"].append(["act", ["act"]])
  calls = []
  for _ in range(draw(st.integers(1, 3))):
    path, i = draw(P.walk_path(spec, 0, 4))
    if spec["mods"][i]["cls"] not in ("P", "P2"):
      path, i = [], 0
    calls.append({
        "path": path, "i": i, "meth": draw(st.sampled_from(METHODS)), "x": draw(st.integers(0, 9)),
        "ctx": draw(st.booleans()),
    })
  return {
      "g": spec, "calls": calls, "form": draw(st.sampled_from(["module", "pure", "pure2", "def", "def2", "call", "call2", "defs", "pures", "calls"])),
      "order": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6)),
      "keep": draw(st.booleans()),
  }


def chain(obj, path, meth):
  for kind, key in path:
    obj = getattr(obj, key) if kind == "a" else obj[key]
  return getattr(obj, meth) if meth else obj


def reference(model, call, x, ctx):
  """(output or exception type, model afterwards) on the plain model."""
  model = P.copy_model(model)
  env = P.Ref(model)
  i, meth = call["i"], call["meth"]
  if meth == "act":
    return P.act(x), model
  y = P.interp(env, i, model[i]["attrs"]["prog"][1], x * 0.5 if meth == "go" else x, ctx)
  if meth == "pair":
    return {"y": y, "x": (x, None)}, model
  if meth == "fail":
    return KeyError, model
  return y, model


def ctx_of(call):
  if not call["ctx"] or call["meth"] == "act":
    return {}
  return {"ctx": nnx.context(params=3, noise=4, flags={"train": True})}


def args_of(call, x):
  return (x, 0.5) if call["meth"] == "go" else (x,)


PAIR = (nnx.Param, ...)


def overlapping(state, order):
  """States that make up the given one, when the later ones win."""
  old = jax.tree_util.tree_map(lambda v: v * 0 + 1 if jnp.asarray(v).dtype != bool else ~v, state)
  first, rest = state.partition(*PAIR)
  parts = [[old, old.filter(nnx.Param), first, rest, old.filter(nnx.BatchStat), nnx.State({})][k] for k in order]
  return (*parts, first, rest) if order[0] % 2 else (*parts, rest, first) if order[0] % 4 else (*parts, state)


def run(case, rec):
  spec, form = case["g"], case["form"]
  model = P.model_of(spec)
  module = P.build(spec)
  for n, call in enumerate(case["calls"]):
    rec.tag(form)
    rec.tag("method " + (call["meth"] or "__call__"))
    x = jnp.asarray(P.base(call["x"]))
    want, after = reference(model, call, x, **{"ctx": ctx_of(call).get("ctx")})
    before = P.snapshot(module)
    changed = [k for k in range(len(model)) if str(after[k]) != str(model[k])]
    rec.nt(bool(call["path"]) or bool(changed))
    rec.tag("chain of 2 or more", len(call["path"]) >= 2)
    rec.tag("changes state", bool(changed))
    rec.tag("no variables", not any(a[0] in ("var", "arr") for m in model for a in m["attrs"].values()))
    rec.tag("changes the structure", [shape_of(m) for m in model] != [shape_of(m) for m in after])

    # the live module ends where the reference model says
    live = module.clone()
    try:
      got = chain(live, call["path"], call["meth"])(*args_of(call, x), **ctx_of(call))
    except KeyError as e:
      assert want is KeyError and e.args == ("fail",), e
    else:
      P.same_tree(got, want, 0, "output of the live module")
    P.same_module(live, after, 0, "live module")

    if form == "module":
      proxies = [module.apply]
    elif form == "pure":
      src = module.partition()
      proxies = [src.apply]
    elif form == "pure2":
      src = module.partition(*PAIR)
      proxies = [src.apply]
    elif form == "def":
      src = module.partition()
      proxies = [src.moduledef.apply(src.states)]
    elif form == "def2":
      src = module.partition(*PAIR)
      proxies = [src.moduledef.apply(*src.states)]
    elif form == "call":
      src = module.partition()
      proxies = [src.call]
    elif form == "call2":
      src = module.partition(*PAIR)
      proxies = [src.call]
    else:  # states with common entries, the later ones win
      whole = module.partition()
      parts = overlapping(whole.states, case["order"])
      src = nnx.Pure.new(parts, whole.moduledef)
      proxies = [src.moduledef.apply(*parts) if form == "defs" else src.apply if form == "pures" else src.call]
      rec.tag("overlapping states", len(parts) > 2)
    states = None
    if form != "module":
      states = src.states if isinstance(src.states, tuple) else (src.states,)
      states_before = [P_d(s) for s in states]
    # a proxy chain can be kept and called again with the same result
    f = chain(proxies[0], call["path"], call["meth"])
    for again in range(2):
      try:
        res = f(*args_of(call, x), **ctx_of(call))
      except KeyError as e:
        assert want is KeyError and e.args == ("fail",), e
        res = None
      else:
        assert want is not KeyError, "the method's exception was swallowed"
        if form.startswith("call"):
          P.same_tree(res, want, 0, "output of call")
        else:
          assert isinstance(res, tuple) and len(res) == 2, res
          out, new = res
          P.same_tree(out, want, 0, f"output of apply ({form})")
          if form == "module":
            assert isinstance(new, nnx.Module) and new is not module
            P.same_module(new, after, 0, "module returned by apply")
          else:
            assert isinstance(new, nnx.Pure), type(new)
            P.same_state(new.get_state(), after, 0, "state returned by apply")
            P.same_module(new.merge(), after, 0, "split module returned by apply")
      assert P.snapshot(module) == before, f"the original module was changed by {form}"
      if states is not None:
        assert [P_d(s) for s in states] == states_before, f"the input states were changed by {form}"
        P.same_module(src.merge(), model, 0, "the input split module")
    if want is KeyError:
      continue
    if case["keep"]:  # go on from the result
      model = after
      if form == "module":
        module = res[1]
        # the returned module does not share anything with the original: mutating it is the next call's business
      elif not form.startswith("call"):
        module = res[1].merge()
      else:
        module = live


def shape_of(m):
  return {n: a[1] if a[0] in ("stat", "mod") else a[0] for n, a in m["attrs"].items()}


def P_d(state):
  from vlib import graphs as G

  return G.d_state(state)


# ---------------------------------------------------------------- callables that are empty or false


class EmptyDict(nnx.Dict):
  def __call__(self, x):
    return ("D", x)

  def go(self, x):
    return ("Dgo", x)


class EmptySequence(nnx.Sequence):
  def __call__(self, x):
    return ("S", x)

  def go(self, x):
    return ("Sgo", x)


class False_(nnx.Module):
  def __init__(self):
    self.n = nnx.Cache(jnp.zeros(()))

  def __bool__(self):
    return False

  def __call__(self, x):
    self.n = self.n + 1
    return ("F", x)

  def go(self, x):
    self.n = self.n + 2
    return ("Fgo", x)


class Sized(False_):
  def __bool__(self):
    return bool(len(self))

  def __len__(self):
    return 0

  def __getitem__(self, k):
    raise KeyError(k)


class Root(nnx.Module):
  def __init__(self, kid):
    self.n = nnx.Cache(jnp.zeros(()))
    self.kid = kid

  def __call__(self, x):
    self.n = self.n + 1
    return ("R", x)

  def go(self, x):
    self.n = self.n + 2
    return ("Rgo", x)


EMPTY = {"D": lambda: EmptyDict(), "S": lambda: EmptySequence([]), "F": False_, "Z": Sized}


@st.composite
def empty_cases(draw):
  return {
      "kind": draw(st.sampled_from(sorted(EMPTY))), "depth": draw(st.integers(0, 3)),
      "via": draw(st.lists(st.sampled_from(["root", "dict", "seq"]), min_size=3, max_size=3)),
      "meth": draw(st.sampled_from(["", "go"])), "form": draw(st.sampled_from(["module", "pure", "pure2", "def", "call"])),
      "x": draw(st.integers(0, 9)), 
  }


def run_empty(case, rec):
  m, keys = EMPTY[case["kind"]](), []
  for via in case["via"][: case["depth"]]:
    if via == "root":
      m, k = Root(m), "kid"
    elif via == "dict":
      m, k = nnx.Dict(kid=m), "kid"
    else:
      m, k = nnx.Sequence([m]), 0
    keys.insert(0, (via, k))
  rec.tag(case["kind"])
  rec.tag("depth", case["depth"])

  def reach(o):
    for via, k in keys:
      o = getattr(o, k) if via == "root" else o[k]
    return o

  form, x = case["form"], case["x"]
  want = (case["kind"] if case["kind"] != "Z" else "F") + case["meth"]
  if form == "module":
    proxy = m.apply
  elif form == "pure":
    proxy = m.partition().apply
  elif form == "pure2":
    proxy = m.partition(nnx.Param, ...).apply
  elif form == "def":
    src = m.partition()
    proxy = src.moduledef.apply(src.states)
  else:
    proxy = m.partition().call
  f = reach(proxy)
  res = (getattr(f, case["meth"]) if case["meth"] else f)(x)
  rec.nt(True)
  if form == "call":
    assert res == (want, x), f"call reached {res}, expected {want}"
    return
  out, new = res
  assert out == (want, x), f"apply reached {out}, expected {want}"
  if form != "module":
    new = new.merge()
  if case["kind"] in "FZ":
    assert float(reach(new).n) == (2 if case["meth"] else 1), "the state of the called module was not updated"
    assert float(reach(m).n) == 0, "the original was changed"
  assert type(new) is type(m) and sorted(new.get_state()) == sorted(m.get_state())


CHECKS = [
    Check("empty", empty_cases, run_empty, quick=800, thorough=20000),
    Check("programs", cases, run, quick=5000, thorough=100000),
]
