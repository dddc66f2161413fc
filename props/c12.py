"""C12 nnx.grad returns exact gradients for the selected state only."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import filters as F
from vlib import graphs as G
from vlib import nest as N
from vlib import programs as P
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: a module program, a wrt filter (default, types, nested All / Not / any-of, path and value predicates, "
    "everything), options (stateful, has_aux), the loss inside or outside nnx.jit or jax.jit, extra arguments, a split "
    "context, and a series of up to 3 steps that also apply the gradients. Oracle: jax.grad of the program run on a "
    "plain reference model as a function of the selected entries. Also modules with complex and integer variables, with "
    "the holomorphic and allow_int options, against jax.grad with the same options (errors included). Also nnx.grad around trees of up to three transforms (jit, grad, remat, scan, in sequence, repeated, shared; creating state, drawing random numbers), against plain jax and loops. "
    "Non-trivial: some "
    "gradient is not zero and not all state is selected, or the function changes state, or a selected entry is complex "
    "or integer."
)

TOL = 3e-5

ATOMS = st.one_of(
    st.sampled_from(["Param", "Param", "BatchStat", "Variable", "Cache", "CustomVar", "Node", "Array"]).map(lambda n: ["type", n]),
    st.sampled_from(["a", "w", "m", "/", "v1", "v10"]).map(lambda s: ["path", s]),
    st.sampled_from([["none"], ["sharded"], ["len", 3]]),
)
WRT = st.one_of(
    st.none(), st.none(), ATOMS, ATOMS,
    st.recursive(ATOMS, lambda ch: st.one_of(
        st.lists(ch, max_size=3).map(lambda x: ["tuple", x]), st.lists(ch, max_size=2).map(lambda x: ["All", x]),
        ch.map(lambda x: ["Not", x])), max_leaves=4),
    st.just(["Not", ["none"]]),
)


@st.composite
def cases(draw):
  spec = draw(P.programs(max_mods=3, max_ops=4))
  path, i = draw(P.walk_path(spec, 0, 2))
  if spec["mods"][i]["cls"] not in ("P", "P2"):
    path, i = [], 0
  return {
      "g": spec, "path": path, "i": i, "wrt": draw(WRT), "stateful": draw(st.sampled_from([True, True, False])),
      "aux": draw(st.booleans()), "wrap": draw(st.sampled_from([None, None, None, "nnx.jit", "jax.jit"])),
      "steps": draw(st.lists(
          st.fixed_dictionaries({
              "x": st.integers(0, 9), "ctx": st.booleans(), "raises": st.sampled_from([False] * 5 + [True]),
          }), min_size=1, max_size=3)),
  }


class Boom(Exception):
  pass


def matches(f, path, a):
  """Reference meaning of the filter on an entry of the model."""
  spec = ["val", ["j"]] if a[0] == "arr" else ["var", a[1], None, [["sharding", a[2]["sharding"]]] if a[2].get("sharding") else []]
  return F.match(["type", "Param"] if f is None else f, path, spec)


def loss_of(y, x):
  return jnp.sum(y * y) + 0.5 * jnp.sum(y * x)


def run(case, rec):
  spec = case["g"]
  model = P.model_of(spec)
  objs = P.build_all(spec)
  module = objs[0]
  path, i = case["path"], case["i"]
  prog = P.freeze(spec["mods"][i]["prog"])
  f, stateful, has_aux, wrap = case["wrt"], case["stateful"], case["aux"], case["wrap"]
  raising = [False]

  def fun(m, x, extra, pctx):
    ctx = None if pctx is None else pctx.merge()
    y = P.interp(P.LIVE, P.LIVE.follow(m, path), prog, x, ctx)
    if raising[0]:
      raise Boom()
    loss = loss_of(y, x) * extra["s"]
    return (loss, {"y": y, "none": None, "x": [x]}) if has_aux else loss

  args = () if f is None else (F.make(f),)
  g = nnx.grad(fun, *args, **P.lean(case, dict(stateful=stateful, has_aux=has_aux), stateful=True, has_aux=False))
  assert g.__name__ == fun.__name__ and g.__doc__ == fun.__doc__, "the function's name"
  outer = g
  if wrap == "nnx.jit":
    outer = nnx.jit(lambda m, *a: g(m, *a))
  rec.tag(wrap or "eager")
  for n, step in enumerate(case["steps"]):
    x = jnp.asarray(P.base(step["x"]))
    extra = {"s": jnp.float32(1.5)}
    pctx = nnx.context(params=1, noise=2, flags={"train": True}).partition() if step["ctx"] else None
    entries = P.model_state(model)
    sel = {p: e for p, e in entries.items() if matches(f, p, e[0])}

    # ---- oracle
    def ref(vals):
      new = P.copy_model(model)
      for p, v in vals.items():
        _, j, name = entries[p]
        a = new[j]["attrs"][name]
        new[j]["attrs"][name] = ("var", a[1], a[2], v) if a[0] == "var" else ("arr", v)
      ctx = None if pctx is None else pctx.merge()
      env = P.Ref(new)
      y = P.interp(env, env.follow(0, path), prog, x, ctx)
      return loss_of(y, x) * extra["s"], (y, new)

    vals = {p: (e[0][3] if e[0][0] == "var" else e[0][1]) for p, e in sel.items()}
    want_g = jax.grad(lambda v: ref(v)[0])(vals) if jax.tree_util.tree_leaves(vals) else vals
    _, (want_y, new) = ref(vals)

    before = G.canon(module)
    raising[0] = step["raises"] and wrap is None
    try:
      if wrap == "jax.jit":
        def pure_g(p, *a):
          m = p.merge()
          out = g(m, *a)
          return out, m.partition()

        out, after = jax.jit(pure_g)(module.partition(), x, extra, pctx)
        assert G.canon(module) == before
        module.update_state(after)
      else:
        out = outer(module, x, extra, pctx)
    except Boom:
      assert raising[0]
      assert G.canon(module) == before, "the function raised and the module was changed"
      rec.tag("raised")
      continue
    assert not raising[0], "the function's exception was swallowed"
    if has_aux:
      assert isinstance(out, tuple) and len(out) == 2
      out, aux = out
      P.same_tree(aux, {"y": want_y, "none": None, "x": [x]}, TOL, "auxiliary output")
    assert isinstance(out, nnx.State), type(out)
    assert list(out.keys()) == sorted(sel), f"gradient entries {list(out.keys())} instead of {sorted(sel)}"
    nonzero = False
    for p, (a, _, _) in sel.items():
      w = want_g[p]
      P.same_attr(out[p], ("var", a[1], a[2], w) if a[0] == "var" else ("arr", w), TOL, f"gradient of {p}")
      nonzero |= any(np.any(np.asarray(l) != 0) for l in jax.tree_util.tree_leaves(w))
    changed = str(new) != str(model)
    rec.nt((nonzero and len(sel) < len(entries)) or changed)
    rec.tag("nonzero gradient", nonzero)
    rec.tag("changes state", changed)
    rec.tag("shared module", any(spec_shared(spec)))
    if stateful:
      model = new
      P.same_module(module, model, TOL, f"module after step {n}")
    elif wrap is None:
      assert G.canon(module) == before, "stateful=False changed the module"
    else:
      P.same_module(module, model, TOL, f"module after step {n}")
    # apply the gradients as a training step does
    if any(isinstance(e[0][3], tuple) for p, e in P.model_state(model).items() if e[0][0] == "var" and p in sel):
      break
    cur = P.model_state(model)
    upd = {}
    for p in sel:
      a, j, name = cur[p]
      v = (a[3] if a[0] == "var" else a[1]) - 0.125 * want_g[p]
      P.Ref(model).put(j, name, v)
    step_state = jax.tree_map(lambda p_, g_: p_ - 0.125 * g_, nnx.State({p: module.get_state()[p] for p in sel}), out)
    module.update_state(step_state)
    P.same_module(module, model, TOL * 4, f"module after applying gradients of step {n}")
    del upd


def spec_shared(spec):
  targets = [a[1] for m in spec["mods"] for _, a in m["attrs"] if a[0] == "mod"]
  return [targets.count(t) > 1 for t in targets]


# ------------------------------------------------------------------ complex and integer variables

DT = {"c": jnp.complex64, "f": jnp.float32, "i": jnp.int32}


@st.composite
def number_cases(draw):
  main = draw(st.sampled_from(["c", "c", "f"]))
  leaf = st.tuples(
      st.sampled_from(["Param", "Param", "CustomVar", "BatchStat"]), st.sampled_from([main, main, main, "i"]),
      st.sampled_from([[], [2], [2, 1]]), st.integers(1, 6), st.integers(1, 3),
  ).map(list)
  return {
      "mods": draw(st.lists(st.lists(leaf, min_size=0, max_size=3), min_size=1, max_size=3)),
      "share": draw(st.booleans()), "wrt": draw(st.sampled_from([None, ["type", "Param"], ["type", "Variable"], ["type", "BatchStat"], ["..."], ["Not", ["type", "BatchStat"]]])),
      "holomorphic": draw(st.sampled_from([main == "c", main == "c", main == "c", main != "c"])), "allow_int": draw(st.booleans()),
      "stateful": draw(st.booleans()), "aux": draw(st.booleans()), "jit": draw(st.booleans()), "main": main,
  }


class Num(nnx.Module):
  def __init__(self, leaves):
    for n, (kind, dt, shape, seed, _) in enumerate(leaves):
      setattr(self, f"v{n}", V.KINDS[kind](number(dt, shape, seed), note=n))


def number(dt, shape, seed):
  x = jnp.asarray(P.base(seed)).reshape(-1)[:2]
  x = x[0] if shape == [] else x.reshape(shape)
  if dt == "c":
    return (x + 1j * (x + seed * 0.25)).astype(jnp.complex64)
  return (x * (4 if dt == "i" else 1)).astype(DT[dt])


def run_numbers(case, rec):
  mods = [Num(ls) for ls in case["mods"]]
  for n, m in enumerate(mods[1:]):
    setattr(mods[0], f"m{n}", m)
    if case["share"]:
      setattr(mods[0], f"n{n}", m)
  module = mods[0]
  entries = {}
  for n, ls in enumerate(case["mods"]):
    for k, leaf in enumerate(ls):
      entries[f"v{k}" if n == 0 else f"m{n - 1}/v{k}"] = leaf
  spec = lambda leaf: ["var", leaf[0], None, []]
  f = ["type", "Param"] if case["wrt"] is None else case["wrt"]
  sel = sorted(p for p, leaf in entries.items() if f == ["..."] or F.match(f, p, spec(leaf)))
  vals = {p: number(*leaf[1:4]) for p, leaf in entries.items()}
  uses = {p: 2 if case["share"] and "/" in p else 1 for p in entries}
  is_complex = case["main"] == "c"

  def loss(get, z):
    out = z * 0
    for p, leaf in sorted(entries.items()):
      x = get(p)
      if leaf[1] == "i":
        x = jnp.sin(x.astype(jnp.float32))
      for _ in range(uses[p]):
        out = out + jnp.sum(x ** leaf[4] * z + x * 0.5)
    return out

  def fun(m, z):
    def get(p):
      *mp, name = p.split("/")
      sub = getattr(m, mp[0]) if mp else m
      return getattr(sub, name)

    seen = dict.fromkeys(entries)
    y = loss(get, z)
    m.seen = nnx.BatchStat(z + 1)
    del seen
    return (y, {"z": z}) if case["aux"] else y

  z = jnp.asarray(1.5 + 0.5j if is_complex else 1.5, jnp.complex64 if is_complex else jnp.float32)
  args = () if case["wrt"] is None else (F.make(case["wrt"]),)
  opts = {"holomorphic": case["holomorphic"], "allow_int": case["allow_int"]}
  try:
    want = jax.grad(lambda v: loss(lambda p: v[p] if p in v else vals[p], z), **opts)({p: vals[p] for p in sel})
    err = None
  except TypeError as e:
    err = e
  opts = P.lean(case, dict(stateful=case["stateful"], has_aux=case["aux"], **opts), stateful=True, has_aux=False, holomorphic=False, allow_int=False)
  g = nnx.grad(fun, *args, **opts)
  call = nnx.jit(lambda m, z: g(m, z)) if case["jit"] and all(entries[p][1] != "i" for p in sel) else g
  before = G.canon(module)
  try:
    got = call(module, z)
  except TypeError as e:
    assert err is not None, f"jax.grad accepts what nnx.grad refuses: {e}"
    assert G.canon(module) == before, "a refused gradient changed the module"
    rec.tag("refused")
    return
  assert err is None, f"nnx.grad accepts what jax.grad refuses: {err}"
  rec.tag("complex", is_complex)
  rec.tag("integers selected", any(entries[p][1] == "i" for p in sel))
  rec.nt(bool(sel) and (is_complex or any(entries[p][1] == "i" for p in sel)))
  if case["aux"]:
    got, aux = got
    P.same_tree(aux, {"z": z}, TOL, "auxiliary output")
  assert isinstance(got, nnx.State) and list(got) == sel, f"gradient entries {list(got)} instead of {sel}"
  for p in sel:
    v = got[p]
    assert type(v) is V.KINDS[entries[p][0]] and v.note == int(p.split("v")[-1]), f"kind or metadata of the gradient of {p}"
    if entries[p][1] == "i":
      assert v.value.dtype == jax.dtypes.float0 and v.value.shape == vals[p].shape, f"gradient of the integer entry {p}"
    else:
      assert v.value.dtype == vals[p].dtype, f"dtype of the gradient of {p}"
      P.same_tree(v.value, want[p], 3e-4, f"gradient of {p}")
  state = module.get_state()
  changed = case["stateful"] or call is not g
  assert set(state) == set(entries) | ({"seen"} if case["stateful"] else set()), sorted(state)
  for p in entries:
    assert state[p].value.dtype == vals[p].dtype
    P.same_tree(state[p].value, vals[p], 0, f"value of {p}")
  if not case["stateful"]:
    assert G.canon(module) == before or changed
  else:
    P.same_tree(state["seen"].value, z + 1, TOL, "the variable set by the function")


# ------------------------------------------------------------------ many variables


@st.composite
def large_cases(draw):
  return {"large": draw(G.large()), "wrt": draw(st.sampled_from(["Param", "BatchStat", "all", "both"])), "jit": draw(st.booleans()), "x": draw(st.integers(0, 9))}


def run_large(case, rec):
  """A weighted sum of hundreds of variables: the gradients are the weights."""
  rec.nt(True)
  big = case["large"]
  spec = G.large_spec({**big, "n": min(big["n"], 110) if case["jit"] else big["n"]})
  m = G.build(spec)
  mods = G.walk_modules(m)[0]
  weights = {}
  k = case["x"]
  for mod in mods:
    for name, v in sorted(G.attrs_of(mod).items()):
      if isinstance(v, (nnx.Param, nnx.BatchStat)):
        k += 1
        vars(mod)[name] = type(v)(jnp.float32(k % 7), n=k)
      elif nnx.is_node(v):
        delattr(mod, name)
  for path, v in m.get_state().items():
    weights[path] = (vars(v)["n"] % 5 - 2) * 0.5

  def fun(m):
    total = 0.0
    for mod in G.walk_modules(m)[0]:
      for name, v in list(G.attrs_of(mod).items()):
        if isinstance(v, nnx.Variable):
          n = vars(v)["n"]
          total = total + getattr(mod, name) * ((n % 5 - 2) * 0.5)
          if isinstance(v, nnx.BatchStat):
            setattr(mod, name, getattr(mod, name) + 1)
    return total

  wrt = {"Param": nnx.Param, "BatchStat": nnx.BatchStat, "all": ..., "both": [nnx.Param, nnx.BatchStat]}[case["wrt"]]
  if case["wrt"] == "both":
    wrt = lambda path, v: isinstance(v, (nnx.Param, nnx.BatchStat))
  before = dict(m.get_state().items())
  g = nnx.grad(fun) if case["wrt"] == "Param" else nnx.grad(fun, wrt)
  grads = nnx.jit(lambda m: g(m))(m) if case["jit"] else g(m)
  want = {p for p, v in before.items() if case["wrt"] in ("all", "both") or type(v).__name__ == case["wrt"]}
  assert set(grads) == want, f"{len(grads)} gradients instead of {len(want)}"
  for p in want:
    assert type(grads[p]) is type(before[p]) and vars(grads[p])["n"] == vars(before[p])["n"]
    assert float(grads[p].value) == weights[p], f"gradient of {p}: {grads[p].value} instead of {weights[p]}"
  after = m.get_state()
  assert set(after) == set(before)
  for p, v in before.items():
    assert float(after[p].value) == float(v.value) + (type(v) is nnx.BatchStat), f"{p} after the call"



CHECKS = [
    Check("nested", N.cases("grad"), N.run, quick=80, thorough=3000),
    Check("programs", cases, run, quick=600, thorough=12000),
    Check("numbers", number_cases, run_numbers, quick=500, thorough=8000),
    Check("large", large_cases, run_large, quick=24, thorough=300),
]
