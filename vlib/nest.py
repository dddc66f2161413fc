"""Transforms nested in each other: jit, grad, remat and scan of modules that use them again inside, against plain jax."""
import jax
import jax.numpy as jnp
from hypothesis import strategies as st

import nnx
from vlib import programs as P

TOL = 3e-5


@st.composite
def trees(draw, depth, root=None):
  """A tree of transforms; root: what the outermost is."""
  kind = root or draw(st.sampled_from((["leaf"] if depth < 2 else []) + ["jit", "grad", "remat", "scan", "seq", "twice", "tie"] if depth else ["leaf"]))
  if kind == "leaf":
    return ["leaf", draw(st.booleans()), draw(st.booleans()), draw(st.integers(0, 9))]
  if kind == "seq":
    return ["seq", draw(trees(depth - 1)), draw(trees(depth - 1))]
  inner = draw(trees(depth - 1))
  if kind == "scan":
    return ["scan", inner, draw(st.integers(1, 3)), draw(st.sampled_from([0, -1])), draw(st.booleans()), draw(st.sampled_from([None, "noise"]))]
  if kind == "grad":
    return ["grad", inner, draw(st.booleans())]
  return [kind, inner]


def cases(root):
  @st.composite
  def make(draw):
    return {
        "tree": draw(trees(3, root)), "ctx": draw(st.booleans()), "calls": draw(st.sampled_from([1, 2, 2])), "seed": draw(st.integers(0, 9)),
        "outer": draw(st.sampled_from([None, None, "jit"])),
    }
  return make


class Net(nnx.Module):
  def __init__(self, tree):
    self.tree = P.freeze(tree) if isinstance(tree, list) else tree
    if tree[0] == "leaf":
      self.w = nnx.Param(jnp.asarray(P.base(tree[3])), note="w")
      self.n = nnx.BatchStat(jnp.asarray(P.base(tree[3] + 1)))
    else:
      self.a = Net(tree[1])
      if tree[0] == "seq":
        self.b = Net(tree[2])
      elif tree[0] == "tie":
        self.b = self.a
      elif tree[0] == "scan":  # another value for each layer
        for path, leaf in self.a.mutable_state_dict().items():
          if path.split("/")[-1] == "w":
            leaf.value = stack(leaf.value, tree)

  def __call__(self, x, *, ctx=None):
    t = self.tree
    kw = {} if ctx is None else {"ctx": ctx}
    if t[0] == "leaf":
      y = jnp.tanh(self.w * x + self.n * 0.1)
      if t[2] and ctx is not None:
        y = y + 0.1 * jax.random.normal(ctx.make_rng("noise"), y.shape)
      self.n = self.n * 0.5 + y
      if t[1]:
        if "c" in vars(self):
          self.c = self.c * 0.25 + y
        else:
          self.c = nnx.BatchStat(y, note="c")
        y = y + 0.1 * self.c
      return y
    if t[0] == "seq":
      return self.b(self.a(x, **kw) * 1.5, **kw)
    if t[0] in ("twice", "tie"):
      return (self.b if t[0] == "tie" else self.a)(self.a(x, **kw) * 1.5, **kw)
    call = lambda m, x, ctx=None: m(x, ctx=ctx)
    if t[0] == "jit":
      return nnx.jit(call)(self.a, x, **kw)
    if t[0] == "remat":
      return nnx.remat(call)(self.a, x, **kw)
    if t[0] == "scan":
      step = lambda m, c, _, ctx=None: (m(c, ctx=ctx), c)
      y, ys = nnx.scan(step, variable_axes={nnx.Param: t[3]}, length=t[2], reverse=t[4], split_rngs=t[5])(self.a, x, None, **kw)
      return y + ys.sum(0) * 0.25
    assert t[0] == "grad"
    if t[2]:
      loss = lambda m, x: (lambda y: (y.sum(), y))(m(x))
      grads, y = nnx.grad(loss, has_aux=True)(self.a, x)
    else:
      grads, y = nnx.grad(lambda m, x: m(x).sum())(self.a, x), x
    assert grads and all(type(g) is nnx.Param and g.note == "w" for g in grads.values())
    return y + 0.05 * sum(jnp.sum(g.value * (i + 1)) for i, (_, g) in enumerate(sorted(grads.items())))


def stack(w, tree):
  return jnp.stack([w * (1 - 0.25 * i) for i in range(tree[2])], axis=tree[3])


def params(t):
  if t[0] == "leaf":
    return {"w": jnp.asarray(P.base(t[3]))}
  out = {"a": params(t[1])}
  if t[0] == "seq":
    out["b"] = params(t[2])
  elif t[0] == "scan":
    out = jax.tree_util.tree_map(lambda w: stack(w, t), out)
  return out


def stats(t):
  if t[0] == "leaf":
    return {"n": jnp.asarray(P.base(t[3] + 1))}
  out = {"a": stats(t[1])}
  if t[0] == "seq":
    out["b"] = stats(t[2])
  return out


def reference(t, p, s, x, ctx):
  """(output, statistics afterwards)"""
  if t[0] == "leaf":
    y = jnp.tanh(p["w"] * x + s["n"] * 0.1)
    if t[2] and ctx is not None:
      y = y + 0.1 * jax.random.normal(ctx.make_rng("noise"), y.shape)
    s = {**s, "n": s["n"] * 0.5 + y}
    if t[1]:
      s["c"] = s["c"] * 0.25 + y if "c" in s else y
      y = y + 0.1 * s["c"]
    return y, s
  if t[0] == "seq":
    y, a = reference(t[1], p["a"], s["a"], x, ctx)
    y, b = reference(t[2], p["b"], s["b"], y * 1.5, ctx)
    return y, {"a": a, "b": b}
  if t[0] in ("twice", "tie"):
    y, a = reference(t[1], p["a"], s["a"], x, ctx)
    y, a = reference(t[1], p["a"], a, y * 1.5, ctx)
    return y, {"a": a}
  if t[0] in ("jit", "remat"):
    y, a = reference(t[1], p["a"], s["a"], x, None if ctx is None else ctx.partition().merge())
    return y, {"a": a}
  if t[0] == "scan":
    L, keys = t[2], None
    if ctx is not None:
      keys, ctxdef = ctx.partition()
      split = jax.random.split(keys["noise"], L) if t[5] else [keys["noise"]] * L
    a, ys = s["a"], 0
    for i in list(range(L))[::-1] if t[4] else range(L):
      ys = ys + x
      layer = jax.tree_util.tree_map(lambda w: jnp.take(w, i, axis=t[3]), p["a"])
      x, a = reference(t[1], layer, a, x, None if keys is None else ctxdef.merge({"noise": split[i]}))
    return x + ys * 0.25, {"a": a}

  def loss(p):
    y, a = reference(t[1], p, s["a"], x, None)
    return y.sum(), (y, a)

  grads, (y, a) = jax.grad(loss, has_aux=True)(p["a"])
  flat = sorted(flatten(grads).items())
  return (y if t[2] else x) + 0.05 * sum(jnp.sum(g * (i + 1)) for i, (_, g) in enumerate(flat)), {"a": a}


def flatten(d, path=()):
  out = {}
  for k, v in d.items():
    out.update(flatten(v, path + (k,)) if isinstance(v, dict) else {"/".join(path + (k,)): v})
  return out


def kinds_in(t, out=()):
  out = {t[0]}
  for s in t[1:]:
    if isinstance(s, (list, tuple)):
      out |= kinds_in(s)
  return out


def run(case, rec):
  """The nested transforms give what plain jax and Python loops give, outputs and state, call after call."""
  t = case["tree"]
  kinds = kinds_in(t) & {"jit", "grad", "remat", "scan"}
  rec.nt(len(kinds) > 1)
  rec.tag("+".join(sorted(kinds)))
  module, p, s = Net(t), params(t), stats(t)
  for n in range(case["calls"]):
    x = jnp.asarray(P.base(case["seed"] + n))
    kw, rctx = {}, None
    if case["ctx"]:
      kw["ctx"], rctx = nnx.context(noise=n), nnx.context(noise=n)
      if case["outer"]:
        rctx = rctx.partition().merge()
    y, s = reference(t, p, s, x, rctx)
    call = (lambda m, x, **kw: m(x, **kw)) if not case["outer"] else nnx.jit(lambda m, x, ctx=None: m(x, ctx=ctx))
    P.same_tree(call(module, x, **kw), y, TOL, f"output of call {n}")
    state = module.get_state()
    want = {**flatten(p), **flatten(s)}
    assert sorted(state) == sorted(want), f"state {sorted(state)} instead of {sorted(want)}"
    for k, v in want.items():
      kind, note = {"w": (nnx.Param, "w"), "n": (nnx.BatchStat, None), "c": (nnx.BatchStat, "c")}[k[-1]]
      assert type(state[k]) is kind and vars(state[k]).get("note") == note, f"kind and metadata of {k}"
      P.same_tree(state[k].value, v, TOL, f"{k} after call {n}")
