"""Stateful module programs: one small language, run on live NNX modules and on a plain reference model.

A spec is {"mods": [{"cls", "attrs": [[name, leaf]], "prog": [op, ...]}]}; module 0 is the root. Every value is a
float32 array of shape (2,). Attributes:

  ["var", kind, seed, meta]   a variable          ["arr", seed]   a bare array attribute
  ["stat", json]              a static attribute  ["mod", i]      a submodule
"""
import json
import zlib

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import graphs as G
from vlib import values as V

VAR_NAMES = ["a", "b", "w", "v10", "v2", "K"]
SUB_NAMES = ["m", "sub", "B", "m2", "m10", "_up", "accessor", "d__x"]
NEW = {"n1": "Cache", "n2": "BatchStat", "c3": "Param"}
SOWN = {"s1": "Intermediate", "a_s": "Cache"}
KINDS = ["Param", "BatchStat", "Cache", "CustomVar", "Variable", "Node", "Param"]


def base(seed):
  return (((np.arange(2) * 5 + seed * 3) % 13 - 6) * 0.125).astype(np.float32)


# ------------------------------------------------------------------ live modules


class P(nnx.Module):
  def __init__(self, prog):
    self.prog = prog

  def __call__(self, x, ctx=None):
    return interp(LIVE, self, self.prog, x, ctx)

  def go(self, x, scale=1.0, *, ctx=None):
    return interp(LIVE, self, self.prog, x * scale, ctx)

  def pair(self, x, ctx=None):
    y = interp(LIVE, self, self.prog, x, ctx)
    return {"y": y, "x": (x, None)}

  def fail(self, x, ctx=None):
    interp(LIVE, self, self.prog, x, ctx)
    raise KeyError("fail")


class P2(P):
  pass


CLASSES = {"P": P, "P2": P2, "Dict": nnx.Dict, "Seq": nnx.Sequence}


def lean(case, options, **defaults):
  """The options, in most cases without those that have their default value."""
  if zlib.crc32(json.dumps(case, sort_keys=True, default=str).encode()) % 4 == 0:
    return options
  return {k: v for k, v in options.items() if k not in defaults or type(v) is not type(defaults[k]) or v != defaults[k]}


def act(x):
  return x * 2 + 1


def freeze(x):
  return tuple(freeze(y) for y in x) if isinstance(x, (list, tuple)) else x


def make_attr(a):
  t = a[0]
  if t == "var":
    return V.KINDS[a[1]](jnp.asarray(base(a[2])), **V.make_meta(a[3]))
  if t == "arr":
    return jnp.asarray(base(a[1]))
  if t == "act":
    return act
  return freeze(a[1])


def build_all(spec):
  objs = []
  for m in spec["mods"]:
    if m["cls"] == "Dict":
      objs.append(nnx.Dict())
    elif m["cls"] == "Seq":
      objs.append(nnx.Sequence([0] * len(m["attrs"])))
    else:
      objs.append(CLASSES[m["cls"]](freeze(m["prog"])))
  for o, m in zip(objs, spec["mods"]):
    for name, a in m["attrs"]:
      setattr(o, name, objs[a[1]] if a[0] == "mod" else make_attr(a))
  return objs


def uses_rng(spec):
  return any(op[0] == "rng" for m in spec["mods"] for op in m.get("prog") or [])


def build(spec):
  return build_all(spec)[0]


class LIVE:
  """How the language acts on live modules."""

  @staticmethod
  def follow(m, path):
    for kind, key in path:
      m = getattr(m, key) if kind == "a" else m[key]
    return m

  get = staticmethod(getattr)

  @staticmethod
  def has(m, name):
    return hasattr(m, name)

  put = staticmethod(setattr)

  @staticmethod
  def new(m, name, kind, value):
    setattr(m, name, V.KINDS[kind](value))

  @staticmethod
  def sow(m, name, kind, value):
    m.sow(V.KINDS[kind], name, value)

  @staticmethod
  def count(m, name):
    setattr(m, name, getattr(m, name, 0) + 1)
    return getattr(m, name)

  @staticmethod
  def drop(m, name):
    delattr(m, name)

  @staticmethod
  def link(m, name, other):
    setattr(m, name, other)

  @staticmethod
  def grow(m, name, value):
    sub = P(())
    sub.w = nnx.Param(value)
    setattr(m, name, sub)

  @staticmethod
  def call(m, x, scale, ctx):
    kw = {} if ctx is None else {"ctx": ctx}
    if scale is None:
      return m(x, **kw)
    return m.go(x, scale, **kw)


# ------------------------------------------------------------------ reference model


def model_of(spec):
  """[{cls, attrs: {name: ("var", kind, meta, value) | ("arr", value) | ("stat", v) | ("mod", i)}}]"""
  mods = []
  for m in spec["mods"]:
    attrs = {}
    for name, a in m["attrs"]:
      if a[0] == "var":
        meta = V.make_meta(a[3])
        if a[1] != "Node":
          meta.setdefault("sharding", None)
        attrs[name] = ("var", a[1], meta, jnp.asarray(base(a[2])))
      elif a[0] == "arr":
        attrs[name] = ("arr", jnp.asarray(base(a[1])))
      elif a[0] == "mod":
        attrs[name] = ("mod", a[1])
      else:
        attrs[name] = ("stat", make_attr(a))
    if m["cls"] == "Seq":
      attrs.update({k: ("stat", a[1][1]) for k, a in G.seq_extra(len(m["attrs"])).items()})
    if m["cls"] not in ("Dict", "Seq"):
      attrs["prog"] = ("stat", freeze(m["prog"]))
    mods.append({"cls": m["cls"], "attrs": attrs})
  return mods


def copy_model(model):
  return [{"cls": m["cls"], "attrs": dict(m["attrs"])} for m in model]


class Ref:
  """How the language acts on the reference model; module handles are indices."""

  def __init__(self, model):
    self.model = model

  def follow(self, i, path):
    for _, key in path:
      a = self.model[i]["attrs"][str(key)]
      assert a[0] == "mod", path
      i = a[1]
    return i

  def get(self, i, name):
    a = self.model[i]["attrs"][name]
    return a[3] if a[0] == "var" else a[1]

  def has(self, i, name):
    return name in self.model[i]["attrs"]

  def put(self, i, name, value):
    a = self.model[i]["attrs"].get(name)
    self.model[i]["attrs"][name] = ("var", a[1], a[2], value) if a and a[0] == "var" else ("arr", value)

  def new(self, i, name, kind, value):
    assert not self.has(i, name)
    self.model[i]["attrs"][name] = ("var", kind, {} if kind == "Node" else {"sharding": None}, value)

  def sow(self, i, name, kind, value):
    if self.has(i, name):
      _, k, meta, old = self.model[i]["attrs"][name]
      self.model[i]["attrs"][name] = ("var", k, meta, old + (value,))
    else:
      self.new(i, name, kind, (value,))

  def count(self, i, name):
    n = self.model[i]["attrs"].get(name, ("stat", 0))[1] + 1
    self.model[i]["attrs"][name] = ("stat", n)
    return n

  def drop(self, i, name):
    del self.model[i]["attrs"][name]

  def link(self, i, name, j):
    self.model[i]["attrs"][name] = ("mod", j)

  def grow(self, i, name, value):
    self.model.append({"cls": "P", "attrs": {"prog": ("stat", ()), "w": ("var", "Param", {"sharding": None}, value)}})
    self.model[i]["attrs"][name] = ("mod", len(self.model) - 1)

  def call(self, i, x, scale, ctx):
    if scale is not None:
      x = x * scale
    return interp(self, i, self.model[i]["attrs"]["prog"][1], x, ctx)


# ------------------------------------------------------------------ the language


def interp(env, m, prog, x, ctx):
  for op in prog:
    t = op[0]
    if t == "aff":
      x = x * op[1] + op[2]
    elif t == "tanh":
      x = jnp.tanh(x)
    elif t == "mul":
      x = x * (1.0 + 0.5 * env.get(env.follow(m, op[1]), op[2]))
    elif t == "add":
      x = x + env.get(env.follow(m, op[1]), op[2])
    elif t == "set":
      o = env.follow(m, op[1])
      env.put(o, op[2], op[3] * x + 0.5 * env.get(o, op[2]))
    elif t == "put":
      env.put(env.follow(m, op[1]), op[2], x * op[3])
    elif t == "new":
      o = env.follow(m, op[1])
      if env.has(o, op[2]):
        env.put(o, op[2], x + 0.25 * env.get(o, op[2]))
      else:
        env.new(o, op[2], NEW[op[2]], x * 0.5)
    elif t == "once":
      o = env.follow(m, op[1])
      if not env.has(o, op[2]):
        env.new(o, op[2], NEW[op[2]], x * 0.5)
    elif t == "newarr":
      env.put(env.follow(m, op[1]), op[2], x - 1.0)
    elif t == "sow":
      env.sow(env.follow(m, op[1]), op[2], SOWN[op[2]], x)
    elif t == "count":
      x = x + 0.125 * env.count(env.follow(m, op[1]), op[2])
    elif t == "drop":
      o = env.follow(m, op[1])
      if env.has(o, op[2]):
        env.drop(o, op[2])
    elif t == "link":
      env.link(env.follow(m, op[1]), op[2], env.follow(m, op[3]))
    elif t == "grow":
      env.grow(env.follow(m, op[1]), op[2], x)
    elif t == "call":
      x = env.call(env.follow(m, op[1]), x, op[2], ctx)
    elif t == "rng":
      if ctx is not None:
        x = x + 0.25 * jax.random.uniform(ctx.make_rng(op[1]), (2,))
    elif t == "flag":
      if ctx is not None and ctx.get_flag(op[1]):
        x = x + 0.5
    else:
      raise KeyError(t)
  return x


# ------------------------------------------------------------------ comparison


def close(a, b, tol):
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape or a.dtype != b.dtype:
    return False
  if tol == 0:
    return a.tobytes() == b.tobytes()
  return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def same_tree(got, want, tol, what):
  lg, tg = jax.tree_util.tree_flatten(got)
  lw, tw = jax.tree_util.tree_flatten(want)
  if tg != tw:
    raise AssertionError(f"{what}: structure {tg} instead of {tw}")
  for a, b in zip(lg, lw):
    if isinstance(a, jax.core.Tracer):
      raise AssertionError(f"{what}: a tracer leaked out: {a}")
    if not close(a, b, tol):
      raise AssertionError(f"{what}: {np.asarray(a)} instead of {np.asarray(b)}")


def same_attr(got, want, tol, what):
  """got: the raw attribute of a live module; want: attribute of the reference model."""
  t = want[0]
  if t == "var":
    if type(got) is not V.KINDS[want[1]]:
      raise AssertionError(f"{what}: a {type(got).__name__} instead of a {want[1]}")
    meta = {k: v for k, v in vars(got).items() if k != "value"}
    if meta != want[2]:
      raise AssertionError(f"{what}: metadata {meta} instead of {want[2]}")
    same_tree(vars(got)["value"], want[3], tol, what)
  elif t == "arr":
    if not isinstance(got, (jax.Array, np.ndarray)):
      raise AssertionError(f"{what}: {got!r} instead of an array")
    same_tree(got, want[1], tol, what)
  elif got != want[1]:
    raise AssertionError(f"{what}: {got!r} instead of {want[1]!r}")


def same_module(live, model, tol, what, root=0):
  """The live graph is exactly the reference model (up to numbering), values within tol."""
  pairs = {}
  back = {}

  def walk(m, i, path):
    if id(m) in pairs or i in back:
      if pairs.get(id(m)) != i or back.get(i) is not m:
        raise AssertionError(f"{what}: sharing differs at {path or 'the root'}")
      return
    pairs[id(m)] = i
    back[i] = m
    if type(m) is not CLASSES[model[i]["cls"]]:
      raise AssertionError(f"{what}: {path} is a {type(m).__name__} instead of a {model[i]['cls']}")
    attrs = {k: v for k, v in vars(m).items() if not k.startswith("_module__")}
    want = model[i]["attrs"]
    if set(attrs) != set(want):
      raise AssertionError(f"{what}: attributes of {path or 'the root'}: {sorted(attrs)} instead of {sorted(want)}")
    for name in sorted(attrs):
      if want[name][0] == "mod":
        if not isinstance(attrs[name], nnx.Module):
          raise AssertionError(f"{what}: {path}/{name} is not a module")
        walk(attrs[name], want[name][1], f"{path}/{name}")
      else:
        same_attr(attrs[name], want[name], tol, f"{what} at {path}/{name}")

  walk(live, root, "")


def model_state(model, root=0):
  """path -> node attribute of the model, first path in attribute-name order."""
  out = {}
  seen = set()

  def walk(i, path):
    if i in seen:
      return
    seen.add(i)
    for name in sorted(model[i]["attrs"]):
      a = model[i]["attrs"][name]
      if a[0] == "mod":
        walk(a[1], path + (name,))
      elif a[0] in ("var", "arr"):
        out["/".join(path + (name,))] = (a, i, name)

  walk(root, ())
  return out


def same_state(state, model, tol, what):
  want = {k: a for k, (a, _, _) in model_state(model).items()}
  if sorted(state.keys()) != sorted(want):
    raise AssertionError(f"{what}: paths {sorted(state.keys())} instead of {sorted(want)}")
  for k, v in state.items():
    same_attr(v, want[k], tol, f"{what} at {k}")


def snapshot(live):
  """Exact description of a live graph for 'nothing changed' comparisons."""
  from vlib import graphs as G

  return G.canon(live)


# ------------------------------------------------------------------ generation


def metas():
  return st.one_of(
      st.just([]), st.just([]), st.just([["sharding", ["x"]]]), st.just([["note", 2]]),
      st.just([["sharding", [None, "y"]], ["note", "n"]]),
  )


def edges(spec, i):
  m = spec["mods"][i]
  return [
      ([("i", int(n)) if m["cls"] == "Seq" else ("i", n) if m["cls"] == "Dict" else ("a", n)], a[1])
      for n, a in m["attrs"] if a[0] == "mod"
  ]


@st.composite
def walk_path(draw, spec, start, max_hops=3):
  """A random access path through submodules: (path, module index)."""
  path, i = [], start
  for _ in range(draw(st.integers(0, max_hops))):
    es = edges(spec, i)
    if not es:
      break
    p, i = draw(st.sampled_from(es))
    path += [list(x) for x in p]
  return path, i


@st.composite
def programs(
    draw, max_mods=4, kinds=None, rng=True, create=True, containers=True, cycles=True, arrays=True, metadata=None,
    max_ops=5, mutate=True, sow=True, structure=False,
):
  """structure: operations that change static attributes, submodules and the set of variables; modules can have no variables."""
  empty = structure and draw(st.integers(0, 3)) == 0
  n = draw(st.sampled_from([k for k in (1, 2, 2, 3, 3, 4, 5) if k <= max_mods]))
  metadata = metas() if metadata is None else metadata
  mods = []
  for i in range(n):
    cls = draw(st.sampled_from(["P", "P", "P2", "Dict", "Seq"] if containers and i else ["P", "P2"]))
    attrs = []
    if cls in ("P", "P2"):
      for name in [] if empty else draw(st.lists(st.sampled_from(VAR_NAMES), min_size=1, max_size=3, unique=True)):
        kind = draw(st.sampled_from(kinds or KINDS))
        if arrays and draw(st.integers(0, 4)) == 0:
          attrs.append([name, ["arr", draw(st.integers(0, 12))]])
        else:
          attrs.append([name, ["var", kind, draw(st.integers(0, 12)), draw(metadata)]])
      if draw(st.booleans()):
        attrs.insert(0, [draw(st.sampled_from(["cfg", "cfg", "_P__cfg"])), ["stat", draw(st.sampled_from([1, "s", [1, 2], None]))]])
    mods.append({"cls": cls, "attrs": attrs, "prog": []})

  def link(p, c):
    m = mods[p]
    if m["cls"] == "Seq":
      m["attrs"].append([str(len(m["attrs"])), ["mod", c]])
    else:
      used = {x[0] for x in m["attrs"]}
      free = [s for s in SUB_NAMES + [f"x{c}", f"y{c}"] if s not in used]
      m["attrs"].insert(draw(st.integers(0, len(m["attrs"]))), [draw(st.sampled_from(free)), ["mod", c]])

  for i in range(1, n):
    link(draw(st.integers(0, i - 1)), i)
  for _ in range(draw(st.integers(0, 2))):
    p, c = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    if cycles or p < c:
      link(p, c)
  # an empty sequence is not what this language is about
  for i, m in enumerate(mods):
    if m["cls"] == "Seq" and not m["attrs"]:
      m["cls"] = "Dict"
  spec = {"mods": mods}
  for i, m in enumerate(mods):
    if m["cls"] in ("P", "P2"):
      m["prog"] = draw(ops(spec, i, rng, create and not empty, max_ops, mutate, sow, structure))
  return spec


@st.composite
def ops(draw, spec, i, rng=True, create=True, max_ops=5, mutate=True, sow=True, structure=False):
  out = []
  calls = 0
  consts = st.sampled_from([0.5, 1.0, -0.75, 0.25])
  children = [p for p, j in edges(spec, i) if j > i and spec["mods"][j]["cls"] in ("P", "P2")]
  for p in children[:2]:  # programs usually use what they contain
    if draw(st.integers(0, 3)):
      out.append(["call", [list(x) for x in p], draw(st.sampled_from([None, None, 0.5]))])
      calls += 1
  kinds = ["mul", "add", "mul", "tanh", "aff"] + ["set", "set", "put"] * mutate
  if create:
    kinds += ["new", "newarr"]
  if sow and create:
    kinds += ["sow"]
  if structure:
    kinds += ["count", "count"] + ["drop", "link", "grow"] * create
  if rng:
    kinds += ["rng", "flag"]
  if i == 0 or draw(st.booleans()):
    kinds += ["call"]
  for _ in range(draw(st.integers(2, max_ops))):
    t = draw(st.sampled_from(kinds))
    if t == "aff":
      op = ["aff", draw(consts), draw(consts)]
    elif t == "tanh":
      op = ["tanh"]
    elif t == "rng":
      op = ["rng", draw(st.sampled_from(["params", "noise"]))]
    elif t == "flag":
      op = ["flag", draw(st.sampled_from(["train", "other"]))]
    else:
      path, j = draw(walk_path(spec, i))
      if spec["mods"][j]["cls"] not in ("P", "P2"):
        path, j = [], i
      tgt = spec["mods"][j]
      names = [nm for nm, a in tgt["attrs"] if a[0] in ("var", "arr")]
      if t == "call":
        if j <= i or calls >= 2:
          continue
        calls += 1
        op = ["call", path, draw(st.sampled_from([None, 0.5]))]
      elif t == "new":
        op = ["new", path, draw(st.sampled_from(sorted(NEW)))]
      elif t == "newarr":
        op = ["newarr", path, draw(st.sampled_from(["arr1", "Arr2"]))]
      elif t == "count":
        op = ["count", path, draw(st.sampled_from(["steps", "_n"]))]
      elif t == "drop":
        op = ["drop", path, draw(st.sampled_from(sorted(NEW)))]
      elif t == "link":
        op = ["link", path, draw(st.sampled_from(["l1", "l2"])), draw(walk_path(spec, i))[0]]
      elif t == "grow":
        op = ["grow", path, draw(st.sampled_from(["g1", "g2"]))]
      elif t == "sow":
        op = ["sow", path, draw(st.sampled_from(sorted(SOWN)))]
      else:
        if not names:
          continue
        name = draw(st.sampled_from(names))
        op = [t, path, name] + ([draw(consts)] if t in ("set", "put") else [])
    out.insert(draw(st.integers(0, len(out))), op)
  return out


def uses(spec, i=0, seen=None):
  """All ops that run when the program of module i runs."""
  out = []
  model = model_of(spec)

  def go(i, depth):
    for op in model[i]["attrs"]["prog"][1]:
      out.append((i, op))
      if op[0] == "call" and depth < 8:
        go(Ref(model).follow(i, op[1]), depth + 1)

  go(i, 0)
  return out
