"""C17 Dataclass field specifiers give each field its declared role."""
import dataclasses
import typing as tp

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import pytrees as T
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: a dataclass layout (module or pytree object, frozen or not, with an inherited part, overridden fields, an "
    "undecorated subclass with its own __init__, a __post_init__ that recomputes a field; per field a specifier, a default, a "
    "default factory or none, init, repr, compare and hash flags, user metadata, sharding), and up to 3 constructions that "
    "pass values, arrays, trees, containers (of the right and of another kind) and values with metadata positionally or by "
    "name. Oracle: the role table of the specifiers. Also "
    "the options of the decorator (init, repr, eq, order, unsafe_hash, frozen), by comparison with dataclasses.dataclass on "
    "the same class. Non-trivial: a construction with a declared container field and a "
    "default or a passed container."
)

ROLES = ["field", "bare", "field", "node_field", "static_field", "param_field", "var_field"]
VARS = {"BatchStat": nnx.BatchStat, "Cache": nnx.Cache, "CustomVar": V.CustomVar, "Variable": nnx.Variable, "Param": nnx.Param}
STATIC = st.sampled_from([["py", 1], ["py", "s"], ["py", None], ["py", [1, 2]], ["py", 2.5], ["py", True]])
DEFAULTS = st.one_of(STATIC, st.sampled_from([["py", 0], ["cont", "Static", [], ["py", 3]]]))


@st.composite
def field_specs(draw, name, has_default):
  role = draw(st.sampled_from(ROLES))
  how = draw(st.sampled_from(["default", "factory"])) if has_default else "none"
  if role == "bare" and how == "factory":
    how = "default"
  if how == "default":
    default = draw(STATIC)
  elif role == "static_field":
    default = draw(STATIC)
  elif how == "factory":
    default = draw(st.one_of(T.payloads(False), T.with_metadata() if role not in ("field", "bare") else T.containers(False)))
  else:
    default = None
  return {
      "name": name, "role": role, "how": how, "default": default,
      "kind": draw(st.sampled_from(sorted(VARS))), "sharding": draw(st.sampled_from([None, ["a"], ["a", None], []])),
      "init": draw(st.sampled_from([True] * 5 + [False])) if role != "bare" else True,
      "repr": draw(st.booleans()), "compare": draw(st.booleans()), "hash": draw(st.sampled_from([None, True, False])),
      "meta": draw(st.sampled_from([None, None, {}, {"doc": "x"}, {"k": 1, "sharding": "user"}])),
      "flags": draw(st.booleans()), "post": draw(st.integers(0, 7)) == 0 and role not in ("bare",),
  }


@st.composite
def cases(draw):
  names = draw(st.lists(st.sampled_from(T.NAMES + ["value", "sharding"]), min_size=1, max_size=5, unique=True))
  k = draw(st.integers(0, len(names)))
  fields = [draw(field_specs(n, i >= k)) for i, n in enumerate(names)]
  b = draw(st.integers(0, len(names))) if draw(st.booleans()) else 0
  override = []
  if b and draw(st.booleans()):
    i = draw(st.integers(0, b - 1))
    override = [draw(field_specs(names[i], fields[i]["how"] != "none"))]
  builds = []
  final = {f["name"]: f for f in fields}
  final.update({f["name"]: f for f in override})
  for _ in range(draw(st.integers(1, 3))):
    passed = []
    for n in names:
      f = final[n]
      if not f["init"]:
        continue
      if f["how"] != "none" and draw(st.booleans()):
        continue
      passed.append([n, draw(values(f))])
    builds.append({"pass": passed, "pos": draw(st.integers(0, 5)), "perm": draw(st.permutations(range(len(passed))))})
  return {
      "form": draw(st.sampled_from(["module", "module", "pytree", "pytree mutable"])), "frozen": draw(st.integers(0, 3)) == 0,
      "fields": fields, "base": b, "override": override, "sub": draw(st.integers(0, 4)) == 0, "builds": builds,
      "call": draw(st.booleans()),
  }


def values(f):
  role = f["role"]
  if role in ("field", "bare"):
    return st.one_of(T.plain_values(False), T.containers(False))
  if role == "static_field":
    return st.one_of(STATIC, STATIC, STATIC, st.sampled_from([["cont", "Static", [], ["py", 3]], ["cont", "Node", [], ["py", 3]]]))
  kind, meta = container_of(f)
  right = st.tuples(st.just("cont"), st.just(kind), st.just([] if kind == "Node" else [["sharding", f_sharding(f)]]), T.payloads(False)).map(list)
  return st.one_of(T.payloads(False), T.payloads(False), T.with_metadata(), right, T.containers(False))


def f_sharding(f):
  return f["sharding"] if f["role"] == "var_field" else None


def container_of(f):
  sh = f_sharding(f)
  kind = {"node_field": "Node", "static_field": "Static", "param_field": "Param", "var_field": f["kind"]}[f["role"]]
  if kind in ("Node", "Static"):
    return kind, {}
  return kind, {"sharding": None if sh is None else tuple(sh)}


def expected(f, m):
  """What the field holds, None when the value is refused."""
  if f["role"] in ("field", "bare"):
    return m
  kind, meta = container_of(f)
  if m[0] == "cm":
    return ("cont", kind, {**meta, **m[1]}, m[2])
  if m[0] == "cont":
    return m if (m[1], m[2]) == (kind, meta) else None
  return ("cont", kind, meta, m[1])


def specifier(f, counter, metas):
  kw = {}
  if f["how"] == "default":
    kw["default"] = T.make(f["default"])[0]
  elif f["how"] == "factory":

    def factory():
      counter[f["name"]] = counter.get(f["name"], 0) + 1
      return T.make(f["default"])[0]

    kw["default_factory"] = factory
  if f["role"] == "bare":
    return kw.get("default", dataclasses.MISSING)
  if not f["init"]:
    kw["init"] = False
  if f["flags"]:
    kw.update(repr=f["repr"], compare=f["compare"], hash=f["hash"])
  if f["meta"] is not None:
    kw["metadata"] = metas.setdefault(str(f["meta"]), dict(f["meta"]))  # equal metadata is one object for all fields
  if f["role"] == "var_field":
    if f["sharding"] is not None:
      kw["sharding"] = tuple(f["sharding"])
    return nnx.var_field(VARS[f["kind"]], **kw)
  if f["role"] == "param_field" and "default" in kw and f["flags"]:
    return nnx.param_field(kw.pop("default"), **kw)
  return getattr(nnx, f["role"])(**kw)


def make_class(case, counter):
  metas = {}
  module = case["form"] == "module"
  root = nnx.Module if module else nnx.Pytree
  meta = type(root)

  def body(fields, post):
    ns = {"__annotations__": {f["name"]: tp.Any for f in fields}}
    for f in fields:
      s = specifier(f, counter, metas)
      if s is not dataclasses.MISSING:
        ns[f["name"]] = s
    if post:

      def __post_init__(self):
        for f in post:
          vars(self)[f["name"]] = ("post", f["name"])

      ns["__post_init__"] = __post_init__
    return ns

  frozen = case["frozen"] and not module  # modules are mutable: merging writes their attributes
  deco = nnx.dataclass(frozen=True) if frozen else nnx.dataclass if case["call"] else nnx.dataclass()
  mutable = {"mutable": True} if case["form"] == "pytree mutable" else {}
  b = case["base"]
  final = final_fields(case)
  post = [f for f in final.values() if f["post"] and f["role"] in ("node_field", "static_field", "param_field", "var_field")]
  if b or case["override"]:
    base = deco(meta("Base", (root,), body(case["fields"][:b], [])))
    cls = deco(meta("Child", (base,), body(case["override"] + case["fields"][b:], post), **mutable))
  else:
    cls = deco(meta("Only", (root,), body(case["fields"], post), **mutable))
  if case["sub"]:
    init = cls.__init__

    def __init__(self, *args, **kwargs):
      init(self, *args, **kwargs)
      vars(self)["own"] = 5

    cls = meta("Sub", (cls,), {"__init__": __init__}, **mutable)
  assert all(str(v) == k for k, v in metas.items()), f"the metadata passed in was changed: {metas}"
  return cls, post


def final_fields(case):
  final = {f["name"]: f for f in case["fields"]}
  final.update({f["name"]: f for f in case["override"]})
  return final


def run(case, rec):
  counter = {}
  cls, post = make_class(case, counter)
  final = final_fields(case)
  names = [f["name"] for f in case["fields"]]
  post_names = {f["name"] for f in post}
  rec.tag(case["form"])
  rec.tag("inherited", bool(case["base"]))
  rec.tag("overridden", bool(case["override"]))

  # what the specifiers tell the standard library
  for f in dataclasses.fields(cls):
    s = final[f.name]
    if s["role"] != "bare":
      assert f.init == s["init"]
      user = {k: v for k, v in f.metadata.items() if not k.startswith("nnx_")}
      assert user == (s["meta"] or {}), f"metadata of {f.name}: {user}"
      if s["flags"]:
        assert (f.repr, f.compare, f.hash) == (s["repr"], s["compare"], s["hash"]), f.name
      else:
        assert (f.repr, f.compare, f.hash) == (True, True, None), f.name
  assert [f.name for f in dataclasses.fields(cls)] == names, "field order"

  for n, b in enumerate(case["builds"]):
    made = {k: T.make(v) for k, v in b["pass"]}
    # fields that can be passed by position are a prefix without gaps
    init_names = [x for x in names if final[x]["init"]]
    pos = []
    for x in init_names[:b["pos"]]:
      if x not in made:
        break
      pos.append(x)
    order = [b["pass"][i][0] for i in b["perm"]]
    kwargs = {x: made[x][0] for x in order if x not in pos}
    attrs, refused, calls = {}, [], {}
    for x in names:
      f = final[x]
      if not f["init"] and f["how"] == "none" and x not in post_names:
        continue  # never set
      if x in post_names:
        value = ("raw", ("post", x))
      elif x in made:
        value = made[x][1]
      else:
        value = T.make(f["default"])[1]
      if x not in made and f["how"] == "factory":
        calls[x] = 1
      e = expected(f, value)
      if e is None:
        refused.append(x)
      if f["init"] or f["how"] == "factory" or x in post_names or f["role"] not in ("field", "bare"):
        attrs[x] = e
    if case["sub"]:
      attrs["own"] = ("raw", 5)
    counter.clear()
    try:
      obj = cls(*[made[x][0] for x in pos], **kwargs)
    except ValueError:
      assert refused, f"construction {n} refused"
      rec.tag("refused")
      rec.nt(True)
      continue
    assert not refused, f"construction {n}: fields {refused} accepted containers of another kind"
    assert counter == calls, f"construction {n}: default factories called {counter} instead of {calls}"
    what = f"construction {n}"
    for x in set(names) - set(attrs):  # not in __init__: nothing, or the default as a class attribute
      if final[x]["how"] == "none":
        assert not hasattr(obj, x), f"{what}.{x}"
        continue
      T.same_value(getattr(obj, x), T.make(final[x]["default"])[0], f"{what}.{x}")
      rec.tag("class attribute")
    declared = [x for x in names if final[x]["role"] not in ("field", "bare")]
    rec.nt(bool(declared) and (len(made) < len(names) or any(m[0] != "raw" for _, m in made.values())))
    rec.tag("default factory", bool(calls))
    rec.tag("post init", bool(post_names))
    if case["form"] == "module":
      T.same_fields(obj, attrs, what)
      state, moduledef = obj.partition()
      want = sorted(x for x in attrs if T.is_node(attrs[x]))
      assert sorted(state.keys()) == want, f"{what}: state {sorted(state.keys())} instead of {want}"
      for x in want:
        got, e = state[x], attrs[x]
        if e[0] == "cont":
          assert type(got) is T.KINDS[e[1]], f"{what}.{x}: {type(got)}"
          assert {k: v for k, v in vars(got).items() if k != "value"} == e[2], f"{what}.{x}: metadata"
          got = vars(got)["value"]
        T.same_value(got, e[3] if e[0] == "cont" else e[1], f"{what}.{x} in the state")
      again = moduledef.merge(state)
      assert type(again) is cls
      T.same_fields(again, attrs, f"{what}, merged")
    else:
      T.same_object(obj, cls, attrs, what)
      again = jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(obj)))
      T.same_object(again, cls, attrs, f"{what}, unflattened")


T.KINDS.update({k: v for k, v in VARS.items()})


# ------------------------------------------------------------------ wrong specifiers


@st.composite
def wrong_cases(draw):
  return {"role": draw(st.sampled_from(["node_field", "static_field", "param_field", "var_field"])), "both": draw(st.booleans()), "other": draw(st.booleans())}


def run_wrong(case, rec):
  """Specifiers refuse what they cannot mean."""
  rec.nt(True)
  f = (lambda **k: nnx.var_field(nnx.Param, **k)) if case["role"] == "var_field" else getattr(nnx, case["role"])
  meta = {"nnx_container_fn": 1, **({"a": 1} if case["other"] else {})}
  kw = {"default": 1, "default_factory": int} if case["both"] else {"metadata": meta}
  try:
    f(**kw)
  except ValueError:
    assert "a" not in meta or meta["a"] == 1
    return
  raise AssertionError(f"{case['role']}({kw}) was accepted")


# ------------------------------------------------------------------ the options of the decorator


OPTS = {"init": True, "repr": True, "eq": True, "order": False, "unsafe_hash": False, "frozen": False}


@st.composite
def option_cases(draw):
  opts = {k: draw(st.booleans()) for k in OPTS if draw(st.booleans())}
  n = draw(st.integers(1, 3))
  flags = lambda: {k: draw(st.booleans()) for k in ("compare", "repr") if draw(st.integers(0, 2)) == 0}
  return {
      "form": draw(st.sampled_from(["plain", "plain", "pytree", "module"])), "opts": opts, "n": n,
      "roles": [draw(st.sampled_from(["field", "static_field", "bare"])) for _ in range(n)],
      "flags": [flags() for _ in range(n)], "own": draw(st.sampled_from([[], [], ["__repr__"], ["__eq__"], ["__hash__"], ["__lt__"]])),
      "values": draw(st.lists(st.lists(st.integers(0, 2), min_size=n, max_size=n), min_size=2, max_size=3)),
      "inherit": draw(st.integers(0, 3)) == 0, "positional": draw(st.integers(0, 3)) == 0,
  }


def run_options(case, rec):
  """The options mean what they mean for dataclasses.dataclass."""
  n, opts = case["n"], case["opts"]
  root = {"plain": object, "pytree": nnx.Pytree, "module": nnx.Module}[case["form"]]
  own = {"__repr__": lambda self: "own", "__eq__": lambda self, other: True, "__hash__": lambda self: 3, "__lt__": lambda self, other: False}

  def make(deco, specs):
    ns = {"__annotations__": {f"a{i}": int for i in range(n)}, "__qualname__": "Opt", **{k: own[k] for k in case["own"]}}
    for i, r in enumerate(case["roles"]):
      if r != "bare":
        ns[f"a{i}"] = specs[r](**case["flags"][i])
    if "init" in opts and not opts["init"]:
      def __init__(self, *a):
        for i, v in enumerate(a):
          object.__setattr__(self, f"a{i}", v)
      ns["__init__"] = __init__
    if case["inherit"]:
      base = deco(type(root)("Base", (root,), {"__annotations__": {"b": int}, "b": specs["field"](default=7)}))
      for i in range(n):
        if f"a{i}" not in ns:
          ns[f"a{i}"] = specs["field"](default=0)
        elif isinstance(ns[f"a{i}"], dataclasses.Field):
          ns[f"a{i}"] = specs[case["roles"][i]](default=0, **case["flags"][i])
      return deco(type(root)("Opt", (base,), ns))
    return deco(type(root)("Opt", (root,), ns))

  def values_of(c):
    if case["inherit"] and opts.get("init", True):
      return lambda v: c(**{f"a{i}": x for i, x in enumerate(v)})
    return lambda v: c(*v)

  std = {"field": dataclasses.field, "static_field": dataclasses.field}
  ours = {"field": nnx.field, "static_field": nnx.static_field}

  def attempt(f):
    try:
      r = f()
    except (TypeError, ValueError, AttributeError) as e:
      return ("raises", type(e).__name__)
    return ("gives", r if isinstance(r, (bool, int, str, type(None), list, dict)) else repr(r) if r is NotImplemented else str(type(r)))

  got, want = {}, {}
  for out, deco, specs in (
      (want, dataclasses.dataclass(**opts), std),
      (got, (nnx.dataclass if not opts and not case["positional"] else nnx.dataclass(**opts)), ours),
  ):
    try:
      c = make(deco, specs)
    except (TypeError, ValueError) as e:
      out["class"] = type(e).__name__
      continue
    out["params"] = str(c.__dataclass_params__)
    out["fields"] = [(f.name, f.init, f.repr, f.compare, f.hash) for f in dataclasses.fields(c)]
    out["hash is"] = c.__hash__ is None
    try:
      objs = [values_of(c)(v) for v in case["values"]]
    except (TypeError, AttributeError, ValueError) as e:
      out["objects"] = type(e).__name__
      continue
    for i, a in enumerate(objs):
      if case["form"] == "plain" or opts.get("repr", True):
        if opts.get("repr", True) or "__repr__" in case["own"]:
          out["repr", i] = attempt(lambda: repr(a))
      if c.__hash__ is not None and c.__hash__ is not root.__hash__:
        out["hash", i] = attempt(lambda: hash(a))
      if case["form"] == "plain" or opts.get("frozen", False):
        out["frozen", i] = attempt(lambda: setattr(a, "a0", 2))
        out["kept", i] = a.a0
        out["deleted", i] = attempt(lambda: delattr(a, "a0"))
        out["kept 2", i] = getattr(a, "a0", None)
        object.__setattr__(a, "a0", case["values"][i][0])
    for i, a in enumerate(objs):
      for j, b in enumerate(objs):
        out["eq", i, j] = attempt(lambda: a == b)
        out["ne", i, j] = attempt(lambda: a != b)
        for name, f in (("lt", lambda: a < b), ("le", lambda: a <= b), ("gt", lambda: a > b), ("ge", lambda: a >= b)):
          out[name, i, j] = attempt(f)
      out["astuple", i] = dataclasses.astuple(a)
      out["replaced", i] = attempt(lambda: dataclasses.astuple(dataclasses.replace(a, a0=9)))
  rec.nt(bool(opts))
  rec.tag("order", opts.get("order", False))
  rec.tag("frozen", opts.get("frozen", False))
  rec.tag(case["form"])
  for k in want.keys() | got.keys():
    assert got.get(k) == want.get(k), f"{k}: {got.get(k)}, dataclasses.dataclass: {want.get(k)}"


CHECKS = [
    Check("layouts", cases, run, quick=2000, thorough=40000),
    Check("wrong", wrong_cases, run_wrong, quick=32, thorough=64),
    Check("options", option_cases, run_options, quick=800, thorough=10000),
]
