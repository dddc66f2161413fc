"""C04 A variable attribute keeps its kind and metadata for life."""
from hypothesis import strategies as st

import nnx
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: histories of 1-10 operations (plain assignment, container assignment from a pool or fresh, re-wrapping, "
    "replace, copy, metadata initializers, sow, delete, clone, changes to the passed-in container) on up to 4 "
    "attributes of one module or mutable pytree object, compared with a slot model after every step. Non-trivial: "
    "an operation hit an attribute that already held a container."
)

ATTRS = ["a", "b", "c", "d"]  # one per pool entry
SMALL = st.one_of(V.arrays("jn", "fi", [[], [2]]), V.scalars)
# what is recorded may itself be a tuple, a list or a dict
SOWN = st.one_of(
    SMALL, SMALL, st.lists(SMALL, max_size=2).map(lambda v: ["tup", v]), st.lists(SMALL, max_size=2).map(lambda v: ["lst", v]),
    SMALL.map(lambda v: ["dic", [["k", v]]]), st.just(["s", None]),
)
meta_pool = [
    [], [], [["sharding", ["x", None]]], [["sharding", None]], [["note", 1]], [["note", 2]], [["note", 1], ["tag", 0.5]],
    [["unbox_fn", "a"]], [["unbox_fn", "b"]], [["sharding", ["x"]], ["unbox_fn", "a"]],
]


def container(kinds=None):
  return st.one_of(
      st.tuples(
          st.sampled_from(kinds or ["Param", "Param", "BatchStat", "Intermediate", "Variable", "CustomVar", "Node"]), SMALL,
          st.sampled_from(meta_pool),
      ).map(lambda t: ["var", t[0], t[1], list(t[2])]),
      SMALL.map(lambda v: ["Static", v]),
  )


attr = st.sampled_from(ATTRS[:2] + ATTRS)
op = st.one_of(
    st.tuples(st.just("plain"), attr, SMALL),
    st.tuples(st.just("plain"), attr, SMALL),
    st.tuples(st.just("leaf"), attr, SMALL),
    st.tuples(st.just("fresh"), attr, container()),
    st.tuples(st.just("likeattr"), attr, attr, SMALL),
    st.tuples(st.just("pool"), attr, st.integers(0, 3)),
    st.tuples(st.just("poke"), st.integers(0, 3), SMALL),
    st.tuples(st.just("raw"), attr, attr),
    st.tuples(st.just("wrap"), st.integers(0, 3), st.sampled_from(sorted(V.KINDS)), st.sampled_from(meta_pool)),
    st.tuples(st.just("rewrap"), st.integers(0, 3), st.integers(0, 9)),
    st.tuples(st.just("replace"), st.integers(0, 3), SMALL, st.sampled_from(["value", "note", "sharding", "bogus", "both", "container", "other"])),
    st.tuples(st.just("copy"), st.integers(0, 3)),
    st.tuples(st.just("init"), attr, st.sampled_from(["Param", "BatchStat", "Node"]), SMALL, st.sampled_from(meta_pool)),
    st.tuples(st.just("sow"), attr, st.sampled_from(["Intermediate", "Cache", "Param", "CustomVar"]), SOWN),
    st.tuples(st.just("sow"), attr, st.sampled_from(["Intermediate", "Intermediate", "Param"]), SOWN),
    st.tuples(st.just("tuple"), attr, SMALL),
    st.tuples(st.just("del"), attr),
    st.tuples(st.just("clone")),
).map(list)


@st.composite
def cases(draw):
  return {
      "pool": draw(st.lists(container(), min_size=4, max_size=4)),
      "ops": draw(st.lists(op, min_size=3, max_size=12)),
      "cls": draw(st.sampled_from(["A", "A", "Dict", "Data", "PT"])),
  }


class MutPT(nnx.Pytree, mutable=True):
  def __init__(self, values):
    for k, v in values.items():
      setattr(self, k, v)


def meta_of(a):
  if a[0] == "Static":
    return {}
  m = V.make_meta(a[3])
  if a[1] != "Node":
    m.setdefault("sharding", None)
  return m


def kind_of(a):
  return "Static" if a[0] == "Static" else a[1]


def is_cont(a):
  return a is not None and a[0] in ("var", "Static")


def equivalent(a, b):
  return kind_of(a) == kind_of(b) and meta_of(a) == meta_of(b)


def with_value(a, v):
  return ["Static", v] if a[0] == "Static" else ["var", a[1], v, a[3]]


def value_of(a):
  return a[1] if a[0] in ("Static", "val") else a[2]


def make_container(kind, value, meta):
  if kind == "Static":
    return nnx.Static(value)
  return V.KINDS[kind](value, **meta)


def raises(f, what):
  try:
    f()
  except ValueError:
    return
  raise AssertionError(f"{what} was accepted")


def run(case, rec):
  pt = case["cls"] == "PT"
  pool_spec = [list(x) for x in case["pool"]]
  pool = [V.make_leaf(x) for x in pool_spec]
  slots = {}
  if pt:
    # a mutable pytree object can only change fields it was constructed with
    for i, name in enumerate(ATTRS):
      slots[name] = list(pool_spec[i])
    obj = MutPT(dict(zip(ATTRS, pool)))
  else:
    obj = {"A": V.ModA, "Dict": nnx.Dict, "Data": V.DataMod}[case["cls"]]()
  base = {} if pt else {k: V.desc(v) for k, v in G.attrs_of(obj).items()}

  def raw(o):
    return {k: v for k, v in vars(o).items() if not k.startswith("_")}

  def check(what):
    want = dict(base)
    want.update({k: V.d_leaf_spec(a) for k, a in slots.items()})
    have = {k: V.desc(v) for k, v in raw(obj).items()}
    G.same(tuple(sorted(have.items())), tuple(sorted(want.items())), what)
    leaves = None if pt else obj.mutable_state_dict()
    for k, a in slots.items():
      v = getattr(obj, k)
      want_v = V.make_value(value_of(a))
      unbox = None if pt or a[0] != "var" else meta_of(a).get("unbox_fn")
      if unbox is not None:
        want_v = (f"unboxed-{'a' if unbox is V.unbox_a else 'b'}", want_v)
      G.same(V.desc(v), V.desc(want_v), f"{what}: reading {k}")
      if leaves is not None and is_cont(a) and a[0] == "var":
        G.same(V.desc(leaves[k].value), V.desc(want_v), f"{what}: reading mutable leaf {k}")
        assert leaves[k].sharding == meta_of(a).get("sharding"), f"{what}: sharding of mutable leaf {k}"
      if case["cls"] == "Dict":
        G.same(V.desc(obj[k]), V.desc(want_v), f"{what}: reading item {k}")
    for i, (c, a) in enumerate(zip(pool, pool_spec)):
      G.same(V.desc(c), V.d_leaf_spec(a), f"{what}: container {i} of the pool")

  taken = []  # (container, description when it was taken): states are snapshots

  def snapshot():
    for k, v in (raw(obj) if pt else obj.get_state()).items():
      if isinstance(v, nnx.Container):
        taken.append((k, v, V.desc(v)))

  def check_taken(what):
    for k, v, d in taken:
      G.same(V.desc(v), d, f"{what}: container of {k} in a state taken before")

  check("at the start")
  snapshot()
  for step, o in enumerate(case["ops"]):
    what = f"after step {step} ({o[0]})"
    kind = o[0]
    rec.tag(kind)

    def assign_container(name, spec, make):
      old = slots.get(name)
      if is_cont(old):
        rec.nt()
        if equivalent(old, spec):
          setattr(obj, name, make())
          slots[name] = with_value(old, value_of(spec))
        else:
          rec.tag("refused")
          raises(lambda: setattr(obj, name, make()), f"{what}: assigning {spec} over {old}")
      else:
        setattr(obj, name, make())
        slots[name] = list(spec)

    if kind in ("plain", "tuple", "leaf"):
      _, name, v = o
      if kind == "leaf" and (pt or not is_cont(slots.get(name)) or slots[name][0] != "var"):
        continue
      if kind == "tuple":
        v = ["tup", [v]]
      old = slots.get(name)
      if kind == "leaf":
        obj.mutable_state_dict()[name].value = V.make_value(v)
      else:
        setattr(obj, name, V.make_value(v))
      if is_cont(old):
        rec.nt()
        slots[name] = with_value(old, v)
      else:
        slots[name] = ["val", v]
    elif kind == "fresh":
      assign_container(o[1], o[2], lambda: V.make_leaf(o[2]))
    elif kind == "likeattr":
      src = slots.get(o[2])
      if is_cont(src):
        spec = with_value(src, o[3])
        assign_container(o[1], spec, lambda: V.make_leaf(spec))
    elif kind == "pool":
      assign_container(o[1], pool_spec[o[2]], lambda: pool[o[2]])
    elif kind == "raw":
      # assigning another attribute's stored container: the attributes stay independent
      src = slots.get(o[2])
      if is_cont(src):
        assign_container(o[1], src, lambda: vars(obj)[o[2]])
        if o[1] != o[2] and o[1] in vars(obj):
          assert vars(obj)[o[1]] is not vars(obj)[o[2]], f"{what}: two attributes share one container"
    elif kind == "poke":
      pool[o[1]].value = V.make_value(o[2])
      pool_spec[o[1]] = with_value(pool_spec[o[1]], o[2])
    elif kind == "wrap":
      src, c = pool_spec[o[1]], pool[o[1]]
      meta = o[3]
      target = ["var", o[2], value_of(src), meta]
      if equivalent(src, target):
        rec.nt()
        G.same(V.desc(make_container(o[2], c, V.make_meta(meta))), V.d_leaf_spec(target), f"{what}: re-wrapping")
      else:
        rec.tag("refused")
        raises(lambda: make_container(o[2], c, V.make_meta(meta)), f"{what}: wrapping {src} as {target}")
    elif kind == "rewrap":
      src, c = pool_spec[o[1]], pool[o[1]]
      meta = [m for m in meta_pool[o[2] % len(meta_pool)]]
      own = {k: v for k, v in meta_of(src).items()}
      new = make_container(kind_of(src), c, own)
      G.same(V.desc(new), V.d_leaf_spec(src), f"{what}: re-wrapping with the same kind and metadata")
      assert new is not c
      del meta
    elif kind == "replace":
      src, c = pool_spec[o[1]], pool[o[1]]
      v, mode = o[2], o[3]
      own = meta_of(src)
      if mode == "value":
        G.same(V.desc(c.replace(value=V.make_value(v))), V.d_leaf_spec(with_value(src, v)), f"{what}: replace(value)")
      elif mode == "container":
        other = with_value(src, v)
        G.same(V.desc(c.replace(value=V.make_leaf(other))), V.d_leaf_spec(other), f"{what}: replace(value=container)")
      elif mode == "other":
        other = case["pool"][(o[1] + 1) % 4]
        if not equivalent(src, other):
          raises(lambda: c.replace(value=V.make_leaf(other)), f"{what}: replace with the contents of {other}")
      elif mode == "bogus":
        raises(lambda: c.replace(bogus_key=1), f"{what}: replace of an unknown key")
      else:
        key = "sharding" if mode == "sharding" else "note"
        new = ("q",) if key == "sharding" else "new note"
        kw = {key: new}
        if mode == "both":
          kw["value"] = V.make_value(v)
        if key in own and src[0] == "var":
          meta2 = [[k, x] for k, x in src[3] if k != key] + [[key, ["q"] if key == "sharding" else "new note"]]
          want = ["var", src[1], v if mode == "both" else src[2], meta2]
          G.same(V.desc(c.replace(**kw)), V.d_leaf_spec(want), f"{what}: replace({key})")
        else:
          raises(lambda: c.replace(**kw), f"{what}: replace of the unknown key {key}")
    elif kind == "copy":
      c2 = pool[o[1]].copy()
      assert c2 is not pool[o[1]]
      G.same(V.desc(c2), V.d_leaf_spec(pool_spec[o[1]]), f"{what}: copy")
      c2.value = "changed"
    elif kind == "init":
      _, name, k, v, meta = o
      calls = []

      def initializer(*args):
        calls.append(args)
        return V.make_value(v)

      made = nnx.with_metadata(initializer, **V.make_meta(meta))(1, "x")
      assert calls == [(1, "x")], calls
      spec = ["var", k, v, meta]
      cont = V.KINDS[k](made)
      G.same(V.desc(cont), V.d_leaf_spec(spec), f"{what}: container of a metadata initializer")
      assign_container(name, spec, lambda: V.KINDS[k](made))
    elif kind == "sow":
      if pt:
        continue
      _, name, k, v = o
      old = slots.get(name)
      if old is None:
        obj.sow(V.KINDS[k], name, V.make_value(v))
        slots[name] = ["var", k, ["tup", [v]], []]
      elif old[0] == "var" and old[1] == k and old[2][0] == "tup":
        rec.nt()
        rec.tag("sow appended")
        obj.sow(V.KINDS[k], name, V.make_value(v))
        slots[name] = ["var", k, ["tup", old[2][1] + [v]], old[3]]
      else:
        rec.tag("refused")
        raises(lambda: obj.sow(V.KINDS[k], name, V.make_value(v)), f"{what}: sow of {k} over {old}")
    elif kind == "del":
      if pt:
        continue
      if o[1] in slots:
        delattr(obj, o[1])
        del slots[o[1]]
    elif kind == "clone":
      if not pt:
        obj = obj.clone()
    check(what)
    check_taken(what)
    snapshot()


# ------------------------------------------------------------------ long histories of one attribute


@st.composite
def long_cases(draw):
  return {
      "n": draw(st.sampled_from([17, 33, 65, 130, 257, 300])), "kind": draw(st.sampled_from(sorted(set(V.KINDS) - {"Node"}))), "meta": draw(V.metadata(True)),
      "through": draw(st.sampled_from([0, 0, 7, 50])), "x": draw(st.integers(0, 50)),
  }


def run_long(case, rec):
  """Many sows and assignments: the kind and the metadata stay, every sown value is there."""
  rec.nt(True)
  kind, n = V.KINDS[case["kind"]], case["n"]
  meta = V.make_meta(case["meta"])
  obj = V.ModA()
  obj.a = kind(0, **meta)
  want_meta = {k: v for k, v in vars(vars(obj)["a"]).items() if k != "value"}
  assert {k: want_meta[k] for k in meta} == meta
  for i in range(n):
    obj.sow(kind, "s", case["x"] + i)
    if i % 3 == 0:
      obj.a = kind(i, **meta)
    elif i % 3 == 1:
      obj.a = i
    else:
      obj.update_state(nnx.State({"a": kind(i, **meta)}))
    if case["through"] and i % case["through"] == 0:
      obj = obj.clone()
    raw = vars(obj)
    assert type(raw["a"]) is kind and {k: v for k, v in vars(raw["a"]).items() if k != "value"} == want_meta and raw["a"].value == i, f"after {i + 1} changes"
  assert type(vars(obj)["s"]) is kind and vars(obj)["s"].value == tuple(case["x"] + i for i in range(n)), f"{n} values sown: {vars(obj)['s'].value}"



# ---------------------------------------------------------------- metadata in any order

NAMES = ["note", "tag", "role", "sharding"]


@st.composite
def order_cases(draw):
  names = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=4, unique=True))
  return {
      "kind": draw(st.sampled_from(["Param", "BatchStat", "Variable", "CustomVar", "Node"])), "meta": [[n, draw(st.integers(0, 2))] for n in names],
      "order": draw(st.permutations(names)), "how": draw(st.sampled_from(["assign", "wrap", "replace", "update", "dict"])),
      "change": draw(st.sampled_from([None, None] + names)), "v": draw(st.integers(0, 9)),
  }


def run_order(case, rec):
  """Metadata agrees or not whatever the order it was given in."""
  kind, how, change = V.KINDS[case["kind"]], case["how"], case["change"]
  make = lambda n, k: ("x",) * k if n == "sharding" else k
  meta = {n: make(n, k) for n, k in case["meta"]}
  other = {n: make(n, dict(case["meta"])[n] + (n == change)) for n in case["order"]}
  rec.nt(list(meta) != list(other))
  rec.tag(how)
  rec.tag("agrees", change is None)
  obj = nnx.Dict(a=kind(0, **meta))
  src = kind(case["v"] + 1, **other)

  if how == "assign":
    fn = lambda: setattr(obj, "a", src)
  elif how == "dict":
    fn = lambda: obj.__setitem__("a", src)
  elif how == "wrap":
    fn = lambda: setattr(obj, "a", kind(src, **meta))
  elif how == "replace":
    fn = lambda: setattr(obj, "a", vars(obj)["a"].replace(value=src))
  else:
    fn = lambda: obj.update_state(nnx.State({"a": src}))
  try:
    fn()
  except ValueError:
    assert change is not None, f"{how}: metadata that agrees was refused"
    assert obj.a == 0, f"{how}: refused, but the value changed"
  else:
    assert change is None, f"{how}: other metadata was accepted"
    assert obj.a == case["v"] + 1
  now = vars(obj)["a"]
  assert type(now) is kind and {k: v for k, v in vars(now).items() if k in meta} == meta, f"{how}: kind or metadata changed"


CHECKS = [
    Check("order", order_cases, run_order, quick=600, thorough=10000),
    Check("slots", cases, run, quick=12000, thorough=200000),
    Check("long", long_cases, run_long, quick=80, thorough=800),
]
