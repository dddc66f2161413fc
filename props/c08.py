"""C08 Initialization mode and graph traversal reach every module exactly once."""
import jax
import jax.numpy as jnp
from hypothesis import strategies as st

import nnx
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: a module graph with sharing and cycles, the module init is called on, an access chain to the module whose "
    "method runs, and a tree of actions performed inside (nested init on another module, clone, split and merge, apply, "
    "jit, attaching and detaching modules, traversals, raising). Oracle: the set of modules reachable in the Python "
    "object graph. Non-trivial: at least 2 modules are initializing or an action other than a plain look happens."
)

CALLABLE = ("A", "B", "Sub")
LEAF = st.one_of(
    V.arrays("j", "f", [[], [2]]).map(lambda v: ["val", v]),
    V.variables(values=V.arrays("j", "f", [[2]]), unbox=False),
    st.integers(0, 3).map(lambda v: ["val", ["s", v]]),
)
NAMES = ["a", "b", "c", "aa", "A", "_p", "w", "x1", "10", "é"]


def reach(module):
  return G.walk_modules(module)[0]


def paths_to(spec, start, targets):
  """Every target reachable from start with one access chain (breadth first, plus one roundabout variant)."""
  out = {start: []}
  queue = [start]
  while queue:
    i = queue.pop(0)
    for name, a in spec["mods"][i]["attrs"]:
      if a[0] == "mod" and a[1] not in out:
        out[a[1]] = out[i] + [name]
        queue.append(a[1])
  return {t: p for t, p in out.items() if t in targets}


@st.composite
def actions(draw, n, depth=2):
  out = []
  for _ in range(draw(st.integers(0, 3))):
    kinds = ["look", "clone", "split", "apply", "jit", "attach", "attach_clone", "detach", "foreach"] + ["init"] * 3 * (depth > 0)
    k = draw(st.sampled_from(kinds))
    if k == "init":
      out.append([k, draw(st.integers(0, n - 1)), draw(st.integers(0, 7)), draw(actions(n, depth - 1)), draw(st.booleans())])
    else:
      out.append([k, draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))])
  return out


@st.composite
def cases(draw):
  g = draw(G.graphs(max_mods=5, max_attrs=2, classes=("A", "A", "B", "Sub", "Dict", "Data"), leaf=LEAF, names=NAMES))
  n = len(g["mods"])
  return {
      "g": g, "root": draw(st.integers(0, n - 1)), "pick": draw(st.integers(0, 7)), "acts": draw(actions(n)),
      "raises": draw(st.booleans()),
  }


class Boom(Exception):
  pass


TYPES = {"Module": nnx.Module, "A": V.ModA, "B": V.ModB, "Sub": V.ModSub, "Dict": nnx.Dict, "Data": V.DataMod}


def run(case, rec):
  spec = case["g"]
  objs = G.build_all(spec)
  callables = [i for i, m in enumerate(spec["mods"]) if m["cls"] in CALLABLE]
  expected = {}  # id -> (module, depth of initialization); modules ever seen
  known = list(objs)
  flags = {id(o): False for o in objs}

  def look(where):
    for o in known:
      assert o.is_initializing is flags[id(o)], (
          f"{where}: a {type(o).__name__} reports initializing={o.is_initializing}, expected {flags[id(o)]}"
      )

  def do_init(i, pick, acts, raises):
    options = paths_to(spec, i, callables)
    options = [(t, p) for t, p in sorted(options.items()) if follows(objs[i], p) is objs[t]]
    if not options:
      return
    t, path = options[pick % len(options)]
    target = objs[t]
    saved = dict(flags)
    inside = reach(objs[i])
    for o in inside:
      flags[id(o)] = True
    token = object()
    error = Boom()
    ran = []

    def body(m, *args, **kw):
      assert m is target and args == (token,) and kw == {"k": 1}
      ran.append(1)
      look("inside init")
      rec.nt(len(inside) > 1)
      for a in acts:
        act(a)
        look(f"after {a[0]} inside init")
      if raises:
        raise error
      return token

    call = objs[i].init
    for name in path:
      call = getattr(call, name)
    try:
      out = call.run_fn(body, token, k=1)
      assert out is token and not raises, "result of the call"
    except Boom as e:
      assert e is error and raises, "exception of the call"
    assert ran == [1]
    # the flags of before, for modules that existed before; modules made inside and reachable are not initializing
    after = {id(o) for o in reach(objs[i])}
    for o in known:
      if id(o) in saved:
        flags[id(o)] = saved[id(o)]
      elif id(o) in after:
        flags[id(o)] = False
    look("after init" + (" that raised" if raises else ""))

  def follows(m, path):
    for name in path:
      m = vars(m).get(name)
      if not isinstance(m, nnx.Module):
        return None
    return m

  def same_flags(a, b, what):
    ra, rb = reach(a), reach(b)
    assert [type(x) for x in ra] == [type(x) for x in rb], what
    assert [x.is_initializing for x in rb] == [flags[id(x)] for x in ra], f"initialization mode after {what}"

  def act(a):
    k, i = a[0], a[1]
    o = objs[i]
    rec.tag(k)
    rec.nt(k != "look")
    if k == "look":
      look("look")
    elif k == "clone":
      same_flags(o, o.clone(), "clone")
    elif k == "split":
      p = o.partition()
      same_flags(o, p.merge(), "split and merge")
      same_flags(o, p.moduledef.merge(p.states), "split and merge by definition")
      same_flags(o, p.partition(nnx.Param, ...).merge(), "split, cut and merge")
    elif k == "apply":
      if spec["mods"][i]["cls"] in CALLABLE:
        seen = []
        _, new = o.apply.run_fn(lambda m: seen.append([x.is_initializing for x in reach(m)]))
        assert seen == [[flags[id(x)] for x in reach(o)]], "initialization mode inside apply"
        same_flags(o, new, "apply")
    elif k == "jit":
      seen = []

      @jax.jit
      def f(p):
        seen.append([x.is_initializing for x in reach(p.merge())])
        return p

      out = f(o.partition())
      assert seen == [[flags[id(x)] for x in reach(o)]], "initialization mode inside jit"
      same_flags(o, out.merge(), "jit")
    elif k == "attach":
      new = V.ModA()
      setattr(o, "attached", new)
      known.append(new)
      flags[id(new)] = False
    elif k == "attach_clone":
      new = objs[a[2]].clone()
      mods = reach(new)
      for x, y in zip(mods, reach(objs[a[2]])):
        known.append(x)
        flags[id(x)] = flags[id(y)]
      setattr(o, "attached2", new)
    elif k == "detach":
      subs = sorted(n for n, v in vars(o).items() if isinstance(v, nnx.Module))
      if subs:
        setattr(o, subs[a[2] % len(subs)], None)
    elif k == "foreach":
      traverse(o, sorted(TYPES)[a[2] % len(TYPES)], rec)
    elif k == "init":
      do_init(i, a[2], a[3], a[4])
    else:
      raise KeyError(k)

  look("before")
  do_init(case["root"], case["pick"], case["acts"], case["raises"])
  del expected


def traverse(o, tname, rec):
  t = TYPES[tname]
  want = [m for m in reach(o) if isinstance(m, t)]
  got = []
  assert o.for_each(t, got.append) is None
  assert len(got) == len(want) and {id(m) for m in got} == {id(m) for m in want}, (
      f"for_each({tname}) visited {len(got)} of {len(want)} modules"
  )
  rec.tag("several matching modules", len(want) > 1)


# ------------------------------------------------------------------ traversal alone (more and bigger graphs)


@st.composite
def graph_cases(draw):
  return {
      "g": draw(G.graphs(max_mods=8, max_attrs=2, leaf=LEAF, names=NAMES)),
      "types": draw(st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=3, unique=True)),
      "mark": draw(st.booleans()), "stop": draw(st.one_of(st.none(), st.integers(1, 4))),
  }


def run_graph(case, rec):
  objs = G.build_all(case["g"])
  rec.nt(len(objs) > 2)
  for root in objs[:3]:
    for t in case["types"]:
      traverse(root, t, rec)
  root = objs[0]
  if case["stop"]:  # the error of the function passes through and traversal works again afterwards
    seen = []

    def f(m):
      seen.append(m)
      if len(seen) == case["stop"]:
        raise Boom()

    try:
      root.for_each(nnx.Module, f)
      assert len(seen) < case["stop"]
    except Boom:
      assert len(seen) == case["stop"]
    traverse(root, case["types"][0], rec)
  if case["mark"]:  # the function may change the module it is given
    count = {}

    def g(m):
      count[id(m)] = count.get(id(m), 0) + 1
      m.visits = jnp.ones(()) if "visits" not in vars(m) else m.visits + 1

    root.for_each(nnx.Module, g)
    mods = reach(root)
    assert count == {id(m): 1 for m in mods}
    assert all(float(m.visits) == 1 for m in mods)


@st.composite
def large_cases(draw):
  return {
      "g": draw(G.large()), "types": draw(st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=3, unique=True)),
      "mark": draw(st.booleans()), "stop": draw(st.one_of(st.none(), st.integers(1, 40))), "root": draw(st.integers(0, 19)),
      "pick": draw(st.integers(0, 7)), "acts": draw(st.lists(st.sampled_from(["look", "clone", "split", "foreach"]).map(lambda k: [k, 0, 0]), max_size=2)),
      "raises": draw(st.booleans()),
  }


def run_large(case, rec):
  spec = G.large_spec(case["g"], classes=("A", "A", "B", "Sub"))
  run_graph({**case, "g": spec}, rec)
  run({**case, "g": spec, "root": case["root"] % len(spec["mods"])}, rec)



CHECKS = [
    Check("init", cases, run, quick=2500, thorough=50000),
    Check("traversal", graph_cases, run_graph, quick=2500, thorough=50000),
    Check("large", large_cases, run_large, quick=40, thorough=500),
]
