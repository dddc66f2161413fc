"""C28 Printing any object terminates, changes nothing and shows its structure."""
import gc
import re

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check

RULE = (
    "Cases: module graphs with sharing, cycles and chains whose attributes are submodules, static values, lists, tuples, "
    "dicts and Static wrappers of them, variables, arrays and pytree objects; the module, every submodule, its state, "
    "parts of it, its definition, the split module, variables, pytree objects and mutable leaves are printed, then printed "
    "again in a generated history in which parts raise while they are printed (the exception dropped or kept), print "
    "other modules themselves, or printing happens inside jit. Oracle: each text is parsed along the object graph. "
    "Non-trivial: at least 2 modules with sharing or a cycle, or a print that failed before others."
)
ASSUMPTIONS = [
    "classes that bring their own __repr__ (also the one generated by dataclasses) decide their text themselves",
    "static attributes whose names start with an underscore are not shown",
]


class Fail(Exception):
  pass


class Stop(BaseException):
  pass


class Tok:
  """A static value with a unique text, which can be told to fail or to print something else."""

  def __init__(self, k, text, ctl):
    self.k, self.text, self.ctl = k, text, ctl

  def __eq__(self, other):
    return isinstance(other, Tok) and other.k == self.k

  def __hash__(self):
    return hash(("Tok", self.k))

  def __repr__(self):
    c = self.ctl
    c["shown"].append(self.k)
    if self.k == c["armed"]:
      raise (Stop if c["base"] else Fail)(f"t{self.k}")
    if self.k == c["printing"]:
      repr(c["other"])
    return self.text


class ModP(nnx.Module):
  def __init__(self):
    pass


class Tree(nnx.Pytree):
  def __init__(self, fields):
    for name, v in fields:
      setattr(self, name, v)


CLASSES = {"A": V.ModA, "B": V.ModB, "P": ModP, "Dict": nnx.Dict}
NAMES = ["a", "b", "c", "aa", "z", "w", "_h", "_p", "kernel", "value", "type", "x1", "x10", "x2", "é", "start", "index"]
KINDS = ["Node", "Variable", "Param", "BatchStat", "CustomVar"]

scalar = st.sampled_from([["tok"], ["tok"], ["tok"], ["multi"], ["str"], ["int"]])


@st.composite
def values(draw, n, depth=2):
  k = draw(st.sampled_from(["leaf", "leaf", "mod", "list", "tuple", "dict", "Static"] if depth else ["leaf", "leaf", "mod"]))
  if k == "leaf":
    return draw(scalar)
  if k == "mod":
    return ["mod", draw(st.integers(0, n - 1))]
  if k == "Static":
    return ["Static", draw(values(n, depth - 1))]
  return [k, [draw(values(n, depth - 1)) for _ in range(draw(st.integers(0, 3)))]]


@st.composite
def cases(draw):
  n = draw(st.integers(1, 6))
  mods = []
  for i in range(n):
    attrs = []
    for name in draw(st.lists(st.sampled_from(NAMES), max_size=5, unique=True)):
      kind = draw(st.sampled_from(["mod", "mod", "value", "value", "value", "var", "arr", "pt", "np"]))
      if kind == "mod":
        a = ["mod", draw(st.integers(0, n - 1))]
      elif kind == "value":
        a = draw(values(n))
        if a[0] in ("list", "dict") and draw(st.booleans()):
          a = ["Static", a]
      elif kind == "var":
        a = ["var", draw(st.sampled_from(KINDS)), draw(scalar) if draw(st.booleans()) else ["arr"], draw(st.lists(st.sampled_from(["note", "tag", "sharding"]), max_size=2, unique=True))]
      elif kind == "pt":
        a = ["pt", draw(st.lists(st.tuples(st.sampled_from(["x", "y", "a", "z"]), st.sampled_from(["tok", "node", "arr", "pt", "str"])), max_size=3, unique_by=lambda t: t[0])), draw(st.booleans())]
      else:
        a = [kind]
      attrs.append([name, a])
    mods.append({"cls": draw(st.sampled_from(sorted(CLASSES))), "attrs": attrs})
  for i in range(1, n):
    p = draw(st.integers(0, i - 1))
    name = f"s{i}"
    mods[p]["attrs"].insert(draw(st.integers(0, len(mods[p]["attrs"]))), [name, ["mod", i]])
  ops = draw(st.lists(st.tuples(
      st.sampled_from(["print", "print", "fail", "fail", "fail", "nest", "jit", "error"]), st.integers(0, 40), st.integers(0, 30), st.sampled_from(["drop", "keep", "base"])).map(list), max_size=6))
  return {"mods": mods, "ops": ops, "perm": draw(st.integers(0, 5)), "seed": draw(st.integers(0, 20))}


def squeeze(text):
  return re.sub(r"\s+", "", text)


class Builder:
  """Makes the object graph; token texts are numbered in specification order, so two builds print alike."""

  def __init__(self, case, ctl):
    self.ctl = ctl
    self.k = 0
    self.toks = []

  def value(self, a, objs):
    t = a[0]
    if t in ("tok", "multi", "str", "int", "arr", "np", "node"):
      self.k += 1
      k = self.k
    if t == "tok" or t == "multi":
      tok = Tok(k, f"<<t{k}>>" if t == "tok" else f"<<t{k}\n  line>>", self.ctl)
      self.toks.append(tok)
      return tok
    if t == "str":
      return f"text{k}"
    if t == "int":
      return 1000000 + k
    if t == "arr":
      return jnp.arange(3, dtype=jnp.float32) + k
    if t == "np":
      return np.arange(4).reshape(2, 2) + k
    if t == "node":
      return nnx.TreeNode(jnp.asarray(k))
    if t == "mod":
      return objs[a[1]]
    if t == "list":
      return [self.value(x, objs) for x in a[1]]
    if t == "tuple":
      return tuple([self.value(x, objs) for x in a[1]])
    if t == "dict":
      return {f"k{i}": self.value(x, objs) for i, x in enumerate(a[1])}
    if t == "Static":
      return nnx.Static(self.value(a[1], objs))
    if t == "var":
      meta = {}
      for m in a[3]:
        meta[m] = ("x", None) if m == "sharding" else self.value(["tok"], objs)
      return V.KINDS[a[1]](self.value(a[2], objs), **meta)
    if t == "pt":
      fields = [(name, self.value([kind] if kind != "pt" else ["pt", [["x", "tok"], ["q", "node"]], False], objs)) for name, kind in a[1]]
      return Tree(fields[::-1] if a[2] else fields)
    raise KeyError(t)

  def build(self, case, rotate=0):
    objs = [CLASSES[m["cls"]]() for m in case["mods"]]
    for o, m in zip(objs, case["mods"]):
      made = [(name, self.value(a, objs)) for name, a in m["attrs"]]
      if made:
        r = rotate % len(made)
        made = made[r:] + made[:r]
      for name, v in made:
        setattr(o, name, v)
    return objs


def is_node(v):
  return isinstance(v, (nnx.Node, nnx.Pytree, jax.Array, np.ndarray, nnx.State))


class Parser:
  """Reads the text of an object guided by the object itself."""

  def __init__(self, text):
    self.raw = text
    self.s = squeeze(text)
    self.i = 0
    self.expanded = {}
    self.mentioned = {}
    self.depth = 0
    self.inside = []

  def fail(self, what):
    raise AssertionError(f"{what} at ...{self.s[max(0, self.i - 30):self.i]}|{self.s[self.i:self.i + 60]}... in\n{self.raw[:900]}")

  def eat(self, text, what=None):
    text = squeeze(text)
    if not self.s.startswith(text, self.i):
      self.fail(f"expected {what or text!r}")
    self.i += len(text)

  def peek(self, text):
    return self.s.startswith(text, self.i)

  def string(self, v):
    for form in (repr(v), v):
      if self.peek(squeeze(form)):
        self.i += len(squeeze(form))
        return
    self.fail(f"expected the text {v!r}")

  def fields(self, want, end, sep="=", quoted=False, optional=lambda name: False):
    seen = set()
    while not self.peek(end):
      if seen:
        self.eat(",")
        if self.peek(end):
          break
      options = sorted((n for n in want if self.peek((repr(n) if quoted else n) + sep)), key=len)
      if not options:
        self.fail(f"expected one of {sorted(want)}")
      name = options[-1]
      if name in seen:
        self.fail(f"{name!r} is shown twice")
      seen.add(name)
      self.eat((repr(name) if quoted else name) + sep)
      self.value(want[name])
    self.eat(end)
    missing = sorted(name for name in set(want) - seen if not optional(name))
    if missing:
      self.fail(f"{missing} not shown")

  def items(self, want, end):
    for k, v in enumerate(want):
      if k:
        self.eat(",")
      self.value(v)
    if self.peek(","):
      self.eat(",")
    self.eat(end)

  def value(self, x):
    if isinstance(x, (list, dict, tuple)) and x:
      # Python itself cuts containers that are inside themselves
      cut = "[...]" if isinstance(x, list) else "{...}" if isinstance(x, dict) else "(...)"
      if id(x) in self.inside:
        self.eat(cut)
        return
      self.inside.append(id(x))
      self.node(x)
      self.inside.pop()
    else:
      self.node(x)

  def node(self, x):
    if isinstance(x, nnx.Module):
      self.eat(type(x).__name__ + "(", "a module")
      self.mentioned[id(x)] = x
      if self.peek("..."):
        self.eat("...)")
        return
      if id(x) in self.expanded:
        if not shown(x) and self.peek(")"):
          self.eat(")")
          return
        self.fail(f"the same {type(x).__name__} is spelled out twice")
      self.expanded[id(x)] = x
      self.depth += 1
      self.fields(shown(x), ")")
      self.depth -= 1
      if not self.depth:
        for i, m in self.mentioned.items():
          if i not in self.expanded:
            self.fail(f"a {type(m).__name__} is only shown as '...'")
        self.expanded, self.mentioned = {}, {}
    elif isinstance(x, (nnx.Container, nnx.Pytree)):
      self.eat(type(x).__name__ + "(")
      self.fields(dict(vars(x)), ")", optional=lambda name: name.startswith("_pytree__"))
    elif isinstance(x, nnx.State):
      self.eat("State({")
      self.fields(dict(x.items()), "})", ":", quoted=True)
    elif isinstance(x, (list, tuple)):
      self.eat("[" if isinstance(x, list) else "(")
      self.items(x, "]" if isinstance(x, list) else ")")
    elif isinstance(x, dict):
      self.eat("{")
      for k, (name, v) in enumerate(x.items()):
        if k:
          self.eat(",")
        self.eat(repr(name) + ":")
        self.value(v)
      self.eat("}")
    elif isinstance(x, Tok):
      self.eat(x.text)
    elif isinstance(x, (set, frozenset)) and self.peek(type(x).__name__ + "({"):
      self.i = self.s.index("})", self.i) + 2
    elif isinstance(x, str):
      self.string(x)
    else:
      self.eat(repr(x))


def shown(m):
  return {
      k: v for k, v in vars(m).items()
      if isinstance(v, nnx.Module) or (not is_node(v) and not k.startswith("_"))
  }


def check_text(obj, text):
  p = Parser(text)
  p.value(obj)
  if p.i != len(p.s):
    p.fail("unexpected rest")


def has_nested(module):
  """Is there a module inside a static value?"""
  statics = [v for m in G.walk_modules(module)[0] for v in G.attrs_of(m).values() if not isinstance(v, nnx.Module) and not is_node(v)]
  return "'mod'" in str([V.desc(v) for v in statics])


def check_def(module, d, text, ctl_toks):
  s = squeeze(text)
  mods, _ = G.walk_modules(module)
  nested = has_nested(module)
  for m in mods:
    for name, v in G.attrs_of(m).items():
      if isinstance(v, nnx.Module) or not is_node(v):
        assert repr(name) in text, f"attribute {name!r} is missing in\n{text[:900]}"
      if isinstance(v, Tok):
        count = s.count(squeeze(v.text))
        assert count == 1 or (nested and count), f"the static value {v.text!r} of {name!r} is shown {count} times in\n{text[:900]}"
  names = [type(m).__name__ for m in mods]
  for c in set(names):
    assert s.count("type=" + c + ",") >= names.count(c) or s.count("type=") < len(mods), f"{names.count(c)} modules of class {c} in\n{text[:900]}"


def contents(m):
  return tuple((k, V.desc(v, id)) for k, v in G.attrs_of(m).items())


def targets(objs):
  root = objs[0]
  out = [("module", o) for o in objs]
  state = root.get_state()
  d = root.get_module_def()
  out.append(("state", state))
  out.append(("state", state.filter(nnx.Param)))
  for part in root.partition(nnx.Param, nnx.buffers, ...).states:
    out.append(("state", part))
  out.append(("def", d))
  out.append(("pure", root.partition()))
  for path, v in list(state.items())[:4]:
    if isinstance(v, (nnx.Container, nnx.Pytree)):
      out.append(("leaf", v))
  for o in objs:
    for name, v in G.attrs_of(o).items():
      if isinstance(v, nnx.Static):
        out.append(("leaf", v))
  leaves = root.mutable_state_dict()
  for path in list(leaves)[:3]:
    out.append(("mutable", leaves[path]))
  return out


unfinished = [False]


def run(case, rec):
  if unfinished[0]:
    gc.collect()  # a failed case must not influence the next one through its abandoned iterators
  unfinished[0] = True
  run_history(case, rec)
  unfinished[0] = False


def run_history(case, rec):
  ctl = {"armed": None, "printing": None, "base": False, "shown": [], "other": None}
  b = Builder(case, ctl)
  objs = b.build(case)
  other = nnx.Dict(inner=nnx.Dict(a=1, b=2), c=3)
  other.again = other.inner
  ctl["other"] = other
  root = objs[0]
  things = targets(objs)
  canon = [contents(o) for o in objs]
  mods, _ = G.walk_modules(root)
  edges = sum(isinstance(v, nnx.Module) for m in mods for v in G.attrs_of(m).values())
  rec.nt(len(mods) > 1 and edges >= len(mods))
  texts = []
  for kind, x in things:
    text = repr(x)
    texts.append(text)
    assert isinstance(text, str)
    if kind in ("module", "state", "leaf"):
      check_text(x, text)
    elif kind == "def":
      check_def(root, x, text, b.toks)
    elif kind == "pure":
      state_text = squeeze(repr(x[0]))
      assert state_text in squeeze(text), "the split module does not show its state"
    assert repr(x) == text, f"printing twice gives two texts:\n{text[:500]}\n{repr(x)[:500]}"
    assert str(x) == text

  def unchanged(where):
    for o, c in zip(objs, canon):
      G.same(contents(o), c, f"{where} changed the object")

  unchanged("printing")
  rec.tag("printed", True)
  # an equal graph, its attributes set in another order
  ctl2 = {"armed": None, "printing": None, "base": False, "shown": [], "other": None}
  twin = Builder(case, ctl2).build(case, rotate=case["perm"])
  for what, get in (("state", lambda m: m.get_state()), ("definition", lambda m: m.get_module_def())):
    x, y = get(root), get(twin[0])
    if what == "definition" and has_nested(root):
      continue  # static modules make the definitions different
    assert repr(x) == repr(y), f"equal {what}s print differently:\n{repr(x)[:600]}\n{repr(y)[:600]}"
  if case["perm"] == 0:
    assert repr(twin[0]) == repr(root), "two modules built in the same way print differently"

  kept = []
  for op, i, j, how in case["ops"]:
    kind, x = things[i % len(things)]
    want = texts[i % len(things)]
    if op == "print":
      assert repr(x) == want, f"after earlier prints, a {kind} prints\n{repr(x)[:700]}\ninstead of\n{want[:700]}"
    elif op in ("fail", "nest"):
      ctl["shown"].clear()
      repr(x)
      inside = sorted(set(ctl["shown"]))
      if not inside:
        continue
      tok = inside[j % len(inside)]
      if op == "nest":
        ctl["printing"] = tok
        assert repr(x) == want, f"a part that prints something else changed the text:\n{repr(x)[:700]}\ninstead of\n{want[:700]}"
        ctl["printing"] = None
        continue
      ctl["armed"], ctl["base"] = tok, how == "base"
      try:
        repr(x)
        raise AssertionError("the failure of a part was swallowed")
      except (Fail, Stop) as e:
        assert str(e) == f"t{tok}"
        if how != "drop":
          kept.append(e)
      finally:
        ctl["armed"] = None
      rec.nt()
      rec.tag("failed print")
    elif op == "jit":
      def f(y):
        m = ModP()
        m.w = nnx.Param(y)
        m.sub = ModP()
        m.sub.me = m
        text = repr(m)
        check_text(m, text)
        assert repr(m) == text
        repr(m.get_state())
        assert repr(x) == want, "printing inside jit gives another text"
        return y

      jax.make_jaxpr(f)(1.0)
    elif op == "error":
      # an error message that shows objects
      try:
        nnx.Variable(root.get_module_def(), note=1).replace(value=nnx.Param(x))
      except ValueError:
        pass
  for (kind, x), want in zip(things, texts):
    got = repr(x)
    assert got == want, f"after the history, a {kind} prints\n{got[:700]}\ninstead of\n{want[:700]}"
  unchanged("the history")
  del kept


# ------------------------------------------------------------------ everything the library offers


class Net(nnx.Module):
  def __init__(self, *, ctx):
    self.lin = nnx.Linear(2, 3, ctx=ctx)
    self.bn = nnx.BatchNorm(3, ctx=ctx)
    self.drop = nnx.Dropout(0.5)
    self.again = self.lin


class Block(nnx.Module):
  def __init__(self, *, ctx):
    self.lin = nnx.Linear(2, 2, ctx=ctx)

  def __call__(self, x, _):
    return self.lin(x), None


def library(name, k):
  ctx = nnx.context(k, flags={"deterministic": True})
  net = Net(ctx=ctx)
  if name == "net":
    return net
  if name == "layers":
    return nnx.Dict(conv=nnx.Conv(2, 3, (3,), ctx=ctx), emb=nnx.Embed(3, 2, ctx=ctx), ln=nnx.LayerNorm(3, ctx=ctx), general=nnx.Linear(2, 2, use_bias=False, ctx=ctx))
  if name == "scan":
    return nnx.Scan(Block, variable_axes={nnx.Param: 0}, length=2)(ctx=ctx)
  if name == "remat":
    return nnx.Remat(Net)(ctx=ctx)
  if name == "seq":
    return nnx.Sequence([net, nnx.Dict(a=net), nnx.relu])
  if name == "train":
    import optax

    d = net.partition()
    return nnx.TrainState(d.moduledef, params=d.states, tx=optax.adam(0.1))
  if name == "struct":
    return jax.eval_shape(lambda: Net(ctx=nnx.context(k)).get_state())
  if name == "grads":
    return nnx.grad(lambda m: m.lin(jnp.ones((2,))).sum())(net)
  if name == "spec":
    return nnx.get_partition_spec(net.get_state())
  if name == "values":
    return jax.tree_util.tree_map(lambda x: x * 2, net.get_state())
  if name == "parts":
    return net.partition(nnx.Param, ...)
  if name == "mutable":
    return net.mutable_state_dict()
  raise KeyError(name)


LIBRARY = ["net", "layers", "scan", "remat", "seq", "train", "struct", "grads", "spec", "values", "parts", "mutable"]


@st.composite
def library_cases(draw):
  return {"things": draw(st.lists(st.sampled_from(LIBRARY), min_size=1, max_size=3)), "k": draw(st.integers(0, 2)),
          "graph": draw(G.graphs(max_mods=5, classes=("A", "Data", "Data", "Dict", "Seq", "B")))}


def leaves_of(x):
  return [V.desc(v) for v in jax.tree_util.tree_leaves(x.partition() if isinstance(x, nnx.Module) else x)]


def strip_addresses(text):
  return re.sub(r"0x[0-9a-f]+", "0x", text)


def run_library(case, rec):
  objs = G.build_all(case["graph"])
  rec.nt(len(objs) > 1)
  canon = G.canon(objs[0])
  state = objs[0].get_state()
  for x in [*objs, state, objs[0].partition(), objs[0].get_module_def(), objs[0].partition(nnx.Param, ...)]:
    text = repr(x)
    assert repr(x) == text
  for path in state:
    assert repr(path) in repr(state), f"path {path} is not shown"
  G.same(G.canon(objs[0]), canon, "printing changed the object")
  for name in case["things"]:
    x = library(name, case["k"])
    rec.tag(name)
    before = None if name in ("struct", "spec", "mutable") else leaves_of(x)
    text = repr(x)
    assert repr(x) == text and text
    assert before is None or leaves_of(x) == before, f"printing changed {name}"
    assert strip_addresses(repr(library(name, case["k"]))) == strip_addresses(text), f"two equal objects ({name}) print differently"
    if name == "net":
      check_text(x.lin, repr(x.lin))
      assert text.count("Linear(") == 2 and "drop=Dropout(" in text and "features_out=3" in text.replace("out_features", "features_out"), text


@st.composite
def large_cases(draw):
  big = draw(G.large())
  return {"things": [], "k": 0, "large": {**big, "n": min(big["n"], 40)}}


def run_large(case, rec):
  """Graphs far larger than the generated ones."""
  run_library({**case, "graph": G.large_spec(case["large"])}, rec)



CHECKS = [
    Check("prints", cases, run, quick=4000), Check("library", library_cases, run_library, quick=120),
    Check("large", large_cases, run_large, quick=24, thorough=300),
]
