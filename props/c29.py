"""C29 Threads do not see each other's trace levels, rules or identities."""
import os

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from nnx import spmd
from props import c09, c21
from vlib import graphs as G
from vlib import values as V
from vlib.driver import Check
from vlib.sched import Sched

RULE = (
    "Cases: 2 or 3 threads, each with a generated program (nested rule scopes with exceptions, rule setters, lookups, "
    "nested transforms whose bodies try to mutate modules and draw from contexts of every level, printing of its own and of "
    "commonly read module graphs, splits, merges, init calls, shared jitted functions, module creation), and a plan that "
    "says after how many operations, lines or bytecodes of the library which thread continues. Oracle: for each thread the "
    "model of its own program alone; for all, distinct identities. Non-trivial: at least two switches between unfinished threads."
)
ASSUMPTIONS = ["a module is mutated, and a context used, only by the thread that created it"]

LEVELS = ["eval_shape", "make_jaxpr", "make_jaxpr", "grad", "vjp", "nnx.grad", "nnx.grad", "nnx.remat", "checkpoint", "nnx.jit", "jit"]


@st.composite
def programs(draw, depth=2):
  out = []
  kinds = ["look", "map", "set", "print", "print", "shared", "split", "ids", "mut", "mut", "new", "ctx", "newctx", "key", "init", "raise"]
  for _ in range(draw(st.integers(2 if depth == 2 else 1, 6))):
    k = draw(st.sampled_from(kinds + ["rules", "t", "t"] * (2 if depth else 0)))
    if k in ("look", "new", "newctx", "key", "init", "raise"):
      out.append([k])
    elif k in ("map", "set"):
      out.append([k, draw(st.integers(0, 4))])
    elif k == "print":
      out.append([k, draw(st.sampled_from(["own", "own", "common", "state", "def", "fail"]))])
    elif k in ("shared", "ids", "split"):
      out.append([k, draw(st.integers(1, 3))])
    elif k == "mut":
      out.append([k, draw(st.integers(0, 7)), draw(st.sampled_from(c09.OPS))])
    elif k == "ctx":
      out.append([k, draw(st.integers(0, 7)), draw(st.sampled_from(["draw", "split"]))])
    elif k == "rules":
      out.append([k, draw(st.integers(0, 4)), draw(programs(depth - 1))])
    else:
      out.append(["t", draw(st.sampled_from(LEVELS)), draw(st.integers(0, 7)), draw(st.one_of(st.none(), st.integers(0, 7))),
                  draw(programs(depth - 1)), draw(st.integers(0, 4)) == 0, draw(st.booleans())])
  return out


@st.composite
def cases(draw, mode=None):
  n = draw(st.sampled_from([2, 2, 3]))
  mode = mode or draw(st.sampled_from(["ops", "ops", "lines"]))
  gaps = [0, 0, 1, 1, 2, 3, 5] if mode == "ops" else [0, 1, 2, 3, 5, 8, 13, 30, 60, 150, 400]
  return {
      "mode": mode, "progs": [draw(programs()) for _ in range(n)],
      "plan": draw(st.lists(st.tuples(st.sampled_from(gaps), st.integers(0, n - 1)).map(list), min_size=6, max_size=60)),
  }


class Boom(Exception):
  pass


class Tok:
  """A static value whose printing is a yield point, and can fail."""

  def __init__(self, name, sched, fails=False):
    self.name, self.sched, self.fails = name, sched, fails

  def __repr__(self):
    self.sched.point()
    if self.fails:
      raise Boom(self.name)
    return self.name


def own_graph(k, sched):
  m = V.ModA()
  m.t = Tok(f"<own {k}>", sched)
  m.sub = V.ModB()
  m.sub.up = m
  m.sub.t = Tok(f"<sub {k}>", sched)
  m.again = m.sub
  m.p = nnx.Param(np.arange(2) + k)
  m.sub.q = nnx.BatchStat(np.ones(1) * k)
  return m


@nnx.jit
def shared_step(m, x):
  m.p = m.p + x
  return m.p * 2


class Thread(c09.Machine):
  """Runs one program and compares everything it sees with the model of this program alone."""

  def __init__(self, index, prog, sched, rec, common, made):
    super().__init__(rec)
    self.index, self.prog, self.sched = index, prog, sched
    self.common, self.made = common, made
    self.rules = [0]
    self.drawn = []

  def look(self):
    want = c21.RULESETS[self.rules[-1]]
    got = spmd.get_logical_axis_rules()
    assert tuple(got) == want, f"thread {self.index} sees the rules {got}, not {want}"

  def main(self):
    self.look()
    self.start()
    try:
      self.body(self.prog)
    except Boom:
      pass
    self.look()
    self.probe("the end of the thread")

  def start(self):
    self.add(c09.Mod())
    self.add_ctx(nnx.context(0, flags={"train": True}))
    self.keys = nnx.context(100 + self.index)
    self.graph = own_graph(10 * self.index, self.sched)
    self.jitted = V.ModA()
    self.jitted.p = nnx.Param(jnp.zeros(2))
    self.total = 0.0

  def body(self, acts):
    for a in acts:
      self.sched.point()
      k = a[0]
      if k == "look":
        self.look()
      elif k == "map":
        rules = c21.RULESETS[self.rules[-1]]
        dims = [["a", "b"], ["b", "a"], ["a", None], ["b"], []][a[1]]
        c21.check_spec(spmd.logical_to_mesh_axes(tuple(dims)), dims, rules, f"thread {self.index}")
      elif k == "set":
        spmd.set_logical_axis_rules(c21.RULESETS[a[1]])
        self.rules[-1] = a[1]
      elif k == "rules":
        depth = len(self.rules)
        try:
          with nnx.logical_axis_rules(c21.RULESETS[a[1]]):
            self.rules.append(a[1])
            self.look()
            self.body(a[2])
            self.look()
        except Boom:
          self.rec.tag("scope left by an exception")
        del self.rules[depth:]
        self.look()
      elif k == "raise":
        if len(self.rules) > 1 or len(self.levels) > 1:
          raise Boom()
      elif k == "print":
        self.print(a[1])
      elif k == "split":
        self.split()
      elif k == "shared":
        if len(self.levels) == 1:
          out = shared_step(self.jitted, jnp.full(2, float(a[1])))
          self.total += a[1]
          assert np.array_equal(np.asarray(out), np.full(2, 2 * self.total)), f"shared jitted function gave {out}, not {2 * self.total}"
          assert np.array_equal(np.asarray(self.jitted.p), np.full(2, self.total))
      elif k == "ids":
        for _ in range(a[1]):
          m = V.ModA()
          m.w = nnx.Param(np.asarray([self.index, len(self.made[self.index])]))
          self.made[self.index].append(m)
      elif k == "key":
        if len(self.levels) == 1:
          self.drawn.append(np.asarray(self.keys.make_rng("params")))
      elif k == "init":
        self.init()
      else:
        super().body([a])

  def print(self, what):
    g = self.graph
    if what == "common":
      got, want = repr(self.common[0]), self.common[1]
    elif what == "fail":
      m = V.ModB()
      m.a = V.ModA()
      m.a.t = Tok("fails", self.sched, fails=True)
      m.a.up = m
      try:
        repr(m)
        raise AssertionError("no failure")
      except Boom:
        pass
      got = repr(V.ModA())
      want = "ModA()"
    else:
      x = {"own": g, "state": g.get_state(), "def": g.get_module_def()}[what]
      got, want = repr(x), self.solo[what]
    assert got == want, f"thread {self.index} printed\n{got}\ninstead of\n{want}"

  def split(self):
    new = self.graph.partition().merge()
    assert new.again is new.sub and new.sub.up is new and new is not self.graph
    assert sorted(self.graph.get_state()) == ["again/q", "p"]
    state = self.common[0].get_state()
    assert len(state) == self.common[2], f"the common graph has {list(state)}"

  def init(self):
    m = c09.Mod()
    m.sub = c09.Mod()
    m.sub.up = m

    def inside(x):
      self.sched.point()
      assert m.is_initializing and m.sub.is_initializing
      return x

    m.run = Holder(inside)
    assert m.init.run(3) == 3
    assert not m.is_initializing and not m.sub.is_initializing


class Holder:
  def __init__(self, fn):
    self.fn = fn

  def __call__(self, *args):
    return self.fn(*args)


def run(case, rec):
  n = len(case["progs"])
  root = os.path.dirname(nnx.__file__)
  sched = Sched(case["plan"], case["mode"], root)
  common = own_graph(500, sched)
  common.deep = own_graph(600, sched)
  common.deep.root = common
  made = [[] for _ in range(n)]
  shared = (common, repr(common), len(common.get_state()))
  machines = [Thread(i, p, sched, rec, shared, made) for i, p in enumerate(case["progs"])]
  for i, mach in enumerate(machines):
    g = own_graph(10 * i, sched)
    mach.solo = dict(own=repr(g), state=repr(g.get_state()), **{"def": repr(g.get_module_def())})
  spmd.set_logical_axis_rules(())
  with nnx.logical_axis_rules(c21.RULESETS[2]):
    # the threads start without rules, whatever the thread that starts them has
    errors = sched.run([m.main for m in machines])
    assert tuple(spmd.get_logical_axis_rules()) == c21.RULESETS[2], "a thread changed the rules of the main thread"
  for i, e in enumerate(errors):
    if e is not None:
      if isinstance(e, Exception):
        raise e
      raise AssertionError(f"thread {i} ended with {e!r}")
  rec.nt(sched.switches >= 2)
  rec.tag(case["mode"])
  rec.tag("waited for a lock", sched.steals > 0)
  rec.tag("switched inside a print", sched.switches > 5)
  for i, mach in enumerate(machines):
    ctx = nnx.context(100 + i)
    for key in mach.drawn:
      assert np.array_equal(np.asarray(ctx.make_rng("params")), key), f"thread {i} drew other keys"
  check_identities(made)
  probe = c09.Mod()
  probe.s = 5
  assert repr(common) == shared[1], "printing in the main thread changed"


def check_identities(made):
  holder = nnx.Dict()
  count = 0
  for i, ms in enumerate(made):
    for j, m in enumerate(ms):
      holder[f"m{i}_{j}"] = m
      count += 1
  state = holder.get_state()
  assert len(state) == count, f"{count} distinct modules, but only {len(state)} states: some are taken for the same one"
  for path, v in state.items():
    i, j = path.split("/")[0][1:].split("_")
    assert list(v.value) == [int(i), int(j)]
  new = holder.partition().merge()
  assert len({id(x) for x in new.values()}) == count


# ------------------------------------------------------------------ identities, bytecode by bytecode


@st.composite
def id_cases(draw):
  n = draw(st.integers(2, 3))
  return {"n": [draw(st.integers(1, 3)) for _ in range(n)], "clone": draw(st.booleans()),
          "plan": draw(st.lists(st.tuples(st.integers(0, 25), st.integers(0, n - 1)).map(list), min_size=1, max_size=40))}


def run_ids(case, rec):
  n = len(case["n"])
  made = [[] for _ in range(n)]
  sched = Sched(case["plan"], "opcodes", os.path.dirname(nnx.__file__))

  def body(i):
    def main():
      for j in range(case["n"][i]):
        m = V.ModA()
        m.w = nnx.Param(np.asarray([i, len(made[i])]))
        made[i].append(m)
        if case["clone"]:
          c = m.clone()
          c.w = np.asarray([i, len(made[i])])
          made[i].append(c)
    return main

  for e in sched.run([body(i) for i in range(n)]):
    if e is not None:
      raise e
  rec.nt(sched.switches >= 2)
  check_identities(made)


CHECKS = [
    Check("threads", cases, run, quick=1600, thorough=40000),
    Check("identities", id_cases, run_ids, quick=800, thorough=20000),
]
