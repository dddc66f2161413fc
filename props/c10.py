"""C10 RNG streams never repeat, never interfere, and are reproducible."""
import atexit
import json
import subprocess

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import nnx
from nnx.contextlib import RngStream
from vlib import boot
from vlib.driver import Check

RULE = (
    "Cases: a history over contexts: creation from seeds (ints, keys, streams), draws (single or many), splits, merges "
    "of any earlier split (also twice), passages through jit with draws and splits inside, unknown streams. Oracle: a "
    "model naming each drawn key by (stream, seed, path of counts); equal names must give equal keys and different names "
    "different keys, within the case, when operations on other streams and contexts are left out, and in another "
    "process with another hash seed. Also long histories (up to 2000 keys, a few of 6000, one of 66000). Non-trivial: at least one split is merged and at least 3 keys are drawn."
)

ASSUMPTIONS = ["keys are derived with a 32-bit hash per draw: different keys are expected up to chance collisions (about 1e-7 per short case; a long one is allowed one repetition, 2000 keys have two with a chance of about 1e-7, and one of 6000 three)"]

STREAMS = ["params", "dropout", "a", "z9"]


@st.composite
def histories(draw, jit=True):
  names = draw(st.lists(st.sampled_from(STREAMS), min_size=1, max_size=3, unique=True))
  ctxs = []
  for _ in range(draw(st.integers(1, 2))):
    ctxs.append([
        [n, draw(st.sampled_from(["int", "key", "stream"])), draw(st.integers(0, 3))] for n in draw(st.permutations(names))
    ])
  flags = draw(st.lists(st.tuples(st.sampled_from(["train", "f"]), st.booleans()).map(list), max_size=2, unique_by=lambda t: t[0]))

  def ops(size, inner=False):
    many = [1, 1, 2] if inner else [1, 1, 1, 2, 3, 12]
    return st.lists(
        st.one_of(
            st.tuples(st.just("draw"), st.integers(0, 9), st.sampled_from(names), st.sampled_from(many)),
            st.tuples(st.just("split"), st.integers(0, 9), st.sampled_from(many)),
            st.tuples(st.just("fork"), st.integers(0, 9)),
            st.tuples(st.just("merge"), st.integers(0, 15)),
            st.tuples(st.just("fork"), st.integers(0, 9)),
            st.tuples(st.just("unknown"), st.integers(0, 9)),
            st.tuples(st.just("copy"), st.integers(0, 9)),
        ).map(list),
        min_size=1, max_size=size,
    )

  body = draw(ops(9))
  if jit:
    body += draw(st.lists(st.tuples(st.just("jit"), st.integers(0, 15), ops(2, True), st.booleans()).map(list), min_size=1, max_size=1))
    body += draw(ops(3))
  return {"ctxs": ctxs, "flags": flags, "ops": body, "name": draw(st.sampled_from(names)), "cut": draw(st.integers(0, 9))}


def kb(key):
  """Bytes of a key."""
  if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
    key = jax.random.key_data(key)
  return np.asarray(key).tobytes().hex()


def make_context(entry, flags):
  kw = {}
  for name, form, seed in entry:
    kw[name] = {"int": lambda: seed, "key": lambda: jax.random.PRNGKey(seed), "stream": lambda: RngStream(jax.random.PRNGKey(seed))}[form]()
  if "params" in kw and len(entry) % 2:  # params can be positional
    p = kw.pop("params")
    return nnx.context(p, flags=dict(flags) or None, **kw)
  return nnx.context(flags=dict(flags) or None, **kw)


class Model:
  """Symbolic context: per stream (seed, path) and a count."""

  def __init__(self, streams):
    self.streams = streams  # name -> [seed, path, count]

  @classmethod
  def new(cls, entry):
    return cls({n: [seed, (), 0] for n, _, seed in entry})

  def draw(self, name):
    s = self.streams[name]
    sym = (name, s[0], s[1] + (s[2],))
    s[2] += 1
    return sym

  def split(self):
    out = {}
    for n, s in self.streams.items():
      out[n] = (s[0], s[1] + (s[2],))
      s[2] += 1
    return out

  @classmethod
  def merge(cls, pure):
    return cls({n: [seed, path, 0] for n, (seed, path) in pure.items()})


def execute(case, inline=False, rec=None):
  """Runs the history; inline runs the bodies of jitted functions directly.

  Returns [(symbolic name, key bytes)] in the order drawn, and how many splits were merged."""
  flags = dict((n, b) for n, b in case["flags"])
  out = []
  merged = [0]

  def check_flags(c):
    for n in ("train", "f", "other"):
      assert c.has_flag(n) is (n in flags) and c.get_flag(n) is flags.get(n), f"flag {n}"

  def step(op, live, model, pures, mpures, emit):
    k = op[0]
    if k == "draw":
      i = op[1] % len(live)
      for _ in range(op[3]):
        emit(model[i].draw(op[2]), live[i].make_rng(op[2]))
    elif k in ("split", "fork"):
      i = op[1] % len(live)
      for _ in range(op[2] if k == "split" else 1):
        pures.append(live[i].partition())
        mpures.append(model[i].split())
      if k == "fork":
        step(["merge", len(pures) - 1], live, model, pures, mpures, emit)
    elif k == "merge":
      if pures:
        j = op[1] % len(pures)
        c = pures[j].merge()
        live.append(c)
        model.append(Model.merge(mpures[j]))
        merged[0] += 1
        check_flags(c)
    elif k == "copy":
      # a copy goes on with the same streams
      i = op[1] % len(live)
      c = live[i].copy()
      assert c is not live[i]
      live.append(c)
      model.append(model[i])
      check_flags(c)
    elif k == "unknown":
      i = op[1] % len(live)
      assert not live[i].has_rng("nope") and all(live[i].has_rng(n) for n in model[i].streams)
      try:
        live[i].make_rng("nope")
      except ValueError:
        pass
      else:
        raise AssertionError("a draw from an unknown stream was accepted")

  live = [make_context(e, case["flags"]) for e in case["ctxs"]]
  model = [Model.new(e) for e in case["ctxs"]]
  for c in live:
    check_flags(c)
  pures, mpures = [], []
  emit = lambda sym, key: out.append((sym, kb(key)))

  def jitted(op):
    if not pures:
      pures.append(live[0].partition())
      mpures.append(model[0].split())
    j = op[1] % len(pures)
    merged[0] += 1
    info = {}

    def f(pure):
      syms, keys, ps, mps = [], [], [], []
      lv, md = [pure.merge()], [Model.merge(mpures[j])]
      put = lambda sym, key: (syms.append(sym), keys.append(key))
      for o in [["draw", 0, n, 1] for n in sorted(mpures[j])] + op[2]:
        step(o, lv, md, ps, mps, put)
      info.update(syms=syms, mps=mps)
      return keys, ps

    g = f if inline else jax.jit(f)
    keys, ps = g(pures[j])
    for s, key in zip(info["syms"], keys):
      emit(s, key)
    if op[3]:  # the same split again: the compiled code gives the same keys
      again, _ = g(pures[j])
      assert [kb(a) for a in again] == [kb(a) for a in keys], "the second call of a function drew other keys"
    pures.extend(ps)  # splits made inside come out usable
    mpures.extend(info["mps"])

  for op in case["ops"]:
    if op[0] == "jit":
      jitted(op)
    else:
      step(op, live, model, pures, mpures, emit)
  # every split that is still around can be merged and gives what it always gives
  for p, m in list(zip(pures, mpures))[-4:]:
    c, mm = p.merge(), Model.merge(m)
    for n in sorted(m):
      emit(mm.draw(n), c.make_rng(n))
  return out, merged[0]


def relate(pairs, table, back, what):
  """Equal symbolic names have equal keys, different names of one stream or of different seeds different keys."""
  for sym, key in pairs:
    if table.setdefault(sym, key) != key:
      raise AssertionError(f"{what}: key {sym} is {key}, it was {table[sym]}")
    other = back.setdefault(key, sym)
    if other != sym and (other[0] == sym[0] or other[1] != sym[1]):
      raise AssertionError(f"{what}: {sym} and {other} have the same key")


def only(case, name):
  """The history with the draws of every stream but one left out (splits stay)."""

  def ops(xs):
    return [
        ["jit", op[1], ops(op[2]), op[3]] if op[0] == "jit" else op
        for op in xs if not (op[0] == "draw" and op[2] != name) and op[0] != "unknown"
    ]

  return {**case, "ops": ops(case["ops"])}


def run(case, rec):
  pairs, merged = execute(case)
  table, back = {}, {}
  relate(pairs, table, back, "history")
  rec.nt(merged > 0 and len(pairs) >= 3)
  rec.tag("jit", any(op[0] == "jit" for op in case["ops"]))
  rec.tag("more than 10 draws of a stream", any(max(s[2]) > 10 for s, _ in pairs))
  rec.tag("split of a split", any(len(s[2]) > 2 for s, _ in pairs))
  # again from the same seeds, with the jitted bodies run directly
  again, _ = execute(case, inline=True)
  assert [s for s, _ in again] == [s for s, _ in pairs]
  relate(again, table, back, "history without jit")
  # draws of other streams do not matter
  relate(execute(only(case, case["name"]), inline=True)[0], table, back, f"history with draws of {case['name']} only")
  # without one operation: what keeps its symbolic name keeps its key
  cut = case["cut"] % len(case["ops"])
  fewer = {**case, "ops": [op for n, op in enumerate(case["ops"]) if n != cut]}
  relate(execute(fewer, inline=True)[0], table, back, "history without one operation")
  # every form of a seed means the same; neither does the order in which the streams are listed matter
  for form in ("int", "key", "stream"):
    other = {**case, "ctxs": [[[n, form, s] for n, _, s in e[::-1]] for e in case["ctxs"]], "ops": case["ops"][:4]}
    relate(execute(other, inline=True)[0], table, back, f"seeds given as {form}, streams in another order")


# ------------------------------------------------------------------ another process

_worker = []

WORKER = r'''
import json, sys
sys.path.insert(0, sys.argv[1])
from vlib import boot
boot.setup()
from props import c10
for line in sys.stdin:
  pairs, _ = c10.execute(json.loads(line))
  print("KEYS " + json.dumps(pairs), flush=True)
'''


def worker():
  if not _worker:
    e = boot.env(1)
    e["PYTHONHASHSEED"] = "4711"
    p = subprocess.Popen(
        [boot.PYTHON, "-c", WORKER, boot.VERIF], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, text=True,
        cwd="/",
    )
    _worker.append(p)
    atexit.register(p.kill)
  return _worker[0]


def run_process(case, rec):
  pairs, merged = execute(case)
  rec.nt(merged > 0 and len(pairs) >= 3)
  p = worker()
  p.stdin.write(json.dumps(case) + "\n")
  p.stdin.flush()
  line = ""
  while not line.startswith("KEYS "):
    line = p.stdout.readline()
    if not line:
      _worker.clear()
      raise AssertionError("the history failed in another process")
  got = json.loads(line[5:])
  want = json.loads(json.dumps(pairs))
  assert got == want, f"the history gave other keys in another process: {got[:3]} vs {want[:3]}"


@st.composite
def process_cases(draw):
  return draw(histories(jit=False))


# ------------------------------------------------------------------ long histories


@st.composite
def long_cases(draw):
  steps = st.one_of(
      st.tuples(st.just("draws"), st.integers(0, 9), st.integers(100, 600)),
      st.tuples(st.just("forks"), st.integers(0, 9), st.integers(50, 300)),  # the first key of every split
      st.tuples(st.just("deep"), st.integers(0, 9), st.integers(20, 120)),  # a split of a split of a split ...
  ).map(list)
  return {"seed": draw(st.integers(0, 99)), "steps": draw(st.lists(steps, min_size=3, max_size=6))}


@st.composite
def endless_cases(draw):
  return {"seed": draw(st.integers(0, 99)), "steps": [["draws", 0, draw(st.sampled_from([4500, 5000, 6000]))], [draw(st.sampled_from(["draws", "forks"])), 0, 300]]}


@st.composite
def marathon_cases(draw):
  # more keys than 16 bits can count
  return {"seed": draw(st.integers(0, 99)), "steps": [["draws", 0, 66000]]}


def run_long(case, rec):
  ctxs = [nnx.context(case["seed"])]
  keys = []
  for kind, i, n in case["steps"]:
    ctx = ctxs[i % len(ctxs)]
    if kind == "draws":
      keys += [ctx.make_rng("params") for _ in range(n)]
    elif kind == "forks":
      made = [ctx.partition().merge() for _ in range(n)]
      keys += [c.make_rng("params") for c in made]
      ctxs += [made[0], made[n // 2], made[-1]]
    else:
      for _ in range(n):
        ctx = ctx.partition().merge()
        keys.append(ctx.make_rng("params"))
      ctxs.append(ctx)
  data = np.asarray(jnp.stack(keys))
  different = len({row.tobytes() for row in data})
  rec.nt(len(keys) >= 500)
  # one repetition among 2000 keys of 32-bit hashes can be chance (5e-4), two are not (1e-7), nor are four among 7000
  allowed = 1 if len(keys) < 3000 else 3 + int(10 * len(keys) ** 2 / 2**33)
  assert different >= len(keys) - allowed, f"{len(keys) - different} of {len(keys)} keys of one stream repeat others"


CHECKS = [
    Check("histories", process_cases, run, quick=3000, thorough=60000),
    Check("jitted", histories, run, quick=400, thorough=8000),
    Check("processes", process_cases, run_process, quick=1500, thorough=15000),
    Check("long", long_cases, run_long, quick=24, thorough=800),
    Check("endless", endless_cases, run_long, quick=24, thorough=120),
    Check("marathon", marathon_cases, run_long, quick=1, thorough=4),
]
