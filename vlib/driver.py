"""Runs the checks of one property: generation in shards, shrinking, evidence, replay.

A property module `props.cNN` defines

  RULE    text for the evidence file: how cases are made and what makes one non-trivial
  CHECKS  a list of Check
  DEVICES (optional) number of forced host devices
  ASSUMPTIONS (optional) list of texts

A Check has a Hypothesis strategy producing a JSON-able case and `run(case, rec)`, which interprets the
case against the code and the oracle and raises on any disagreement.
"""
import dataclasses
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import typing as tp

from vlib import boot

CASE_CPU_LIMIT = 120  # seconds of cpu for one case (cases take milliseconds): "does not terminate"
WALL_LIMIT = {"quick": 780, "thorough": 3300}


@dataclasses.dataclass
class Check:
  name: str
  strategy: tp.Callable[[], tp.Any]
  run: tp.Callable[[tp.Any, "Rec"], None]
  quick: int
  thorough: int = 0  # default: 20 x quick

  def count(self, tier):
    return self.quick if tier == "quick" else (self.thorough or 20 * self.quick)


class Rec:
  """Collects what one case exercised."""

  def __init__(self):
    self.nontrivial = False
    self.tags: tp.Dict[str, int] = {}

  def nt(self, flag=True):
    if flag:
      self.nontrivial = True

  def tag(self, name, flag=True):
    if flag:
      self.tags[name] = self.tags.get(name, 0) + 1


class CaseTimeout(BaseException):
  pass


def canon(case) -> str:
  return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _load(prop):
  return importlib.import_module("props." + prop.lower())


def _load_or_fail(prop):
  """(module, None), or (None, failure) when the declarations the checks start from are refused by the code under test."""
  try:
    boot.setup()
    return _load(prop), None
  except HARNESS_ERRORS:
    raise
  except Exception as e:
    here = os.path.join(os.path.realpath(boot.REPO), "nnx") + os.sep
    inside = any(os.path.realpath(fr.filename).startswith(here) for fr in traceback.extract_tb(e.__traceback__))
    if not inside:
      raise
    return None, {"check": "import", "case": [], "message": "declarations at the start of the check are refused: " + _describe(e)}


def _describe(e: BaseException) -> str:
  tb = traceback.extract_tb(e.__traceback__)
  where = ""
  for fr in reversed(tb):
    if "/props/" in fr.filename or "/nnx/" in fr.filename or "/vlib/" in fr.filename:
      where = f" [{os.path.basename(fr.filename)}:{fr.lineno}]"
      break
  msg = str(e)
  if len(msg) > 1500:
    msg = msg[:1500] + "..."
  return f"{type(e).__name__}: {msg}{where}"


HARNESS_ERRORS = (MemoryError, KeyboardInterrupt, OSError)

# a process of ours that ends with one of these was stopped by native code that gave up (an abort in the compiler)
CRASHES = {-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGFPE, -signal.SIGILL, -signal.SIGBUS, -signal.SIGTRAP}


class HarnessError(Exception):
  pass


def run_case(check: Check, case, rec: Rec):
  """Runs one case; returns None or the description of the violation."""
  limit = CASE_CPU_LIMIT

  def on_alarm(*_):
    raise CaseTimeout(f"the case used more than {limit} s of cpu")

  old = signal.signal(signal.SIGPROF, on_alarm)
  signal.setitimer(signal.ITIMER_PROF, limit)
  try:
    check.run(case, rec)
    return None
  except HARNESS_ERRORS as e:
    raise HarnessError(_describe(e)) from e
  except CaseTimeout as e:
    return _describe(e)
  except Exception as e:
    if isinstance(e, HarnessError):
      raise
    if type(e).__module__.startswith("hypothesis"):
      raise
    return _describe(e)
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.signal(signal.SIGPROF, old)


class Violation(AssertionError):
  pass


class Current:
  """The case being run, on disk, so that it is known when the process does not survive it."""

  def __init__(self, out):
    self.f = open(out + ".case", "w")

  def set(self, check, text):
    self.f.seek(0)
    self.f.truncate()
    self.f.write('{"check": %s, "case": %s}' % (json.dumps(check), text))
    self.f.flush()


def _make_body(check, st, failing, stop, current):
  def body(case):
    text = canon(case)
    current.set(check.name, text)
    if stop[0]:
      # a case that does not terminate was found: do not run anything more
      if text == failing[-1][0]:
        raise Violation(failing[-1][1])
      return
    rec = Rec()
    msg = run_case(check, json.loads(text), rec)
    if not failing:
      st["evaluations"] += 1
      for k, v in rec.tags.items():
        st["tags"][k] = st["tags"].get(k, 0) + 1
      h = hashlib.sha1(text.encode()).hexdigest()[:16]
      st["hashes"][h] = bool(rec.nontrivial or st["hashes"].get(h, False))
      if rec.nontrivial and len(st["samples"]) < 2 and len(text) < 3000:
        st["samples"].append(json.loads(text))
    else:
      st["shrink_runs"] += 1
    if msg is not None:
      failing.append((text, msg))
      if msg.startswith("CaseTimeout"):
        stop[0] = True
      raise Violation(msg)

  return body


def shard_main(prop, tier, seed, shard, nshards, out, only=None, scale=1.0, shrink=True):
  mod, refused = _load_or_fail(prop)
  if refused:
    with open(out, "w") as f:
      json.dump({"checks": {}, "failure": refused, "error": None}, f)
    return
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings
  from hypothesis.internal.conjecture import engine

  engine.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 240
  current = Current(out)
  result = {"checks": {}, "failure": None, "error": None}
  t_start = time.time()

  def save():
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
      json.dump(result, f)
    os.replace(tmp, out)

  try:
    for ci, check in enumerate(mod.CHECKS):
      if only and check.name != only:
        continue
      total = max(min(nshards, check.count(tier)), int(check.count(tier) * scale))
      n = total // nshards + (1 if shard < total % nshards else 0)
      if n == 0:
        continue
      st = {
          "evaluations": 0, "shrink_runs": 0, "tags": {}, "hashes": {}, "samples": [], "wall": 0.0,
      }
      result["checks"][check.name] = st
      failing = []
      stop = [False]

      body = _make_body(check, st, failing, stop, current)
      test = given(check.strategy())(body)
      test = settings(
          max_examples=n,
          database=None,
          deadline=None,
          derandomize=False,
          report_multiple_bugs=False,
          phases=(Phase.generate, Phase.shrink) if shrink else (Phase.generate,),
          suppress_health_check=(
              HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example,
              HealthCheck.nested_given,
          ),
          print_blob=False,
          verbosity=hypothesis.Verbosity.quiet,
      )(test)
      test = hypothesis.seed((seed * 1009 + ci) * 131 + shard)(test)
      t0 = time.time()
      try:
        test()
      except HarnessError:
        raise
      except BaseException as e:
        if not failing:
          raise
        del e
      st["wall"] = time.time() - t0
      if failing:
        # the minimal example is the last failing one that Hypothesis replayed; prefer the shortest
        text, msg = min(failing, key=lambda x: (len(x[0]), x[0])) if not stop[0] else failing[-1]
        result["failure"] = {"check": check.name, "case": json.loads(text), "message": msg}
        break
      save()
  except BaseException:
    result["error"] = traceback.format_exc()
  result["wall"] = time.time() - t_start
  save()
  return 0


def replay_main(prop, path):
  me = os.path.join(boot.VERIF, "check.py")
  code = subprocess.call([boot.PYTHON, me, prop, "--replay-here", path])
  if code in CRASHES:
    print(f"the case ends the process with signal {-code}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1
  return code


def replay_here(prop, path):
  mod, refused = _load_or_fail(prop)
  with open(path) as f:
    data = json.load(f)
  if refused:
    print(refused["message"])
    print(f"VIOLATION property={prop} replay={path}")
    return 1
  if data["check"] == "import":
    print(f"replay {path}: the declarations of the check are accepted")
    return 0
  check = next(c for c in mod.CHECKS if c.name == data["check"])
  msg = run_case(check, data["case"], Rec())
  if msg is None:
    print(f"replay {path}: property {prop} holds on this case")
    return 0
  print(msg)
  print(f"VIOLATION property={prop} replay={path}")
  return 1


def regress_cases(prop):
  d = os.path.join(boot.VERIF, "regress", prop)
  if not os.path.isdir(d):
    return []
  return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".json")]


def known_findings(prop):
  path = os.path.join(boot.VERIF, "known_findings.txt")
  if not os.path.exists(path):
    return []
  with open(path) as f:
    entries = [json.loads(line) for line in f if line.startswith("{")]
  return [e for e in entries if e.get("property") == prop and e.get("status") == "known"]


def regress_main(prop, out):
  """Replays the saved cases of this property (minimal cases of repaired or once-missed defects)."""
  mod, refused = _load_or_fail(prop)
  if refused:
    with open(out, "w") as f:
      json.dump({"ran": 0, "failure": refused, "error": None, "known": []}, f)
    return
  result = {"ran": 0, "failure": None, "error": None, "known": []}
  current = Current(out)
  try:
    # the listed findings: reported while they fail as described; failing in another way is a violation
    for k in known_findings(prop):
      check = next(c for c in mod.CHECKS if c.name == k["check"])
      current.set(check.name, canon(k["case"]))
      msg = run_case(check, k["case"], Rec())
      if msg is not None and k["fails"] in msg:
        result["known"].append(k["what"])
      elif msg is not None and result["failure"] is None:
        result["failure"] = {"check": check.name, "case": k["case"], "message": msg}
    for path in regress_cases(prop):
      with open(path) as f:
        data = json.load(f)
      check = next((c for c in mod.CHECKS if c.name == data["check"]), None)
      if check is None:
        raise RuntimeError(f"{path}: no check {data['check']}")
      result["ran"] += 1
      current.set(check.name, canon(data["case"]))
      msg = run_case(check, data["case"], Rec())
      if msg is not None and result["failure"] is None:
        result["failure"] = {"check": check.name, "case": data["case"], "message": msg}
        break
  except BaseException:
    result["error"] = traceback.format_exc()
  with open(out, "w") as f:
    json.dump(result, f)


def main(argv):
  import argparse

  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=None)
  ap.add_argument("--shard", nargs=3, default=None)
  ap.add_argument("--regress", default=None)
  ap.add_argument("--replay", default=None)
  ap.add_argument("--replay-here", default=None)
  ap.add_argument("--only", default=None)
  ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
  # for mutation testing only: part of the cases, no shrinking, evidence thrown away
  ap.add_argument("--scale", type=float, default=1.0)
  ap.add_argument("--no-shrink", action="store_true")
  a = ap.parse_args(argv)
  prop = a.prop.upper()
  tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
  if tier not in WALL_LIMIT:
    tier = "quick"
  try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
  except ValueError:
    seed = 1
  if a.shard:
    return shard_main(prop, tier, seed, int(a.shard[0]), int(a.shard[1]), a.shard[2], a.only, a.scale, not a.no_shrink)
  if a.regress:
    regress_main(prop, a.regress)
    return 0
  if os.environ.get("VLIB_ENV") != "1":
    # one re-exec so that the environment (hash seed, device count) is fixed before jax starts
    sys.path.insert(0, boot.VERIF)
    devices = 8 if prop in ("C21", "C22", "C25") else 4 if prop == "C11" else 1
    e = boot.env(devices)
    e["VLIB_ENV"] = "1"
    os.chdir(boot.VERIF)
    os.execve(boot.PYTHON, [boot.PYTHON, os.path.join(boot.VERIF, "check.py"), *argv], e)
  if a.replay_here:
    return replay_here(prop, a.replay_here)
  if a.replay:
    return replay_main(prop, a.replay)
  more = [x for x in argv if x == "--no-shrink"] + ["--scale", str(a.scale)]
  return parent_main(prop, tier, seed, a.shards, a.only, more)


def parent_main(prop, tier, seed, nshards, only, more=()):
  t0 = time.time()
  tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
  me = os.path.join(boot.VERIF, "check.py")
  procs = []
  failure = None
  error = None
  results = []

  def kill_all():
    for p, _ in procs:
      if p.poll() is None:
        try:
          os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
          pass
    for p, _ in procs:
      p.wait()

  def spawn(args, out):
    log = open(out + ".log", "w")
    p = subprocess.Popen(
        [boot.PYTHON, me, prop, "--tier", tier, *args], stdout=log, stderr=subprocess.STDOUT,
        start_new_session=True, cwd=tmp,
    )
    procs.append((p, out))

  try:
    if (regress_cases(prop) or known_findings(prop)) and not only:
      spawn(["--regress", os.path.join(tmp, "regress.json")], os.path.join(tmp, "regress.json"))
    for i in range(nshards):
      out = os.path.join(tmp, f"shard{i}.json")
      spawn(["--shard", str(i), str(nshards), out] + (["--only", only] if only else []) + list(more), out)
    pending = list(procs)
    while pending:
      time.sleep(0.05)
      for item in list(pending):
        p, out = item
        if p.poll() is None:
          continue
        pending.remove(item)
        if p.returncode in CRASHES:
          failure = failure or _crashed(prop, out, tmp)
        try:
          if p.returncode:
            raise RuntimeError
          with open(out) as f:
            r = json.load(f)
        except Exception:
          with open(out + ".log") as f:
            tail = f.read()[-3000:]
          error = error or f"shard ended with {p.returncode} and no result:\n{tail}"
          continue
        results.append((out, r))
        if r.get("error"):
          error = error or r["error"]
        if r.get("failure") and failure is None:
          failure = r["failure"]
      if failure is not None:
        # keep waiting a moment for nothing: one minimal case is enough
        break
      if time.time() - t0 > WALL_LIMIT[tier]:
        error = error or f"time limit of {WALL_LIMIT[tier]} s reached (inconclusive)"
        break
    kill_all()
    if failure is not None:
      # collect what the other shards had saved so far
      have = {o for o, _ in results}
      for _, out in procs:
        if out not in have and os.path.exists(out):
          with open(out) as f:
            results.append((out, json.load(f)))
  finally:
    kill_all()

  cov, summary = _coverage(prop, results, tier)
  ev = {
      "property": prop,
      "tier": tier,
      "seed": seed,
      "level": "exploration",
      "coverage": cov,
      "assumptions": cov.pop("_assumptions", []),
      "wall_s": round(time.time() - t0, 2),
      "violations": 1 if failure else 0,
  }
  evdir = os.path.join(boot.VERIF, "evidence")
  os.makedirs(evdir, exist_ok=True)
  with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
    json.dump(ev, f, indent=1)
  import shutil

  shutil.rmtree(tmp, ignore_errors=True)

  print(summary)
  if failure is not None:
    rdir = os.path.join(evdir, "replays")
    os.makedirs(rdir, exist_ok=True)
    h = hashlib.sha1(canon(failure["case"]).encode()).hexdigest()[:10]
    rpath = os.path.join(rdir, f"{prop}-{failure['check']}-{h}.json")
    with open(rpath, "w") as f:
      json.dump({"property": prop, **failure}, f, indent=1)
    print(f"check {failure['check']}: {failure['message']}")
    print(f"case: {canon(failure['case'])[:2000]}")
    print(f"VIOLATION property={prop} replay={rpath}")
    return 1
  if error is not None:
    print(f"check error (no verdict): {error}", file=sys.stderr)
    return 2
  for _, r in results:
    for what in r.get("known", ()):
      print(f"KNOWN-FINDING: property={prop} {what}")
  print(f"OK property={prop} tier={tier} seed={seed} wall={ev['wall_s']}s")
  return 0


def _crashed(prop, out, tmp):
  """The case that ended a shard, if it ends another process as well."""
  try:
    with open(out + ".case") as f:
      found = json.load(f)
  except (OSError, ValueError):
    return None
  path = out + ".crash.json"
  with open(path, "w") as f:
    json.dump({"property": prop, **found}, f)
  try:
    r = subprocess.run(
        [boot.PYTHON, os.path.join(boot.VERIF, "check.py"), prop, "--replay-here", path], cwd=tmp, timeout=300,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
  except subprocess.TimeoutExpired:
    return None
  if r.returncode not in CRASHES:
    return None
  return {**found, "message": f"the case ends the process with signal {-r.returncode}: {r.stdout[-800:]}"}


def _coverage(prop, results, tier):
  rule = ""
  assumptions = []
  try:
    import ast

    with open(os.path.join(boot.VERIF, "props", prop.lower() + ".py")) as f:
      tree = ast.parse(f.read())
    for node in tree.body:
      if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "RULE":
        rule = ast.literal_eval(node.value)
      if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "ASSUMPTIONS":
        assumptions = ast.literal_eval(node.value)
  except Exception as e:
    rule = f"(rule unreadable: {e})"
  per = {}
  samples = []
  regress = 0
  for _, r in sorted(results, key=lambda x: x[0]):
    if "ran" in r:
      regress = r["ran"]
      continue
    for name, st in r["checks"].items():
      d = per.setdefault(name, {"evaluations": 0, "hashes": {}, "tags": {}, "shards_wall_s": 0.0, "samples": []})
      d["evaluations"] += st["evaluations"]
      d["shards_wall_s"] = round(max(d["shards_wall_s"], st["wall"]), 2)
      for k, v in st["tags"].items():
        d["tags"][k] = d["tags"].get(k, 0) + v
      for h, nt in st["hashes"].items():
        d["hashes"][h] = d["hashes"].get(h, False) or nt
      d["samples"].extend(st["samples"])
  ev = sum(d["evaluations"] for d in per.values())
  nt = sum(sum(1 for v in d["hashes"].values() if v) for d in per.values())
  out = {}
  lines = []
  for name, d in per.items():
    distinct = len(d["hashes"])
    n = sum(1 for v in d["hashes"].values() if v)
    out[name] = {
        "evaluations": d["evaluations"],
        "distinct": distinct,
        "distinct_nontrivial": n,
        "classes": dict(sorted(d["tags"].items())),
        "slowest_shard_s": d["shards_wall_s"],
    }
    lines.append(
        f"  {name}: {d['evaluations']} cases, {distinct} distinct, {n} non-trivial, {d['shards_wall_s']} s"
    )
    for s in d["samples"][:2]:
      samples.append({"check": name, "case": s})
  cov = {
      "evaluations": ev,
      "distinct_nontrivial": nt,
      "rule": rule,
      "samples": samples or [{"note": "no non-trivial case was completed"}],
      "per_check": out,
      "saved_cases_replayed": regress,
      "_assumptions": assumptions,
  }
  return cov, f"{prop}: {ev} cases, {nt} distinct non-trivial\n" + "\n".join(lines)
