"""Plants a bug in a scratch worktree, confirms it, and stores it under /verif/seeded/<id>.

plant(id, prop, edits, demo, needs, breaks): edits is a list of (file, old, new); demo is
the source of demo.py.  Kept only if it builds, keeps the stable tests passing and the
demo separates the patched from the unchanged tree; whether the property's check catches
it is recorded in /verif/seeded/RESULTS.jsonl, never a condition.
"""
import json, os, re, shutil, subprocess, sys, textwrap, time

SEEDED = "/verif/seeded"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu")
ORIGINAL = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
ORIGINAL = [l.split()[0] for l in ORIGINAL.splitlines() if not l.split(" ", 1)[1].startswith("fix:")][0]
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
  return subprocess.run(a, capture_output=True, text=True, **k)


def worktree(name):
  wt = f"/tmp/pl/{name}"
  sh("git", "-C", "/repo", "worktree", "remove", "--force", wt)
  shutil.rmtree(wt, ignore_errors=True)
  r = sh("git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD")
  assert r.returncode == 0, r.stderr
  return wt


def drop(wt):
  sh("git", "-C", "/repo", "worktree", "remove", "--force", wt)


def run_check(prop, wt, extra=()):
  e = dict(os.environ, NNX_REPO=wt, VERIF_SEED="1", VERIF_TIER="quick")
  t = time.time()
  p = sh(PY, "/verif/check.py", prop, *extra, env=e, timeout=900)
  m = re.search(r"VIOLATION property=(\S+) replay=(\S+)", p.stdout)
  msg = ""
  if m:
    d = json.load(open(m.group(2)))
    msg = f"[{d.get('check')}] {d.get('message')}"[:300]
  return p.returncode, bool(m), msg, time.time() - t, p.stdout[-500:] + p.stderr[-500:]


def tests_ok(wt):
  x = f"/tmp/pl/{os.path.basename(wt)}.xml"
  p = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", "--timeout=300", "--continue-on-collection-errors",
         "-o", "junit_family=xunit2", f"--junitxml={x}", cwd=wt, env=dict(ENV, PYTHONPATH=wt))
  m = re.search(r"(\d+) passed", p.stdout)
  n = int(m.group(1)) if m else 0
  return n, p.stdout[-600:]


def blame_ok(wt, patch):
  """At least one removed line is a line of the original repository, and none was added by a fix."""
  bad, good = [], 0
  cur = None
  for line in patch.splitlines():
    if line.startswith("--- a/"):
      cur = line[6:]
    elif line.startswith("@@"):
      ln = int(re.match(r"@@ -(\d+)", line).group(1))
    elif line.startswith("-") and not line.startswith("---"):
      b = sh("git", "-C", wt, "blame", "-s", "-l", "--root", "-L", f"{ln},{ln}", "HEAD", "--", cur).stdout
      subj = sh("git", "-C", wt, "show", "-s", "--format=%s", b.split()[0].lstrip("^")).stdout
      if subj.startswith("fix:"):
        bad.append((cur, ln, subj.strip()))
      else:
        good += 1
      ln += 1
    elif line.startswith(" "):
      ln += 1
  return good, bad


def plant(id, prop, edits, demo, needs, breaks, check=True):
  d = f"{SEEDED}/{id}"
  wt = worktree(id)
  try:
    for f, old, new in edits:
      s = open(f"{wt}/{f}").read()
      old, new = old.strip("\n"), new.strip("\n")
      assert s.count(old) == 1, (id, f, s.count(old), old)
      open(f"{wt}/{f}", "w").write(s.replace(old, new))
    patch = sh("git", "-C", wt, "diff").stdout
    assert patch
    good, bad = blame_ok(wt, patch)
    if bad or not good:
      print(f"REJECT {id}: lines {good} {bad}", flush=True)
      return
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.py", "w").write(textwrap.dedent(demo).lstrip())
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/patch.diff", "w").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    p1 = sh("bash", f"{d}/demo.sh", cwd=wt, env=ENV, timeout=300)
    sh("git", "-C", wt, "checkout", "-q", "--", ".")
    p0 = sh("bash", f"{d}/demo.sh", cwd=wt, env=ENV, timeout=300)
    sh("git", "-C", wt, "apply", f"{d}/patch.diff")
    n, out = tests_ok(wt)
    ok = p0.returncode == 0 and p1.returncode != 0 and n >= 89
    if not ok:
      print(f"REJECT {id}: demo clean {p0.returncode} patched {p1.returncode} tests {n}", flush=True)
      print(p0.stderr[-600:] if p0.returncode else "", out if n < 89 else "", p1.stdout[-300:] if not p1.returncode else "")
      shutil.move(d, f"/tmp/pl/rejected_{id}") if not os.path.exists(f"/tmp/pl/rejected_{id}") else shutil.rmtree(d)
      return
    last = p1.stderr.strip().splitlines()[-1:] or p1.stdout.strip().splitlines()[-1:]
    print(f"PLANTED {id} {prop}: demo says {last}", flush=True)
    if check:
      rc, caught, msg, t, tail = run_check(prop, wt)
      print(f"   {'CAUGHT' if caught else 'MISSED'} rc={rc} {t:.0f}s {msg[:220]!r}" + ("" if rc in (0, 1) else tail), flush=True)
      with open("/tmp/pl/RESULTS.jsonl", "a") as f:
        f.write(json.dumps({"id": id, "prop": prop, "caught": caught, "message": msg}) + "\n")
  finally:
    drop(wt)
