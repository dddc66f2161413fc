"""Mutation testing of the checks: generate | tests | checks | show.

Small syntactic changes of /repo/nnx that keep the existing tests passing are run against the checks of the properties
they may concern.  Works on copies under /tmp/mut only.
"""
import ast, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
ROOT = "/tmp/mut"
FILES = {
    "nnx/containers.py": ["C05", "C17", "C16", "C02", "C28", "C04"], "nnx/contextlib.py": ["C10", "C11", "C13", "C09"],
    "nnx/dataclasses.py": ["C17", "C16"], "nnx/helpers.py": ["C20", "C19"], "nnx/ids.py": ["C29", "C08", "C01"],
    "nnx/module.py": ["C01", "C03", "C04", "C08", "C07", "C06", "C02", "C05", "C28", "C09", "C17"],
    "nnx/nodes.py": ["C16", "C01", "C04"], "nnx/partitioning.py": ["C02", "C03", "C12"],
    "nnx/pytreelib.py": ["C16", "C18", "C17", "C19", "C28"], "nnx/reprlib.py": ["C28", "C29"],
    "nnx/spmd.py": ["C21", "C22", "C14"], "nnx/state.py": ["C02", "C04", "C03", "C05", "C06", "C28"],
    "nnx/tracers.py": ["C09", "C29", "C28"],
    "nnx/transforms.py": ["C11", "C12", "C13", "C14", "C15", "C09", "C06"],
    "nnx/nn/activations.py": ["C27"], "nnx/nn/dtypes.py": ["C23", "C24"], "nnx/nn/initializers.py": ["C27"],
    "nnx/nn/linear.py": ["C23", "C24"], "nnx/nn/normalization.py": ["C25"], "nnx/nn/stochastic.py": ["C26"],
}
TRANSFORMS = {
    "jit": ["C11", "C06", "C09", "C12", "C13", "C15"], "grad": ["C12", "C09", "C15", "C05"], "scan": ["C13", "C14", "C09", "C15"],
    "remat": ["C15", "C09", "C13"],
}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+"}
UNWRAP = {"sorted", "tuple", "list", "set", "frozenset", "reversed", "dict", "copy", "bool", "int"}


class Gen(ast.NodeVisitor):
  def __init__(self, path, src):
    self.path, self.src = path, src
    self.starts = [0]
    for line in src.splitlines(keepends=True):
      self.starts.append(self.starts[-1] + len(line.encode()))
    self.bytes = src.encode()
    self.out = []
    self.ctx = []

  def pos(self, n):
    return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

  def text(self, n):
    a, b = self.pos(n)
    return self.bytes[a:b].decode()

  def add(self, n, new, what):
    a, b = self.pos(n)
    old = self.bytes[a:b].decode()
    if old != new:
      self.out.append({"file": self.path, "a": a, "b": b, "old": old, "new": new, "what": what, "line": n.lineno, "in": ".".join(self.ctx)})

  # scopes
  def visit_ClassDef(self, n):
    self.ctx.append(n.name)
    if len(n.bases) and ast.unparse(n.bases[0]) == "threading.local":
      self.add(n.bases[0], "object", "base")
    for b in n.body:
      self.visit(b)
    self.ctx.pop()

  def visit_FunctionDef(self, n):
    if any("overload" in ast.unparse(d) for d in n.decorator_list):
      return
    self.ctx.append(n.name)
    for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
      self.visit(d)
    self.block(n.body)
    self.ctx.pop()

  def visit_AnnAssign(self, n):
    if n.value:
      self.visit(n.value)

  def block(self, body):
    for s in body:
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        continue
      if isinstance(s, (ast.Expr, ast.AugAssign, ast.Delete)) and not isinstance(getattr(s, "value", None), ast.Yield):
        self.add(s, "pass", "delete")
      if isinstance(s, ast.Assign) and len(body) > 0 and not isinstance(s.targets[0], ast.Name):
        self.add(s, "pass", "delete")
      if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call):
        # a rebinding of a name from itself can be dropped
        t = s.targets[0].id
        if any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(s.value)):
          self.add(s, "pass", "delete")
      if isinstance(s, ast.Raise):
        self.add(s, "pass", "no raise")
      if isinstance(s, ast.Assert):
        self.add(s, "pass", "no assert")
      if isinstance(s, (ast.Continue, ast.Break)):
        self.add(s, "pass", "loop")
      self.visit(s)

  def generic_block(self, n, names):
    for k in names:
      self.block(getattr(n, k, []))

  def visit_If(self, n):
    if "TYPE_CHECKING" in ast.unparse(n.test):
      self.generic_block(n, ["body"] if "not" in ast.unparse(n.test) else ["orelse"])
      return
    self.add(n.test, "True", "cond")
    self.add(n.test, "False", "cond")
    self.visit(n.test)
    self.generic_block(n, ["body", "orelse"])

  def visit_For(self, n):
    self.visit(n.iter)
    self.generic_block(n, ["body", "orelse"])

  def visit_While(self, n):
    self.visit(n.test)
    self.generic_block(n, ["body"])

  def visit_With(self, n):
    for i in n.items:
      self.visit(i.context_expr)
      if "lock" in ast.unparse(i.context_expr):
        self.add(i.context_expr, "threading.Lock()", "lock")
      elif i.optional_vars is None:
        self.add(i.context_expr, "__import__('contextlib').nullcontext()", "with")
    self.generic_block(n, ["body"])

  def visit_Try(self, n):
    self.generic_block(n, ["body", "orelse"])
    for h in n.handlers:
      self.block(h.body)
    if n.finalbody and len(n.body) and not n.handlers:
      a, _ = self.pos(n.body[0])
      _, b = self.pos(n.finalbody[-1])
      ind = " " * n.body[0].col_offset
      body = self.bytes[a:self.pos(n.body[-1])[1]].decode()
      fin = self.bytes[self.pos(n.finalbody[0])[0]:b].decode()
      s, _ = self.pos(n)
      self.out.append({"file": self.path, "a": s, "b": b, "old": self.bytes[s:b].decode(), "new": f"if True:\n{ind}{body}\n{ind}{fin}", "what": "no finally", "line": n.lineno, "in": ".".join(self.ctx)})
    self.block(n.finalbody)

  def visit_Return(self, n):
    if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
      self.visit(n.value)

  def visit_Compare(self, n):
    if len(n.ops) == 1:
      self.add(n, f"{self.text(n.left)} {CMP[type(n.ops[0])]} {self.text(n.comparators[0])}", "compare")
      if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and not isinstance(n.comparators[0], ast.Constant):
        self.add(n, f"{self.text(n.left)} {'==' if isinstance(n.ops[0], ast.Is) else '!='} {self.text(n.comparators[0])}", "identity")
    self.generic_visit(n)

  def visit_BoolOp(self, n):
    parts = [self.text(v) for v in n.values]
    w = " or " if isinstance(n.op, ast.And) else " and "
    self.add(n, "(" + w.join(f"({p})" for p in parts) + ")", "boolop")
    if len(parts) > 1:
      for i in range(len(parts)):
        self.add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({p})" for j, p in enumerate(parts) if j != i) + ")", "drop operand")
    self.generic_visit(n)

  def visit_UnaryOp(self, n):
    if isinstance(n.op, (ast.Not, ast.USub)):
      self.add(n, f"({self.text(n.operand)})", "unary")
    self.generic_visit(n)

  def visit_IfExp(self, n):
    self.add(n, f"({self.text(n.body)})", "ifexp")
    self.add(n, f"({self.text(n.orelse)})", "ifexp")
    self.generic_visit(n)

  def visit_BinOp(self, n):
    if type(n.op) in BIN and not (isinstance(n.left, (ast.JoinedStr,)) or isinstance(n.right, ast.JoinedStr)):
      self.add(n, f"({self.text(n.left)} {BIN[type(n.op)]} {self.text(n.right)})", "binop")
      if isinstance(n.op, ast.Add):
        self.add(n, f"({self.text(n.right)} + {self.text(n.left)})", "swap")
        self.add(n, f"({self.text(n.left)})", "drop")
        self.add(n, f"({self.text(n.right)})", "drop")
    self.generic_visit(n)

  def visit_Constant(self, n):
    v = n.value
    if v is True or v is False:
      self.add(n, str(not v), "const")
    elif isinstance(v, int):
      self.add(n, str(v + 1), "const")
      self.add(n, f"({v - 1})", "const")
    elif isinstance(v, float):
      self.add(n, repr(v * 1.5 + 0.25), "const")

  def visit_JoinedStr(self, n):
    pass

  def visit_Raise(self, n):
    pass

  def visit_Assert(self, n):
    pass

  def visit_Call(self, n):
    f = n.func
    name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
    if name in UNWRAP and len(n.args) == 1 and isinstance(f, ast.Name):
      self.add(n, f"({self.text(n.args[0])})", "unwrap")
    if isinstance(f, ast.Attribute) and name in ("copy", "items") and not n.args and name == "copy":
      self.add(n, f"({self.text(f.value)})", "unwrap")
    if name in ("isinstance", "hasattr", "callable", "issubclass"):
      self.add(n, "True", "cond")
      self.add(n, "False", "cond")
    if len(n.args) == 2 and name not in ("isinstance", "hasattr", "getattr", "issubclass", "partial", "cast"):
      self.add(n, f"{self.text(f)}({self.text(n.args[1])}, {self.text(n.args[0])}" + "".join(f", {self.text(k)}" for k in n.keywords) + ")", "swap args")
    if len(n.args) >= 3:
      for i in range(len(n.args) - 1):
        p = [self.text(x) for x in n.args]
        p[i], p[i + 1] = p[i + 1], p[i]
        self.add(n, f"{self.text(f)}(" + ", ".join(p + [self.text(k) for k in n.keywords]) + ")", "swap args")
    for i, k in enumerate(n.keywords):
      p = [self.text(x) for x in n.args] + [self.text(x) for j, x in enumerate(n.keywords) if j != i]
      self.add(n, f"{self.text(f)}(" + ", ".join(p) + ")", "drop keyword")
    if len(n.args) >= 2 and name not in ("isinstance", "hasattr", "issubclass"):
      p = [self.text(x) for x in n.args[:-1]] + [self.text(x) for x in n.keywords]
      self.add(n, f"{self.text(f)}(" + ", ".join(p) + ")", "drop last argument")
    self.generic_visit(n)

  def comp(self, n):
    for g in n.generators:
      for c in g.ifs:
        self.add(c, "True", "filter")
    self.generic_visit(n)

  visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

  def visit_Lambda(self, n):
    self.visit(n.body)

  def visit_Module(self, n):
    for s in n.body:
      if isinstance(s, (ast.Import, ast.ImportFrom)):
        continue
      self.visit(s)


def generate():
  out = []
  for f in FILES:
    src = open(f"/repo/{f}").read()
    g = Gen(f, src)
    g.visit(ast.parse(src))
    seen = set()
    for m in g.out:
      k = (m["a"], m["b"], m["new"])
      if k in seen:
        continue
      seen.add(k)
      b = src.encode()
      new = b[:m["a"]] + m["new"].encode() + b[m["b"]:]
      try:
        t = ast.parse(new)
      except SyntaxError:
        continue
      if ast.dump(t) == ast.dump(ast.parse(src)):
        continue
      out.append(m)
  for i, m in enumerate(out):
    m["id"] = i
  json.dump(out, open(f"{ROOT}/mutants.json", "w"))
  from collections import Counter
  print(len(out), Counter(m["file"] for m in out), Counter(m["what"] for m in out))


def apply(wt, m):
  """The mutant was made for the tree in ROOT/base (if there is one): merged into the current tree."""
  base = f"{ROOT}/base/{m['file']}"
  now = f"/repo/{m['file']}"
  if not os.path.exists(base):
    base = now
  src = open(base, "rb").read()
  mutated = src[:m["a"]] + m["new"].encode() + src[m["b"]:]
  target = f"{wt}/{m['file']}"
  open(target, "wb").write(mutated)
  if src != open(now, "rb").read():
    r = subprocess.run(["git", "merge-file", "-p", target, base, now], capture_output=True)
    if r.returncode:
      raise ValueError("conflict")
    open(target, "wb").write(r.stdout)


def restore(wt, m):
  shutil.copy(f"/repo/{m['file']}", f"{wt}/{m['file']}")


def copies(n):
  out = []
  for i in range(n):
    w = f"{ROOT}/w{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for x in ("nnx", "tests", "pyproject.toml", "README.md", "examples"):
      p = f"/repo/{x}"
      if os.path.isdir(p):
        shutil.copytree(p, f"{w}/{x}", ignore=shutil.ignore_patterns("__pycache__"))
      elif os.path.exists(p):
        shutil.copy(p, w)
    out.append(w)
  return out


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu")


def pool(items, workers, work, path):
  import queue
  done = set()
  if os.path.exists(path):
    done = {json.loads(l)["id"] for l in open(path)}
  items = [m for m in items if m["id"] not in done]
  print(len(items), "to do", flush=True)
  free = queue.Queue()
  for w in copies(workers):
    free.put(w)
  f = open(path, "a")
  import threading
  lock = threading.Lock()

  def one(m):
    w = free.get()
    try:
      try:
        apply(w, m)
        r = work(w, m)
      except ValueError:
        r = {"killed": "conflict"}
    finally:
      restore(w, m)
      free.put(w)
    with lock:
      f.write(json.dumps({**m, **r}) + "\n")
      f.flush()

  with ThreadPoolExecutor(workers) as ex:
    list(ex.map(one, items))


def tests(w, m):
  e = dict(ENV, PYTHONPATH=w)
  e["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
  try:
    p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "--timeout=120"], cwd=w, env=e, capture_output=True, text=True, timeout=300)
  except subprocess.TimeoutExpired:
    return {"tests": False}
  k = re.search(r"(\d+) passed", p.stdout)
  return {"tests": p.returncode == 0 and bool(k) and int(k.group(1)) >= 89}


def props_of(m):
  if m["file"] == "nnx/transforms.py":
    s = m["in"].lower()
    for k, v in TRANSFORMS.items():
      if k in s:
        return v
  if m["file"] == "nnx/nn/linear.py":
    return ["C24"] if "Conv" in m["in"] or "conv" in m["in"] or "padding" in m["in"] else ["C23"]
  return FILES[m["file"]]


def checks(scale, shards):
  def work(w, m):
    t0 = time.time()
    odd = []
    for p in props_of(m):
      e = dict(os.environ, NNX_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
      try:
        r = subprocess.run([PY, f"{ROOT}/verif/check.py", p, "--scale", str(scale), "--no-shrink", "--shards", str(shards)], env=e, capture_output=True, text=True, timeout=900)
      except subprocess.TimeoutExpired:
        odd.append((p, "timeout"))
        continue
      if "VIOLATION" in r.stdout:
        k = re.search(r"check .*", r.stdout)
        return {"killed": p, "msg": k.group(0)[:200] if k else "", "t": time.time() - t0, "odd": odd}
      if r.returncode != 0:
        odd.append((p, (r.stdout + r.stderr)[-400:]))
    return {"killed": None, "t": time.time() - t0, "odd": odd}
  return work


if __name__ == "__main__":
  os.makedirs(ROOT, exist_ok=True)
  cmd = sys.argv[1]
  if cmd == "generate":
    generate()
  elif cmd == "tests":
    ms = json.load(open(f"{ROOT}/mutants.json"))
    random.Random(0).shuffle(ms)
    pool(ms, 8, tests, f"{ROOT}/tests.jsonl")
  elif cmd == "checks":  # scale shards workers [file prefix]
    scale, shards, workers = float(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    out = sys.argv[5]
    src = sys.argv[6] if len(sys.argv) > 6 else None
    shutil.rmtree(f"{ROOT}/verif", ignore_errors=True)
    shutil.copytree("/verif", f"{ROOT}/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    ms = [json.loads(l) for l in open(f"{ROOT}/tests.jsonl")]
    ms = [m for m in ms if m["tests"]]
    if src:
      prev = {json.loads(l)["id"] for l in open(src) if json.loads(l)["killed"] is None}
      ms = [m for m in ms if m["id"] in prev]
    pool(ms, workers, checks(scale, shards), f"{ROOT}/{out}")
