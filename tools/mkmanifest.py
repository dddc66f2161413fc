"""Writes /verif/MANIFEST.json: claims every property that has a module in props/."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = "Random search over generated cases: a passing run shows no counterexample among the explored cases, not absence. Trusts Python, numpy, jax and the harness's reference model in props/%s.py."
SPECIFIC = {
  "C01": ("property-based round-trip testing of generated module graphs against a reference graph walk", ""),
  "C02": ("property-based testing of generated states and nested filters against a reference first-match partition", ""),
  "C03": ("stateful property-based testing of edit histories against a reference object graph", ""),
  "C04": ("stateful property-based testing of attribute histories against a reference slot model", ""),
  "C05": ("property-based testing of pytree laws over generated data objects", ""),
  "C06": ("property-based testing of generated pairs of graphs differing in one respect, with trace counting", ""),
  "C07": ("differential property-based testing: functional API against direct calls on generated graphs and programs", ""),
  "C08": ("property-based testing of init mode and traversal over generated graphs with injected exceptions", ""),
  "C09": ("model-based property-based testing of generated transform nestings with injected exceptions", ""),
  "C10": ("stateful property-based testing of draw/split/merge histories; cross-process differential", ""),
  "C11": ("differential property-based testing: generated module programs under nnx.jit against a plain-dict interpreter", ""),
  "C12": ("differential property-based testing: nnx.grad against jax.grad of the same program over plain dicts", ""),
  "C13": ("differential property-based testing: nnx scan against the unrolled Python loop over plain dicts", ""),
  "C14": ("differential property-based testing: scan construction against per-slice construction", ""),
  "C15": ("differential property-based testing: remat against direct application of generated programs", ""),
  "C16": ("stateful property-based testing of pytree objects against a reference record", ""),
  "C17": ("property-based testing of generated dataclass layouts against a table of declared roles", ""),
  "C18": ("property-based round-trip and perturbation testing of generated pytree objects", ""),
  "C19": ("stateful differential property-based testing against optax applied by hand", ""),
  "C20": ("stateful property-based testing against dict, list and function composition", ""),
  "C21": ("property-based testing of generated names, rules and scope histories against a reference assignment", ""),
  "C22": ("property-based testing on 8 forced host devices against NamedSharding placement and value identity", ""),
  "C23": ("differential property-based testing against float64 numpy formulas", ""),
  "C24": ("differential property-based testing against a direct-sum convolution in float64", ""),
  "C25": ("stateful differential property-based testing against float64 numpy statistics", ""),
  "C26": ("property-based testing of mask structure, reproducibility and rates", ""),
  "C27": ("differential property-based testing against float64 definitions and distribution tests", ""),
  "C28": ("property-based testing of printing over generated object graphs with injected repr failures", ""),
  "C29": ("property-based testing with harness-owned thread schedules against a per-thread model", ""),
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
  p = json.loads(line)["id"]
  if os.path.exists(os.path.join(ROOT, "props", p.lower() + ".py")):
    tech, extra = SPECIFIC[p]
    checks.append(dict(
      property=p,
      quick_cmd=f"/opt/venv/bin/python check.py {p} --tier quick",
      thorough_cmd=f"/opt/venv/bin/python check.py {p} --tier thorough",
      evidence_file=f"evidence/{p}.json",
      technique=tech, level="exploration",
      level_note=NOTE % p.lower() + (" " + extra if extra else "")))
  else:
    na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup_check.py", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the checks import the working tree of /repo directly (pure Python, nothing to rebuild).")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
