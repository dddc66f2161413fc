"""Writes DESIGN.md from design_head.md, the checks' own rules, notes.json, design_tail.md and the planted bugs."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + "/tools/"
notes = json.load(open(T + "design_notes.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(T + "design_head.md").read()]
for p in props:
  f = f"{V}/props/{p['id'].lower()}.py"
  t = ast.parse(open(f).read())
  d = {}
  for n in t.body:
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS"):
      d[n.targets[0].id] = ast.literal_eval(n.value)
  counts = []
  for n in ast.walk(t):
    if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "Check":
      kw = {k.arg: ast.unparse(k.value) for k in n.keywords}
      counts.append(f"{n.args[0].value} {kw['quick']}" + (f" / {kw['thorough']}" if "thorough" in kw else " / 20x"))
  out.append(f"### {p['id']} {p['title']}\n\n{d['RULE']}\n\n")
  if notes.get(p["id"]):
    out.append(notes[p["id"]] + "\n\n")
  if d.get("ASSUMPTIONS"):
    out.append("Domain: " + "; ".join(d["ASSUMPTIONS"]) + ".\n\n")
  out.append(f"Beyond tests: {p['why_tests_cant']}\n\nCases (quick / thorough): " + ", ".join(counts) + ".\n\n")
out.append(open(T + "design_tail.md").read())
res = json.load(open(T + "seeded_results.json"))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
  i = os.path.basename(os.path.dirname(m))
  d = json.load(open(m))
  r = res.get(i, {})
  rows.append(f"| {i} | {d['property']} | {d['needs']} | {r.get('by', '?')} | {r.get('note', '')} |")
out.append("\n| bug | property | needs | caught by | note |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(V + "/DESIGN.md", "w").write("".join(out))
