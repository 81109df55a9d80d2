"""Writes DESIGN.md from design_*.md and the planted bugs' meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = V + "/tools/"
res = json.load(open(T + "catches.json")) if os.path.exists(T + "catches.json") else {}
out = [open(T + "design_head.md").read().rstrip(), "", open(T + "design_props.md").read().rstrip(), "",
  "## 3. Planted bugs and the checks that catch them", "",
  "Each was confirmed to build, to pass the repository's tests and to fail its demo (`vcheck`). 'how': *input* = the harness also found a failing input, *obligation* = the failed obligation alone.", "",
  "| change | property / check | needs | how | failed obligation (one of) |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    n = os.path.basename(d); m = json.load(open(d + "/meta.json")); r = res.get(n, {})
    out.append(f"| {n} | {m['property']} | {m['needs']} | {r.get('how','')} | {r.get('ob','').replace('|','/')} |")
out += ["", open(T + "design_tail.md").read().rstrip()]
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
