"""Rewrites the table between the markers of DESIGN.md from the registry (development tool)."""
import sys, importlib, json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
from families import REGISTRY
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = ["| id | driver | trace specification | design model (quick bounds; thorough bounds): invariants |", "|---|---|---|---|"]
def b(c):
    return ", ".join(f"{k}={v}" for k, v in (c.get("constants") or {}).items())
for p in props:
    c = importlib.import_module("families." + REGISTRY[p["id"]]).CHECKS[p["id"]]
    mods = {}
    for m in c.get("mc", []):
        mods.setdefault(m["module"], []).append(m)
    cell = "; ".join(f"{k} ({'; '.join(m['tier'][0].upper() + ': ' + b(m['cfg']) for m in v)}): "
                     + ", ".join(v[0]["cfg"].get("invariants", []) + v[0]["cfg"].get("properties", [])) for k, v in mods.items()) or "-"
    out.append(f"| {p['id']} | {c['driver']} | {c['trace']} | {cell} |")
s = open(V + "/DESIGN.md").read()
a, z = "<!-- models -->\n", "<!-- /models -->"
i, j = s.index(a) + len(a), s.index(z)
s = s[:i] + "\n".join(out) + "\n" + s[j:]
a, z = "<!-- seeds -->\n", "<!-- /seeds -->"
if a in s:
    rows = ["| planted bug | property | needs |", "|---|---|---|"]
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(f))
        rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']} |")
    i, j = s.index(a) + len(a), s.index(z)
    s = s[:i] + "\n".join(rows) + "\n" + s[j:]
open(V + "/DESIGN.md", "w").write(s)
