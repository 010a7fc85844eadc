#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, the checks' descriptions, seeded/ and tools/design_tail.md"""
import ast, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import techniques
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
out = [open(os.path.join(here, "tools/design_head.md")).read()]
for k, v in sorted(techniques.NA.items()):
    if not (os.path.exists(os.path.join(here, "checks", k.lower() + ".py")) and k in techniques.TECH):
        out.append("* **%s** %s: %s." % (k, next(p["title"] for p in props if p["id"] == k), v))
out.append("\n## Per property\n")
for p in props:
    f = os.path.join(here, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f) or p["id"] not in techniques.TECH:
        continue
    t = ast.parse(open(f).read())
    doc = ast.get_docstring(t) or ""
    ass = [ast.literal_eval(n.value) if isinstance(n.value, ast.List) else [] for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS"]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Method:* %s.\n" % techniques.TECH[p["id"]])
    out.append(doc + "\n")
    out.append("*Scope:* %s.\n" % techniques.NOTE.get(p["id"], ""))
    if ass and ass[0]:
        out.append("*Assumed:* %s.\n" % "; ".join(ass[0]))
out.append(open(os.path.join(here, "tools/design_tail.md")).read())
out.append("## Planted bugs\n\nEach lies in `seeded/<id>/` with a behaviour-based demonstration; all were run in a scratch tree\n"
           "(build, stable tests, demonstration without and with the change, checks).\n")
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
reg = {}
rp = os.path.join(here, "tools/caught.json")
if os.path.exists(rp):
    reg = json.load(open(rp))
sd = os.path.join(here, "seeded")
for d in sorted(os.listdir(sd)):
    m = os.path.join(sd, d, "meta.json")
    if os.path.exists(m):
        j = json.load(open(m))
        out.append("| %s | %s | %s | %s |" % (d, j["property"], j["needs"].replace("|", "/"), reg.get(d, "?")))
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out) + "\n")
