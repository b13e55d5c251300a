"""DESIGN.md = tools/design_head.md + one section per property (docstrings) + findings + seeded bugs."""
import ast, glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P
out = [open(os.path.join(HERE, "design_head.md")).read(), "## Properties\n"]
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
for p in P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    f = os.path.join(ROOT, "vt/checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        out.append("Not claimed: %s.\n" % na.get(p["id"], "not built"))
        continue
    src = open(f).read()
    t = ast.parse(src)
    out.append((ast.get_docstring(t) or "") + "\n")
    rows = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "attr", "") == "family":
                    try:
                        q = eval(compile(ast.Expression(d.args[1]), "", "eval"), {})
                    except Exception:
                        q = "?"
                    doc = (ast.get_docstring(n) or "").replace("\n", " ")
                    rows.append("`%s` (%s cases)%s" % (n.name, q, ": " + doc if doc else ""))
    mons = sorted(set(re.findall(r'mon\.(?:close|le|true|raises|finite|fail)\(\s*"([^"]+)"', src)))
    if rows:
        out.append("Families (quick tier): " + "; ".join(rows) + ".\n")
    if mons:
        out.append("Monitors: " + ", ".join(mons) + ".\n")
tail = os.path.join(HERE, "design_tail.md")
if os.path.exists(tail):
    out.append(open(tail).read())
out.append("## Defects found\n\n```\n%s```\n" % open(os.path.join(ROOT, "known_findings.txt")).read())
out.append("## Planted bugs (seeded/) and the checks that catch them\n\n| bug | property | needs | caught |\n|---|---|---|---|\n")
res = {}
rf = os.path.join(HERE, "detected.json")
if os.path.exists(rf):
    res = json.load(open(rf))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    i = d.split("/")[-2]; m = json.load(open(d))
    out.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, "not run")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out[:-1 - len(glob.glob(os.path.join(ROOT, "seeded/*/meta.json")))]) + "\n" + "".join(out[-1 - len(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):]))
