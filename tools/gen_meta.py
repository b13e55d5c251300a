"""Writes properties.jsonl and MANIFEST.json from tools/props.py and vt/checks/."""

import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

checks, na = [], []
for p in P:
    path = os.path.join(ROOT, "vt/checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    src = open(path).read()
    tech = re.search(r'^TECHNIQUE\s*=\s*"(.*?)"', src, re.M)
    note = re.search(r'^LEVEL_NOTE\s*=\s*\(?\s*((?:"[^"]*"\s*)+)\)?', src, re.M)
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s --tier quick" % p["id"],
        "thorough_cmd": "./check %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": tech.group(1) if tech else
        "runtime monitoring: online oracles over generated executions of the real code",
        "level": "exploration",
        "level_note": " ".join(re.findall(r'"([^"]*)"', note.group(1))) if note else
        "Held on the executions observed (counts per monitor in the evidence file); trusts"
        " NumPy/SciPy and the oracle formulas in vt/, which do not import ot; floating-point"
        " tolerances are at least five times the largest error seen on the unchanged tree.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Each check imports ot from /repo (extensions rebuilt in scratch when their"
             " sources changed). VERIF_SEED seeds every case. ./check ID --replay FILE re-runs one"
             " case. No hooks were needed in /repo.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
