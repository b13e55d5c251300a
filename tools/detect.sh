#!/bin/bash
# detect.sh ID...  (development aid): does the check of the bug's property see it?
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  cd /verif && VERIF_SEED=${SEED:-1} timeout 900 ./check $p --tier quick --no-evidence > /tmp/det.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $(grep -c '^VIOLATION' /tmp/det.log) $(grep 'violations by monitor' /tmp/det.log | cut -c1-200)"
  python3 - "$id" "$r" <<'P'
import json, re, sys
f = "/verif/tools/detected.json"
try: d = json.load(open(f))
except Exception: d = {}
t = open("/tmp/det.log").read()
m = re.search(r"violations by monitor: (\{.*\})", t)
d[sys.argv[1]] = "no (exit %s)" % sys.argv[2] if sys.argv[2] != "1" else "yes: " + ", ".join(list(json.loads(m.group(1)))[:3] if m else ["?"])
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
P
done
