#!/bin/bash
# plant.sh ID...   (development aid; no check uses it)
# In a scratch copy of /repo: applies every patch at once, runs the stable tests; then for
# each patch alone: build if native files changed, demo must fail; and pass without it.
export HOME=/root PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 PYKEOPS_VERBOSE=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1
V=/verif/seeded
S=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$S"' EXIT
cp -a /repo "$S/repo"; cd "$S/repo" || exit 1
git checkout -q -- .
sed "s#/repo#$S/repo#g" /opt/vp/build_ext.py > "$S/build_ext.py"
build() { PYTHONPATH=$S/repo python "$S/build_ext.py" >"$S/b.log" 2>&1 || { tail "$S/b.log"; return 1; }; }
native() { git diff --name-only | grep -qE '\.(h|cpp|pyx)$'; }
NT=0
for id in "$@"; do
  ids="$ids $id"
  PYTHONPATH=$PWD timeout 300 bash $V/$id/demo.sh >"$S/d.log" 2>&1 || { echo "$id: demo FAILS on clean tree"; tail -3 "$S/d.log"; }
  git apply $V/$id/patch.diff || { echo "$id: does not apply"; continue; }
  native && { build || echo "$id: BUILD FAILS"; NT=1; W=1; }
  if PYTHONPATH=$PWD timeout 300 bash $V/$id/demo.sh >"$S/d.log" 2>&1; then echo "$id: demo PASSES with the patch"; else echo "$id: demo ok: $(tail -1 "$S/d.log")"; fi
  git checkout -q -- .
  [ -n "$W" ] && { build; W=; }
done
[ -n "$NOTEST" ] && exit 0
for id in $ids; do git apply $V/$id/patch.diff || echo "$id does not stack"; done
[ $NT = 1 ] && build
PYTHONPATH=$S/repo:/opt/vp python -m pytest -q -n 8 --dist worksteal -p pot_test_plugin -p no:cacheprovider --timeout=300 --continue-on-collection-errors --doctest-modules --ignore=test/test_bspot.py --junitxml="$S/junit.xml" test/ ot/ >"$S/t.log" 2>&1
python /opt/vp/results.py "$S/out.json" "junit:$S/junit.xml"
python - "$S/out.json" <<'P'
import json, sys
r = json.load(open(sys.argv[1])); b = json.load(open("/opt/vp/BASELINE.json"))
base = b["stable"]
miss = sorted(set(base) - set(r["passed"]))
print("stable tests lost:", len(miss), miss[:12])
P
python -c "import ot; print(ot.__file__)"
