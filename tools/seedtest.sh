#!/bin/bash
# seedtest.sh DIR: in a scratch copy of /repo, check that DIR/patch.diff builds, passes the
# stable tests and that DIR/demo.sh fails with it and passes without it.
set -u
D=$(realpath "$1"); ID=$(basename "$D"); W=/tmp/w/$ID
rm -rf "/tmp/w/$ID"; mkdir -p "$W"
cp -a /repo "$W/repo"; [ -d /opt/deepwave-build ] && mkdir "$W/build"
sed -e "s#^REPO=/repo#REPO=$W/repo#" -e "s#^BUILD=.*#BUILD=$W/build#" -e "s#/repo/src/#$W/repo/src/#" /opt/vp/build.sh > "$W/build.sh"
export PYTHONPATH=$W/repo/src PYTHONDONTWRITEBYTECODE=1
demo() { mkdir -p "$W/demo"; cp "$D"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"; (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/demo.log" 2>&1); }
cd "$W/repo" || exit 3
if [ "${1:-}" ] && [ "${2:-}" != fast ]; then
bash "$W/build.sh" --lib-only >"$W/b.log" 2>&1 || { echo "$ID base build failed"; exit 3; }
demo; A=$?
else A=0; fi
git apply "$D/patch.diff" || { echo "$ID patch does not apply"; exit 3; }
bash "$W/build.sh" --lib-only >"$W/b.log" 2>&1 || { echo "$ID build failed"; tail -5 "$W/b.log"; exit 3; }
demo; B=$?
tail -2 "$W/demo.log"
T=skipped
if [ "${2:-}" != fast ]; then
  OMP_NUM_THREADS=1 PYTHONHASHSEED=0 timeout 780 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=300 tests --ignore=tests/test_acoustic.py --ignore=tests/test_elastic.py --ignore=tests/test_scalar.py --ignore=tests/test_scalar_born.py -o junit_family=xunit2 --junitxml="$W/report.xml" >"$W/t.log" 2>&1
  /usr/bin/python3 /opt/vp/results.py "$W/out.json" "junit:$W/report.xml" >/dev/null 2>&1
  T=$(python3 - "$W/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']); print("lost:%d"%len(st-set(o['passed'])))
P
)
fi
echo "SEED $ID demo-clean=$A demo-patched=$B tests=$T"
rm -rf "/tmp/w/$ID"
