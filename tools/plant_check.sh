#!/bin/bash
# plant_check.sh ID...: for each seeded bug, confirm in a scratch copy of /repo: patch applies, stable tests pass, demo 0 clean / nonzero patched
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo "$w/repo"; cp -r "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
  cd "$w/repo"
  export PYTHONPATH=$w/repo:/opt/vp/compat
  (timeout 300 bash "$w/demo/demo.sh" >"$w/clean.log" 2>&1); c=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  (timeout 300 bash "$w/demo/demo.sh" >"$w/bug.log" 2>&1); b=$?
  t=skip
  if [ -z "$NOTEST" ]; then
  /opt/venv/bin/python -m pytest -o addopts= -q -p no:cacheprovider -p reagent_compat -n 8 --timeout=300 --continue-on-collection-errors --tb=short -o junit_family=xunit2 --junitxml="$w/junit.xml" >"$w/test.log" 2>&1
  python3 /opt/vp/results.py "$w/out.json" "junit:$w/junit.xml" >/dev/null 2>&1
  t=$(python3 - "$w/out.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x): return set(x if isinstance(x,list) else x.keys())
st=names(b['stable']); p=set(o.get('passed',[]))
print("tests-ok" if st<=p else "BROKEN %s"%sorted(st-p)[:4])
P
)
  fi
  echo "$id: demo clean=$c patched=$b $t"
  [ $c -ne 0 ] && tail -5 "$w/clean.log"
  [ $b -eq 0 ] && tail -5 "$w/bug.log"
  rm -rf "$w"
done
