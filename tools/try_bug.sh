#!/bin/bash
# try_bug.sh ID [PROP...]: apply to /repo, run the check(s), undo
id=$1; shift
d=/verif/seeded/$id
props="$@"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
for p in $props; do
  timeout 900 bash /verif/check.sh $p quick >/tmp/try.$id.$p.log 2>&1; r=$?
  echo "$id $p exit=$r $(grep -h '^violated' /tmp/try.$id.$p.log | head -1 | cut -c1-160)"
  [ $r -gt 1 ] && tail -5 /tmp/try.$id.$p.log
done
git -C /repo checkout -q -- .
