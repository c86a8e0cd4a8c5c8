#!/bin/bash
# usage: check.sh PROPERTY TIER [args]   |  check.sh --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="/repo:/opt/vp/compat:$here" PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
cd "$here"
if [ "$1" = "--replay" ]; then
  exec /opt/venv/bin/python "$here/dst/cli.py" --replay "$2"
fi
p="$1"; t="$2"; shift 2
exec /opt/venv/bin/python "$here/dst/cli.py" --property "$p" --tier "$t" "$@"
