#!/bin/bash
here="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="/repo:/opt/vp/compat:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$here/tools/survey.py" "$@"
