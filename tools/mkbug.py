"""mkbug.py SPEC.py: SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source)."""
import json, os, subprocess, sys, tempfile, shutil

HEAD = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
export PYTHONPATH="$repo:/opt/vp/compat"
exec /opt/venv/bin/python "$here/demo.py"
"""
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(spec):
    d = os.path.join(V, "seeded", spec["ID"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in spec["EDITS"]:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (spec["ID"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(spec.get("DEMO_SH") or HEAD)
    if spec.get("DEMO"):
        open(os.path.join(d, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
    for name, content in spec.get("FILES", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        open(os.path.join(d, name), "w").write(content)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", spec["ID"])


if __name__ == "__main__":
    for path in sys.argv[1:]:
        ns = {}
        exec(open(path).read(), ns)
        for spec in ns["SPECS"]:
            make(spec)
