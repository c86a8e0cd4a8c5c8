"""survey.py PROPERTY N [start]: run N cases in this process and count outcomes by class (development aid)."""
import collections
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import core, cli  # noqa

scn = cli.load(sys.argv[1])
scn.setup()
c = collections.Counter()
ex = {}
hits = collections.Counter()
start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
for i in range(start, start + int(sys.argv[2])):
    rng = core.run_rng(1, scn.id, i)
    case = scn.plan(rng, i, "quick")
    case.setdefault("seed", rng.getrandbits(48))
    case = json.loads(json.dumps(case))
    st, pl, probe = core.run_case(scn, case)
    hits.update(probe.hits)
    hits.update(probe.faults)
    k = (st, "" if st == "ok" else pl if st == "harness" else pl["cls"] + " " + str(sorted(pl["data"].items())) + " " + pl["msg"][:int(os.environ.get("W", 60))])
    c[k] += 1
    ex.setdefault(k, (i, pl))
for k, n in c.most_common():
    print(n, k[0], k[1], "first", ex[k][0], "" if k[0] == "ok" else ex[k][1])
print(dict(hits))
