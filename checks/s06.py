"""S06: the service starts with exactly the healthy plans of its configuration directory."""
import json
import os
import shutil
import tempfile

from dst.core import check

from .s01 import make_plan
from .serving_common import ServingScenario, evaluate, fold, simrank, simulate


class S06(ServingScenario):
    id = "S06"
    title = "The service starts with exactly the valid plans of its directory"
    runs = {"quick": 2000, "thorough": 300000}
    rule = "at least one plan was read from disk"

    def plan(self, rng, index, tier):
        case = dict(workers=2, switch=rng.choice((0.1, 0.7)), slash=rng.choice(("", "", "/")), races=rng.random() < 0.3, delay={}, throw={}, io={}, files=[], dirs=[], ops=[])
        dirs = [""] + rng.sample(["a", "a/b", "c", "a/.d", "e.json"], rng.randrange(0, 4))
        case["dirs"] = sorted(d for d in dirs if d)
        names = set()
        for i in range(rng.choice((0, 1, 2, 3, 5, 8))):
            d = rng.choice(dirs)
            base = rng.choice(("p%d.json" % i, "plan %d" % i, ".h%d" % i, "caf\u00e9%d.json" % i, "x%d" % i))
            path = (d + "/" if d else "") + base
            if path in names or path in case["dirs"]:
                continue
            names.add(path)
            cfg = make_plan(rng, rng.choice((1, 2, 3)), False)
            kind = rng.choice(("good", "good", "good", "good", "truncated", "empty", "garbage", "unknown-op", "no-ops", "missing", "bad-value",
                               "dangling", "link", "vanish", "eio", "denied", "short", "binary", "fifo", "huge-number"))
            f = dict(path=path, kind=kind, config=cfg, cut=rng.random())
            if kind in ("vanish", "eio", "denied", "short"):
                case["io"][base] = kind
            if kind == "missing":
                f["key"] = rng.choice(("operators", "constants", "reward_function", "reward_aggregator", "num_actions_to_choose"))
            case["files"].append(f)
        n = 0
        for c in range(rng.choice((1, 2))):
            for _ in range(rng.choice((2, 4, 6))):
                p = rng.choice([f["path"] for f in case["files"]] + ["nobody"] + case["dirs"])
                case["ops"].append(dict(c=c, k="http", path="/api/request", body=dict(
                    plan_name=p, request_id="r%d" % n, actions=dict(names=["x"]), input={"map_double_value": {"v": float(rng.randrange(50))}})))
                n += 1
        if rng.random() < 0.3 and case["files"]:
            f = rng.choice(case["files"])
            cfg = make_plan(rng, 2, False)
            cfg["operators"][0]["op_name"] = "Nothing"
            case["ops"].append(dict(c=0, k="plan", name=f["path"], config=cfg))
            case["ops"].append(dict(c=0, k="http", path="/api/request", body=dict(
                plan_name=f["path"], request_id="r%d" % n, actions=dict(names=["x"]), input={"map_double_value": {"v": 1.0}})))
        return case

    def nontrivial(self, case, probe):
        return probe.hits["plans_used"] > 0

    def shrink(self, case):
        for i in range(len(case["files"])):
            gone = case["files"][i]["path"]
            yield dict(case, files=case["files"][:i] + case["files"][i + 1:], ops=[o for o in case["ops"] if o.get("body", {}).get("plan_name") != gone
                                                                                  and o.get("name") != gone])

    def run(self, case, probe):
        tmp = tempfile.mkdtemp(prefix="s06-")
        try:
            self.run_in(tmp, case, probe)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def run_in(self, tmp, case, probe):
        root = os.path.join(tmp, "plans")
        os.makedirs(root)
        for d in case["dirs"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        good = {}
        for f in case["files"]:
            path = os.path.join(root, f["path"])
            cfg, kind = dict(f["config"]), f["kind"]
            if kind == "unknown-op":
                cfg["operators"] = [dict(cfg["operators"][0], op_name="Nothing")] + cfg["operators"]
            elif kind == "no-ops":
                cfg["operators"] = []
            elif kind == "missing":
                cfg.pop(f["key"])
            elif kind == "bad-value":
                cfg["constants"] = cfg["constants"] + [dict(name="q", value={"strange_value": 1})]
            data = json.dumps(cfg).encode()
            if kind == "truncated":
                data = data[: 1 + int(f["cut"] * (len(data) - 2))]
            elif kind == "empty":
                data = b""
            elif kind == "garbage":
                data = b"{" + data
            elif kind == "binary":
                data = b"\xff\xfe\x00" + data
            elif kind == "huge-number":
                data = data.replace(b'"num_actions_to_choose": 1', b'"num_actions_to_choose": 1e999')
            if kind == "dangling":
                os.symlink(os.path.join(tmp, "nothing"), path)
            elif kind == "fifo":
                os.mkfifo(path)
            else:
                if kind == "link":
                    real = os.path.join(tmp, "real%d" % len(good))
                    os.symlink(real, path)
                    path = real
                with open(path, "wb") as h:
                    h.write(data)
            if kind in ("good", "link", "short"):
                good[f["path"]] = cfg
            else:
                probe.fault("config_" + kind)
            if kind == "short":
                probe.fault("short_reads")
        sim = dict(case, config_dir=root + case["slash"])
        res = simulate(sim)
        fold(res, probe)
        svc = [e for e in res["events"] if e["ev"] == "service"]
        check(svc and svc[0]["ok"], "not-started", lambda: "the service did not start: %s" % svc)
        ret = {e["i"]: e for e in res["events"] if e["ev"] == "return"}
        for i, o in enumerate(case["ops"]):
            check(i in ret, "no-answer", "operation %d did not end" % i)
            r = ret[i]
            if o["k"] == "plan":
                check("err" in r, "accepted-bad", "a plan with an unknown operator was accepted")
                continue
            b = o["body"]
            cfg = good.get(b["plan_name"])
            if cfg is None:
                check(r["code"] == 400, "accepted-bad", lambda: "plan %s is not valid, the answer is %s" % (b["plan_name"], r["body"][:300]))
                continue
            check(r["code"] == 200, "missing-plan", lambda: "plan %s is valid, but the answer is %s" % (b["plan_name"], r["body"][:300]))
            got = json.loads(r["body"])
            want = simrank(evaluate(cfg, b, b["request_id"])[cfg["operators"][-1]["name"]])
            check(got["actions"] == want, "wrong-answer", lambda: "answer %s, the plan gives %s" % (got["actions"], want))
            probe.hit("plans_used")


SCENARIO = S06()
