"""S02: concurrent requests, feedback and plan updates are isolated from each other and memory safe."""
import json

from dst.core import check

from .s01 import make_plan
from .serving_common import Bad, ServingScenario, evaluate, fold, simrank, simulate

REAL = ("ucb", "softmax_ranker", "egreedy", "fit", "frechet", "expr", "score")


def real_plan(kind, rng):
    """a plan of the shipped operators; its input is a map of values per action"""
    consts, ops = [], []

    def const(v):
        n = "c%d" % len(consts)
        consts.append(dict(name=n, value=v))
        return n

    def op(name, **deps):
        n = "%s_%d" % (name, len(ops))
        ops.append(dict(name=n, op_name=name, input_dep_map=deps))
        return n

    if kind == "ucb":
        deps = dict(method=const({"string_value": "UCB1"}))
        if rng.random() < 0.6:
            deps["batch_size"] = const({"int_value": rng.choice((1, 2, 3, 5))})
        op("Ucb", **deps)
    else:
        src = "input"
        if kind == "fit":
            n = rng.choice((1, 2))
            targets = const({"map_double_value": {a: rng.choice((0.1, 0.5)) for a in ("x", "y", "z")[: rng.choice((1, 2, 3))]}})
            for _ in range(n):
                last = op("PropensityFit", input="input", targets=targets)
            src = last
        elif kind == "frechet":
            src = op("Frechet", values="input", rho=const({"double_value": 1.0}), gamma=const({"double_value": 2.0}))
        elif kind == "expr":
            src = op("Expression", equation=const({"string_value": "v * 2 + 1"}), v="input")
            src = op("Softmax", values=src, temperature=const({"double_value": 1.0}))
        elif kind == "score":
            src = op("ActionValueScoring", model_id=const({"int_value": 1}), snapshot_id=const({"int_value": 2}))
        if kind == "egreedy" or rng.random() < 0.3:
            op("EpsilonGreedyRanker", values=src, epsilon=const({"double_value": rng.choice((0.0, 0.3, 1.0))}))
        else:
            op("SoftmaxRanker", values=src, temperature=const({"double_value": rng.choice((0.1, 1.0))}))
    return dict(operators=ops, constants=consts, num_actions_to_choose=1, reward_function="r", reward_aggregator=rng.choice(("sum", "max")))


class S02(ServingScenario):
    id = "S02"
    title = "Concurrent decision requests, feedback and plan updates are isolated"
    runs = {"quick": 1600, "thorough": 300000}
    rule = "at least two clients overlapped"

    def plan(self, rng, index, tier):
        nclients = rng.choice((2, 2, 3, 4))
        case = dict(workers=rng.choice((1, 2, 4)), switch=rng.choice((0.05, 0.3, 0.7, 1.0)), delay={}, throw={}, ops=[], initial={})
        names = ["sim"] + rng.sample(REAL, rng.choice((1, 2)))
        for n in names:
            case["initial"][n] = make_plan(rng, rng.choice((1, 2, 3)), False) if n == "sim" else real_plan(n, rng)
        focus = rng.choice(("mixed", "sim", "real"))
        rid = 0
        mine = {}
        for c in range(nclients):
            for _ in range(rng.choice((2, 3, 4, 6))):
                p = "sim" if focus == "sim" else rng.choice(names[1:]) if focus == "real" else rng.choice(names)
                r = rng.random()
                i = len(case["ops"])
                if r < 0.15:
                    cfg = make_plan(rng, rng.choice((1, 2, 3)), False) if p == "sim" else real_plan(p, rng)
                    case["ops"].append(dict(c=c, k="plan", name=p, config=cfg))
                elif r < 0.65 or not mine.get(c):
                    own = rng.random() < 0.6
                    body = dict(plan_name=p, actions=dict(names=["x", "y", "z"]))
                    if own:
                        body["request_id"] = "r%d" % rid
                        rid += 1
                    body["input"] = {"map_double_value": {"v": float(rng.randrange(99))} if p == "sim" else
                                     {a: rng.randrange(100) / 10.0 for a in ("x", "y", "z")}}
                    if own and p == "sim" and rng.random() < 0.4:
                        for o in ("op0", "op1", "op2"):
                            case["delay"]["%s/%s" % (body["request_id"], o)] = rng.choice((1, 10, 300))
                    if own and rng.random() < 0.2 and p == "score":
                        case["delay"]["%s/scorer" % body["request_id"]] = rng.choice((1, 10, 40000))
                    case["ops"].append(dict(c=c, k="http", path="/api/request", uid=i, body=body))
                    mine.setdefault(c, []).append(i)
                else:
                    j = rng.choice(mine[c])
                    case["ops"].append(dict(c=c, k="http", path="/api/feedback", ref=j,
                                            body=dict(plan_name=case["ops"][j]["body"]["plan_name"], request_id="",
                                                      actions=[dict(name="x", metrics=dict(r=rng.randrange(5) / 4.0))])))
            if rng.random() < 0.3:
                case["ops"].append(dict(c=c, k="jump", ms=rng.choice((-3600000, 5000, 86400000))))
        return case

    def nontrivial(self, case, probe):
        return probe.hits["overlap"] > 0

    def shrink(self, case):
        for k in list(case["delay"]):
            yield dict(case, delay={a: b for a, b in case["delay"].items() if a != k})

    def run(self, case, probe):
        ops = [dict(c=0, k="plan", name=p, config=cfg) for p, cfg in sorted(case["initial"].items())]
        for c in sorted({o["c"] for o in case["ops"]}):
            ops.append(dict(c=c, k="sleep", ms=1))
        at = {}
        for o in case["ops"]:
            if "ref" in o and o["ref"] not in at:
                continue  # the minimiser dropped the request
            if "ref" in o:
                o = dict(o, rid_from=at[o["ref"]])
            if "uid" in o:
                at[o["uid"]] = len(ops)
            ops.append(o)
        sim = dict(case, ops=ops)
        res = simulate(sim)
        fold(res, probe)
        for v in case["delay"].values():
            probe.fault("slow_operator" if v < 20000 else "stalled_operator")
        probe.fault("clock_jump", sum(o["k"] == "jump" for o in case["ops"]))
        call, ret = {}, {}
        for k, e in enumerate(res["events"]):
            if e["ev"] == "call":
                call[e["i"]] = k
            elif e["ev"] == "return":
                ret[e["i"]] = (k, e)
        http = [i for i, o in enumerate(ops) if o["k"] == "http"]
        for i in range(len(ops)):
            check(i in ret, "no-answer", "operation %d did not end" % i)
        probe.hit("overlap", sum(1 for i in http for j in http if i < j and ops[i]["c"] != ops[j]["c"]
                                 and call[j] < ret[i][0] and call[i] < ret[j][0]))
        versions = {}
        for i, o in enumerate(ops):
            if o["k"] == "plan":
                check("err" not in ret[i][1], "plan-refused", ret[i][1].get("err", ""))
                versions.setdefault(o["name"], []).append(i)
        seen = {}
        for i in http:
            o, (k, r) = ops[i], ret[i]
            body = o["body"]
            check(r.get("writes") == 1, "answers", "the handler wrote %s answers" % r.get("writes"))
            if o["path"] != "/api/request":
                continue
            cands = [v for v in versions[body["plan_name"]] if call[v] < k and not any(
                ret[v][0] < call[u] and ret[u][0] < call[i] for u in versions[body["plan_name"]])]
            probe.hit("versions_possible", len(cands))
            if r["code"] == 400 and sum(case["delay"].values()) >= 30000 and r["t"] - res["events"][call[i]]["t"] >= 29999000:
                probe.hit("timed_out")  # a stalled scorer holds the threads of the executor
                continue
            check(r["code"] == 200, "refused-good", lambda: "request %d was refused: %s" % (i, r["body"][:300]))
            got = json.loads(r["body"])
            check(got["plan_name"] == body["plan_name"], "wrong-id", "answer for plan %s" % got["plan_name"])
            if "request_id" in body:
                check(got["request_id"] == body["request_id"], "wrong-id", "answer for request %s" % got["request_id"])
            else:
                check(got["request_id"] and got["request_id"] not in seen, "id-not-unique",
                      lambda: "requests %s and %s were both given the id %s" % (seen.get(got["request_id"]), i, got["request_id"]))
                probe.hit("ids_made")
            seen[got["request_id"]] = i
            if body["plan_name"] == "sim":
                wants = []
                for v in cands:
                    cfg = ops[v]["config"]
                    wants.append(simrank(evaluate(cfg, body, got["request_id"])[cfg["operators"][-1]["name"]]))
                check(got["actions"] in wants, "mixed-plan", lambda: "answer %s; the plans in force at some time during the request give %s" % (
                    got["actions"], wants))
            elif body["plan_name"] == "ucb":
                check(len(got["actions"]) == 1 and got["actions"][0]["name"] in ("x", "y", "z"), "wrong-answer", str(got)[:300])
            else:
                check(sorted(a["name"] for a in got["actions"]) == ["x", "y", "z"], "wrong-answer", str(got)[:300])
            for a in got["actions"]:
                check(isinstance(a["propensity"], (int, float)) and 0 <= a["propensity"] <= 1 + 1e-9, "propensity", str(got)[:300])
            probe.hit("answered")


SCENARIO = S02()
