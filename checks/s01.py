"""S01: a decision plan's operators run once each, after what they need, whatever the executor does."""
import json

from dst.core import Violation, check

from .serving_common import Bad, ServingScenario, digest, evaluate, fold, num, simop, simrank, simulate

LIMIT_MS = 30000


def make_plan(rng, n, faulty):
    names = ["op%d" % i for i in range(n)]
    consts = [dict(name="k%d" % i, value={"map_double_value": {"v": float(rng.randrange(1000))}}) for i in range(rng.randrange(0, 4))]
    if faulty and consts and rng.random() < 0.2:
        consts[0]["value"] = {"string_value": "x"}
    ops = []
    for i, nm in enumerate(names):
        src = names[:i] + [c["name"] for c in consts] + ["input"]
        deps = {}
        for k in range(rng.choice((0, 1, 1, 2, 2, 3)) if i < n - 1 else rng.choice((1, 2, 3))):
            d = rng.choice(src if rng.random() < 0.4 or i == 0 else names[max(0, i - 3):i])
            deps["in%d" % k] = d
        if faulty and rng.random() < 0.03:
            deps["inX"] = "nobody"
        ops.append(dict(name=nm, op_name="SimOp", input_dep_map=deps))
    ops[-1]["op_name"] = "SimRank"
    if faulty and rng.random() < 0.05:
        ops[-1]["op_name"] = "SimOp"
    last = ops.pop()
    if rng.random() < 0.5:
        rng.shuffle(ops)  # the list need not be in the order of the dependencies
    return dict(operators=ops + [last], constants=consts, num_actions_to_choose=1,
                reward_function="", reward_aggregator=rng.choice(("sum", "max")))


class S01(ServingScenario):
    id = "S01"
    title = "Operators of a decision plan run once, in dependency order"
    runs = {"quick": 3000, "thorough": 400000}
    rule = "at least one request was answered and the schedule switched between threads"

    def plan(self, rng, index, tier):
        faulty = rng.random() < 0.6
        nclients = rng.choice((1, 1, 2, 3))
        plans = {"p%d" % i: make_plan(rng, rng.choice((1, 2, 3, 4, 5, 6, 8)), faulty) for i in range(rng.choice((1, 1, 2)))}
        case = dict(workers=rng.choice((1, 2, 2, 3, 4)), switch=rng.choice((0.1, 0.4, 0.8, 1.0)), plans=plans, delay={}, ops=[])
        case["throw"] = {}
        rid = 0
        slow = rng.random() < 0.5
        for c in range(nclients):
            for _ in range(rng.choice((1, 2, 3))):
                p = rng.choice(sorted(plans))
                r = "r%d" % rid
                rid += 1
                body = dict(plan_name=p, request_id=r, actions=dict(names=["x"]), input={"map_double_value": {"v": float(rng.randrange(99))}})
                if faulty and rng.random() < 0.1:
                    body["input"] = rng.choice(({"string_value": "q"}, {"map_double_value": {"w": 1.0}}, {"int_value": 3}))
                if faulty and rng.random() < 0.05:
                    body["plan_name"] = "other"
                for o in plans[p]["operators"]:
                    key = "%s/%s" % (r, o["name"])
                    if slow and rng.random() < 0.5:
                        case["delay"][key] = rng.choice((1, 5, 20, 100, 1000))
                        if faulty and rng.random() < 0.12:
                            case["delay"][key] = rng.choice((20000, 29000, 31000, 45000, 90000))
                    if faulty and rng.random() < 0.05:
                        case["throw"][key] = rng.choice((1, 2))
                case["ops"].append(dict(c=c, k="http", path="/api/request", body=body))
        return case

    def nontrivial(self, case, probe):
        return probe.hits["answered"] + probe.hits["refused"] >= 1 and probe.hits["thread_switches"] > 3

    def shrink(self, case):
        for k in list(case["delay"]):
            d = dict(case, delay={a: b for a, b in case["delay"].items() if a != k})
            yield d
        for k in list(case["throw"]):
            yield dict(case, throw={a: b for a, b in case["throw"].items() if a != k})
        for p in case["plans"]:
            cfg = case["plans"][p]
            for i in range(len(cfg["operators"]) - 1):
                gone = cfg["operators"][i]["name"]
                ops = [dict(o, input_dep_map={a: b for a, b in o["input_dep_map"].items() if b != gone})
                       for o in cfg["operators"] if o["name"] != gone]
                yield dict(case, plans=dict(case["plans"], **{p: dict(cfg, operators=ops)}))
        if case["workers"] != 1:
            yield dict(case, workers=1)

    def run(self, case, probe):
        sim = dict(case)
        pre = [dict(c=0, k="plan", name=p, config=cfg) for p, cfg in sorted(case["plans"].items())]
        # the plans are created before any client starts: other clients wait for time 1
        ops = list(pre)
        clients = sorted({o["c"] for o in case["ops"]})
        for c in clients:
            if c != 0:
                ops.append(dict(c=c, k="sleep", ms=1))
        if 0 in clients:
            ops.append(dict(c=0, k="sleep", ms=1))
        base = len(ops)
        ops += case["ops"]
        sim["ops"] = ops
        res = simulate(sim)
        fold(res, probe)
        for v in case["delay"].values():
            probe.fault("slow_operator" if v < 20000 else "stalled_operator")
        for v in case["throw"].values():
            probe.fault("operator_failed")
        ev = res["events"]
        call, ret = {}, {}
        starts, ends = {}, {}
        for k, e in enumerate(ev):
            if e["ev"] == "call":
                call[e["i"]] = e
            elif e["ev"] == "return":
                ret[e["i"]] = e
            elif e["ev"] == "op-start":
                starts.setdefault((e["rid"], e["op"]), []).append((k, e))
            elif e["ev"] == "op-end":
                ends.setdefault((e["rid"], e["op"]), []).append((k, e))
        total = sum(case["delay"].values())
        for i, o in enumerate(case["ops"]):
            i += base
            check(i in ret, "no-answer", "request %d was never answered" % i)
            r = ret[i]
            body = o["body"]
            rid = body["request_id"]
            check(r.get("writes") == 1, "answers", "the handler wrote %s answers" % r.get("writes"))
            took = (r["t"] - call[i]["t"]) / 1000.0
            cfg = case["plans"].get(body["plan_name"])
            mine = {n: ends.get((rid, n), []) for n in ([x["name"] for x in cfg["operators"]] if cfg else [])}
            check(took <= LIMIT_MS + 1, "late-answer", "the answer took %d ms, the limit is %d" % (took, LIMIT_MS))
            bad = None
            vals = {}
            try:
                if cfg is None:
                    raise Bad("no such plan")
                vals = evaluate(cfg, body, rid)
                if cfg["operators"][-1]["op_name"] != "SimRank":
                    raise Bad("the last operator does not rank actions")
                for n in mine:
                    if "%s/%s" % (rid, n) in case["throw"]:
                        raise Bad("operator %s fails" % n)
            except Bad as e:
                bad = str(e)
            if bad is not None:
                check(r["code"] == 400, "accepted-bad", lambda: "%s, but the answer is %s %s" % (bad, r["code"], r["body"][:200]))
                probe.hit("refused")
            elif r["code"] != 200:
                check(total >= LIMIT_MS, "refused-good", lambda: "all operators work and take %d ms together, but the answer is %s %s" % (
                    total, r["code"], r["body"][:200]))
                check(took >= LIMIT_MS - 1, "refused-early", "an error after %d ms although nothing failed: %s" % (took, r["body"][:200]))
                probe.hit("timed_out")
            else:
                own = self.path(cfg, case["delay"], rid)
                check(own <= LIMIT_MS, "answered-unfinished", "answered although its operators need %d ms" % own)
                want = simrank(vals[cfg["operators"][-1]["name"]])
                got = json.loads(r["body"])
                check(got["actions"] == want, "wrong-answer", lambda: "answer %s, the plan gives %s" % (got["actions"], want))
                check(got["request_id"] == rid and got["plan_name"] == body["plan_name"], "wrong-id", str(got)[:300])
                for n in mine:
                    check(len(mine[n]) == 1, "not-once", "operator %s ran %d times" % (n, len(mine[n])))
                probe.hit("answered")
            if cfg:
                self.order(cfg, body, rid, starts, ends, case["throw"])
        for (rid, op), l in starts.items():
            check(len(l) == 1, "not-once", "operator %s of %s was started %d times" % (op, rid, len(l)))

    def path(self, cfg, delay, rid):
        ops = {o["name"]: o for o in cfg["operators"]}
        memo = {}

        def f(n):
            if n not in ops:
                return 0
            if n not in memo:
                memo[n] = delay.get("%s/%s" % (rid, n), 0) + max([f(d) for d in ops[n]["input_dep_map"].values()] or [0])
            return memo[n]

        return max(f(n) for n in ops)

    def order(self, cfg, body, rid, starts, ends, throw):
        ops = {o["name"]: o for o in cfg["operators"]}
        consts = {c["name"]: c["value"] for c in cfg["constants"]}
        for n, o in ops.items():
            for k, e in starts.get((rid, n), []):
                check(set(e["in"]) == set(o["input_dep_map"]), "inputs", lambda: "operator %s got inputs %s" % (n, sorted(e["in"])))
                for name, d in o["input_dep_map"].items():
                    got = e["in"][name]
                    if d in ops:
                        done = [x for x in ends.get((rid, d), []) if x[0] < k]
                        check(done, "order", "operator %s was started before %s, which it depends on, had finished" % (n, d))
                        if ops[d]["op_name"] == "SimRank":
                            continue
                        check(num(got) == done[0][1]["v"], "inputs", lambda: "operator %s got %s from %s" % (n, got, d))
                    elif d in consts:
                        check(got == consts[d], "inputs", lambda: "operator %s got %s for constant %s" % (n, got, d))
                    elif d == "input":
                        check(got == body["input"], "inputs", lambda: "operator %s got %s as the input" % (n, got))


SCENARIO = S01()
