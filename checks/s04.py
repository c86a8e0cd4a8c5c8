"""S04: bandit operators learn from every joined feedback exactly once."""
import json
import math
from collections import deque

from dst.core import check

from .serving_common import ServingScenario, fold, simulate

ARMS = ("x", "y", "z", "w")


def ucb_plan(batches):
    """one Ucb operator per batch size; the last one, u0, gives the answer"""
    consts, ops = [dict(name="m", value={"string_value": "UCB1"})], []
    for k, batch in reversed(list(enumerate(batches))):
        deps = dict(method="m")
        if batch is not None:
            consts.append(dict(name="b%d" % k, value={"int_value": batch}))
            deps["batch_size"] = "b%d" % k
        ops.append(dict(name="u%d" % k, op_name="Ucb", input_dep_map=deps))
    return dict(operators=ops, constants=consts, num_actions_to_choose=1, reward_function="r", reward_aggregator="sum")


def fit_plan(targets, chain):
    consts = [dict(name="t", value={"double_value": 1.0})]
    ops = []
    if targets is None:  # a target of zero for every action of the request
        consts.append(dict(name="e", value={"string_value": "v * 0"}))
        ops.append(dict(name="tg", op_name="Expression", input_dep_map=dict(equation="e", v="input")))
        tg = "tg"
    else:
        consts.append(dict(name="tg", value={"map_double_value": targets}))
        tg = "tg"
    src = "input"
    for i in range(chain):
        ops.append(dict(name="f%d" % i, op_name="PropensityFit", input_dep_map=dict(input=src, targets=tg)))
        src = "f%d" % i
    ops.append(dict(name="rank", op_name="SoftmaxRanker", input_dep_map=dict(values=src, temperature="t")))
    return dict(operators=ops, constants=consts, num_actions_to_choose=1, reward_function="", reward_aggregator="sum")


class S04(ServingScenario):
    id = "S04"
    title = "Bandit operators learn from every joined feedback exactly once"
    runs = {"quick": 900, "thorough": 300000}
    rule = "at least one feedback was learned from"

    def plan(self, rng, index, tier):
        mode = "uniform" if index % 40 == 39 else ("ucb", "fit", "ucb-conc", "fit-conc")[index % 4]
        conc = mode.endswith("conc")
        case = dict(mode=mode, workers=rng.choice((1, 2, 4)), switch=rng.choice((0.05, 0.3, 0.7, 1.0)), races=conc or rng.random() < 0.2, delay={}, throw={}, ops=[], plans={})
        arms = ARMS[: rng.choice((1, 2, 3, 4))]
        case["arms"] = list(arms)
        if mode == "uniform":
            case["arms"] = list(ARMS[: rng.choice((2, 3, 4))])
            case["switch"] = 0.05
            case["races"] = False
            case["plans"]["p"] = ucb_plan([None])
            for i in range(150):
                case["ops"].append(dict(c=0, k="http", path="/api/request", uid=i,
                                        body=dict(plan_name="p", request_id="r%d" % i, actions=dict(names=case["arms"]), input={"int_value": 0})))
            return case
        if mode.startswith("ucb"):
            case["batch"] = {}
            for p in ("p", "q")[: rng.choice((1, 1, 2))]:
                b = [rng.choice((None, 1, 2, 4)) if conc else rng.choice((None, 1, 2, 3, 5)) for _ in range(rng.choice((1, 1, 2)))]
                if not conc and rng.random() < 0.04:
                    b = [0]
                case["batch"][p] = b
                case["plans"][p] = ucb_plan(b)
            if not conc and rng.random() < 0.4:
                case["window"] = rng.choice((5, 6, 8))
        else:
            chain = rng.choice((1, 1, 2))
            if conc:
                case["targets"] = {a: rng.choice((-100.0, 100.0)) for a in arms}
            else:
                case["targets"] = None if rng.random() < 0.4 else {a: rng.choice((0.0, 0.25, 0.5, 2.0)) for a in rng.sample(ARMS, rng.choice((1, 2, 3)))}
                if rng.random() < 0.5:
                    case["window"] = rng.choice((1, 2, 4))
            case["chain"] = chain
            case["plans"]["p"] = fit_plan(case["targets"], chain)
        n = 0
        for c in range(rng.choice((2, 3, 4)) if conc else 1):
            mine = []
            for _ in range(rng.choice((4, 8, 12)) if conc else rng.choice((6, 15, 30))):
                p = rng.choice(sorted(case["plans"]))
                i = len(case["ops"])
                if rng.random() < 0.5 or not mine:
                    names = list(arms)
                    if not conc and rng.random() < 0.25:
                        names = rng.sample(list(arms), rng.randrange(0, len(arms) + 1))
                    body = dict(plan_name=p, request_id="r%d" % n, actions=dict(names=names), input={"int_value": 0})
                    if mode.startswith("fit"):
                        body["input"] = {"map_double_value": {a: rng.randrange(-8, 9) / 4.0 for a in names}}
                    case["ops"].append(dict(c=c, k="http", path="/api/request", uid=n, body=body))
                    mine.append((n, p))
                    n += 1
                else:
                    u, p = rng.choice(mine)
                    r = rng.choice((-1.0, 0.0, 0.25, 1.0, 3.0))
                    case["ops"].append(dict(c=c, k="http", path="/api/feedback", ref=u,
                                            body=dict(plan_name=p, request_id="r%d" % u, actions=[dict(name="x", metrics=dict(r=r))])))
                    if rng.random() < 0.7:
                        mine.remove((u, p))
                if rng.random() < 0.06:
                    case["ops"].append(dict(c=c, k="plan", name=p, config=case["plans"][p]))
                if not conc and rng.random() < 0.1:
                    case["ops"].append(dict(c=c, k="jump", ms=rng.choice((-3600000, 60000))))
        if mode == "ucb-conc":
            # every reward is a power of two, so that sums tell which rewards are in them
            for k, o in enumerate(o for o in case["ops"] if "ref" in o):
                o["body"]["actions"][0]["metrics"]["r"] = float(2 ** k)
        return case

    def nontrivial(self, case, probe):
        return probe.hits["learned"] + probe.hits["uniform_draws"] > 0

    def run(self, case, probe):
        ops = [dict(c=0, k="plan", name=p, config=cfg) for p, cfg in sorted(case["plans"].items())]
        clients = sorted({o["c"] for o in case["ops"]})
        for c in clients:
            ops.append(dict(c=c, k="sleep", ms=1))
        have = {o["uid"] for o in case["ops"] if "uid" in o}
        ops += [o for o in case["ops"] if o.get("ref", -1) in have or "ref" not in o]
        last = max(clients) + 1 if clients else 1
        ops.append(dict(c=last, k="sleep", ms=1000))
        tail = len(ops)
        if case["mode"].startswith("ucb"):
            for p in sorted(case["plans"]):
                for k in range(len(case["batch"][p])):
                    for a in case["arms"]:
                        ops.append(dict(c=last, k="expectation", plan=p, at=len(case["batch"][p]) - 1 - k, op=k, arm=a))
        elif case["mode"].startswith("fit"):
            at = {o["name"]: i for i, o in enumerate(case["plans"]["p"]["operators"])}
            for i in range(case["chain"]):
                for a in ARMS:
                    ops.append(dict(c=last, k="shift", plan="p", at=at["f%d" % i], action=a))
        res = simulate(dict(case, ops=ops))
        fold(res, probe)
        probe.fault("clock_jump", sum(o["k"] == "jump" for o in ops))
        probe.fault("plan_replaced", sum(o["k"] == "plan" for o in case["ops"]))
        call, ret = {}, {}
        for k, e in enumerate(res["events"]):
            if e["ev"] == "call":
                call[e["i"]] = k
            elif e["ev"] == "return":
                ret[e["i"]] = (k, e)
        for i in range(len(ops)):
            check(i in ret, "no-answer", "operation %d did not end" % i)
        logged = {d["request"]["request_id"]: d for d in res["events"][-1]["logged"]}
        getattr(self, case["mode"].replace("-", "_"))(case, probe, ops, call, ret, tail, logged)

    # ---- one client: exact
    def pulled(self, rid, answer, logged, k):
        """the arm operator k pulled for a request: what it answered, or what the joined record says"""
        if k == 0:
            return answer
        if rid not in logged:
            return None
        return logged[rid]["outputs"]["u%d" % k]["ranked_action_list"]

    def ucb(self, case, probe, ops, call, ret, tail, logged):
        win = case.get("window", 10 ** 9)
        arm, bat, open_ = {}, {}, {}
        for i, o in enumerate(ops[:tail]):
            if o["k"] != "http":
                continue
            r, b = ret[i][1], o["body"]
            p, rid = b["plan_name"], b["request_id"]
            if o["path"] == "/api/request":
                names = b["actions"]["names"]
                if not names:
                    check(r["code"] == 400, "no-arms", r["body"][:200])
                    continue
                check(r["code"] == 200, "refused-good", r["body"][:300])
                open_[rid] = {}
                for k in range(len(case["batch"][p])):
                    got = self.pulled(rid, json.loads(r["body"])["actions"], logged, k)
                    if got is None:
                        continue
                    check(len(got) == 1 and got[0]["name"] in names, "not-an-arm", str(got))
                    name, prop = got[0]["name"], got[0]["propensity"]
                    fresh = [a for a in names if not arm.get((p, k, a))]
                    if fresh:
                        check(name in fresh, "unpulled-first", lambda: "%s is pulled although %s were never rewarded" % (name, fresh))
                        check(math.isclose(prop, 1.0 / len(fresh)), "propensity", lambda: "%s of %d arms that were never pulled" % (prop, len(fresh)))
                    else:
                        n = sum(len(arm[p, k, a]) for a in names)
                        score = {a: sum(arm[p, k, a]) / len(arm[p, k, a]) + math.sqrt(2 * math.log(n) / len(arm[p, k, a])) for a in names}
                        check(score[name] >= max(score.values()) - 1e-9, "not-best", lambda: "%s is pulled, scores are %s" % (name, score))
                        check(prop == 1.0, "propensity", str(got))
                        probe.hit("best_arm_pulled")
                    open_[rid][k] = name
            else:
                batches = case["batch"][p]
                picked = open_.pop(rid, None)
                if batches == [0]:
                    if picked is not None:
                        check(r["code"] == 400, "batch-of-zero", r["body"][:200])
                    continue
                check(r["code"] == 200, "refused-good", r["body"][:300])
                if picked is None:
                    continue  # no such decision any more
                probe.hit("learned")
                for k, batch in enumerate(batches):
                    check(k in picked, "not-joined", rid)
                    q = bat.setdefault((p, k, picked[k]), [])
                    q.append(b["actions"][0]["metrics"]["r"])
                    if len(q) % (batch or 1) == 0:
                        a = arm.setdefault((p, k, picked[k]), deque())
                        a.append(sum(q) / len(q))
                        while len(a) > win:
                            a.popleft()
                        q.clear()
        for i in range(tail, len(ops)):
            o = ops[i]
            a = arm.get((o["plan"], o["op"], o["arm"]))
            want = sum(a) / len(a) if a else 0.0
            got = ret[i][1].get("value")
            check(got is not None and math.isclose(got, want, rel_tol=1e-9, abs_tol=1e-12), "mean",
                  lambda: "arm %s of %s has mean %s, its rewards give %s" % (o["arm"], o["plan"], got, want))

    def fit(self, case, probe, ops, call, ret, tail, logged):
        win = case.get("window", 10 ** 9)
        shift = [{} for _ in range(case["chain"])]
        seen = [{} for _ in range(case["chain"])]
        open_ = {}
        for i, o in enumerate(ops[:tail]):
            if o["k"] != "http":
                continue
            r, b = ret[i][1], o["body"]
            if o["path"] == "/api/request":
                check(r["code"] == 200, "refused-good", r["body"][:300])
                v = b["input"]["map_double_value"]
                outs = []
                for s in shift:
                    v = {a: x + s.get(a, 0.0) for a, x in v.items()}
                    outs.append(v)
                open_[b["request_id"]] = (b["input"]["map_double_value"], outs)
                continue
            check(r["code"] == 200, "refused-good", r["body"][:300])
            if b["request_id"] not in open_:
                continue
            inp, outs = open_.pop(b["request_id"])
            got = logged.get(b["request_id"])
            check(got, "not-joined", b["request_id"])
            probe.hit("learned")
            targets = {a: 0.0 for a in inp} if case["targets"] is None else case["targets"]
            for k in range(case["chain"]):
                mine = got["outputs"]["f%d" % k]["map_double_value"]
                check(set(mine) == set(outs[k]) and all(math.isclose(mine[a], outs[k][a], abs_tol=1e-9) for a in mine), "shifted-wrong",
                      lambda: "operator f%d gave %s, input and shifts give %s" % (k, mine, outs[k]))
                for a, x in mine.items():
                    if a in targets:
                        d = seen[k].setdefault(a, deque())
                        d.append(x)
                        while len(d) > win:
                            d.popleft()
                for a, t in targets.items():
                    d = seen[k].get(a)
                    shift[k].setdefault(a, 0.0)
                    if not d:
                        continue
                    m = sum(d) / len(d)
                    if abs(m - t) < 1e-9 and m != t or (m == t and any(x != d[0] for x in d)):
                        probe.hit("tie")
                        return
                    shift[k][a] += -0.01 if m > t else 0.01
        for i in range(tail, len(ops)):
            o = ops[i]
            k = (i - tail) // len(ARMS)
            want = shift[k].get(o["action"])
            got = ret[i][1].get("value")
            if want is None:
                check(got is None or got == 0.0, "shift", lambda: "shift %s of %s, which had no feedback" % (got, o["action"]))
            else:
                check(got is not None and math.isclose(got, want, abs_tol=1e-9), "shift",
                      lambda: "operator f%d shifts %s by %s, its feedback gives %s" % (k, o["action"], got, want))

    def uniform(self, case, probe, ops, call, ret, tail, logged):
        n, count = 0, {a: 0 for a in case["arms"]}
        for i, o in enumerate(ops[:tail]):
            if o["k"] == "http":
                check(ret[i][1]["code"] == 200, "refused-good", ret[i][1]["body"][:300])
                count[json.loads(ret[i][1]["body"])["actions"][0]["name"]] += 1
                n += 1
        probe.hit("uniform_draws", n)
        q = 1.0 / len(count)
        for a, c in count.items():
            check(n < 150 or abs(c - n * q) <= 7 * math.sqrt(n * q * (1 - q)) + 1, "not-uniform",
                  lambda: "of %d pulls of arms without rewards %s got %s" % (n, a, count))

    # ---- several clients: conservation
    def ucb_conc(self, case, probe, ops, call, ret, tail, logged):
        total = {}
        for i, o in enumerate(ops[:tail]):
            if o["k"] != "http":
                continue
            r = ret[i][1]
            check(r["code"] == 200, "refused-good", r["body"][:300])
            if o["path"] == "/api/request":
                got = json.loads(r["body"])["actions"]
                check(len(got) == 1 and got[0]["name"] in case["arms"], "not-an-arm", str(got))
                p = got[0]["propensity"]
                check(any(math.isclose(p, 1.0 / k) for k in range(1, len(case["arms"]) + 1)), "propensity", str(got))
        for d in logged.values():
            p = d["request"]["plan_name"]
            for k in range(len(case["batch"][p])):
                got = self.pulled(d["request"]["request_id"], d["response"]["actions"], logged, k)
                total.setdefault((p, k, got[0]["name"]), []).append(int(d["feedback"]["reward"]))
            probe.hit("learned")
        for i in range(tail, len(ops)):
            o = ops[i]
            rewards = total.get((o["plan"], o["op"], o["arm"]), [])
            batch = case["batch"][o["plan"]][o["op"]] or 1
            k = len(rewards) // batch
            got = ret[i][1].get("value")
            if k == 0:
                check(got == 0, "mean", lambda: "arm %s has the mean %s without a complete batch" % (o["arm"], got))
                continue
            s = round(got * k * batch)
            union = sum(rewards)
            check(math.isclose(s, got * k * batch, rel_tol=1e-9) and s & ~union == 0 and bin(s).count("1") == k * batch, "not-conserved",
                  lambda: "arm %s of %s has the mean %r, which is not the mean of %d of the joined rewards %s" % (
                      o["arm"], o["plan"], got, k * batch, rewards))
            probe.hit("arms_conserved")

    def fit_conc(self, case, probe, ops, call, ret, tail, logged):
        fb = {}
        for i, o in enumerate(ops[:tail]):
            if o["k"] == "http":
                check(ret[i][1]["code"] == 200, "refused-good", ret[i][1]["body"][:300])
                if o["path"] == "/api/feedback":
                    fb.setdefault(o["body"]["request_id"], []).append(i)
        n = len(logged)
        probe.hit("learned", n)
        check(set(logged) <= set(fb), "invented", "joined without feedback")
        for i in range(tail, len(ops)):
            o = ops[i]
            got = ret[i][1].get("value")
            t = case["targets"].get(o["action"])
            if t is None or n == 0:
                check(got is None or got == 0.0, "shift", lambda: "shift %s of %s" % (got, o["action"]))
                continue
            want = 0.01 * n if t > 0 else -0.01 * n
            check(got is not None and math.isclose(got, want, abs_tol=1e-9), "not-conserved",
                  lambda: "%d feedbacks moved the shift of %s by %s" % (n, o["action"], got))
        at = {o["body"]["request_id"]: i for i, o in enumerate(ops) if o.get("path") == "/api/request"}
        for rid, d in logged.items():
            i = at[rid]
            done = sum(1 for x in fb if x in logged and all(ret[j][0] < call[i] for j in fb[x]))
            begun = sum(1 for x in fb if any(call[j] < ret[i][0] for j in fb[x]))
            inp = d["request"]["input"]["map_double_value"]
            for k in range(case["chain"]):
                out = d["outputs"]["f%d" % k]["map_double_value"]
                for a in out:
                    s = out[a] - inp[a]
                    steps = abs(s) / 0.01
                    check(math.isclose(steps, round(steps), abs_tol=1e-6) and done - 1e-6 <= steps <= begun + 1e-6
                          and (round(steps) == 0 or (s > 0) == (case["targets"][a] > 0)), "shifted-wrong",
                          lambda: "%s was shifted by %s with between %d and %d feedbacks joined" % (a, s, done, begun))
                inp = out


SCENARIO = S04()
