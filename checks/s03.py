"""S03: every answered decision is joined with its feedback exactly once, unchanged."""
import json
import math
import os
import shutil
import tempfile

from dst.core import check

from .serving_common import ServingScenario, evaluate, fold, simrank, simulate
from .s01 import make_plan

NAMES = ["x", "y", "caf\u00e9", 'q"uote', "new\nline", "\u4e2d", "a b", ""]
REWARDS = [("", lambda m: 0.0), ("r", lambda m: m["r"]), ("r + 2 * s", lambda m: m["r"] + 2 * m["s"]),
           ("r * s - 1", lambda m: m["r"] * m["s"] - 1), ("max(r, s)", lambda m: max(m["r"], m["s"])),
           ("(r - s) / 4", lambda m: (m["r"] - m["s"]) / 4)]


def value(rng):
    s = lambda: rng.choice(NAMES)
    d = lambda: rng.choice((0.0, -1.5, 0.1, 1e300, 5e-324, 1 / 3, 2.0, 123456789.125))
    n = lambda: rng.choice((0, -1, 7, 2 ** 53 + 1, -(2 ** 63), 2 ** 63 - 1))
    k = rng.randrange(11)
    keys = rng.sample(NAMES, rng.randrange(0, 4))
    return [
        lambda: {"string_value": s()}, lambda: {"int_value": n()}, lambda: {"double_value": d()},
        lambda: {"list_string_value": [s() for _ in keys]}, lambda: {"list_int_value": [n() for _ in keys]},
        lambda: {"list_double_value": [d() for _ in keys]}, lambda: {"map_string_value": {a: s() for a in keys}},
        lambda: {"map_int_value": {a: n() for a in keys}}, lambda: {"map_double_value": {a: d() for a in keys}},
        lambda: {"ranked_action_list": [dict(name=s(), propensity=d()) for _ in keys]},
        lambda: {"map_map_double_value": {a: {b: d() for b in keys[:2]} for a in keys}},
    ][k]()


class S03(ServingScenario):
    id = "S03"
    title = "Decisions and feedback are joined exactly once"
    runs = {"quick": 1800, "thorough": 300000}
    rule = "at least one decision and its feedback were joined"

    def plan(self, rng, index, tier):
        nclients = rng.choice((1, 1, 2, 3))
        case = dict(workers=rng.choice((1, 2, 4)), switch=rng.choice((0.05, 0.3, 0.7, 1.0)), delay={}, throw={}, ops=[], plans={}, logged_to_disk=rng.random() < 0.5)
        for p in ("p0", "p1")[: rng.choice((1, 2))]:
            cfg = make_plan(rng, rng.choice((1, 2, 3)), False)
            for o in cfg["operators"]:
                o["input_dep_map"] = {a: b for a, b in o["input_dep_map"].items() if b != "input"}
            cfg["constants"].append(dict(name="extra", value=value(rng)))
            cfg["rf"] = rng.randrange(len(REWARDS))
            cfg["reward_function"] = REWARDS[cfg["rf"]][0]
            case["plans"][p] = cfg
        plans = sorted(case["plans"])
        made = []
        nid = 0
        prefix = rng.choice(("r", "r", "session/0123456789/0123456789/0123456789/0123456789/", "caf\u00e9 \u4e2d ", "r 'a' \"b\" "))
        for c in range(nclients):
            for _ in range(rng.choice((2, 4, 6, 8))):
                i = len(case["ops"])
                r = rng.random()
                if r < 0.45 or not made:
                    p = rng.choice(plans)
                    rid = "%s%d" % (prefix, nid)
                    nid += 1
                    body = dict(plan_name=p, request_id=rid, actions=dict(names=[rng.choice(NAMES) for _ in range(rng.randrange(4))]),
                                input=value(rng))
                    if rng.random() < 0.5:
                        body["actions"]["features"] = {rng.choice(NAMES): {"1": 0.5, "f": rng.random()}}
                    if rng.random() < 0.5:
                        body["context_features"] = {rng.choice(NAMES): rng.random() * 1e3}
                    if rng.random() < 0.1:
                        case["throw"]["%s/op0" % rid] = 1
                    if rng.random() < 0.2:
                        case["delay"]["%s/op0" % rid] = rng.choice((1, 50, 40000))
                    case["ops"].append(dict(c=c, k="http", path="/api/request", body=body))
                    made.append((rid, p, c))
                elif r < 0.5:
                    case["ops"].append(dict(c=c, k="sleep", ms=rng.choice((1, 30, 100))))
                else:
                    same = [m for m in made if m[2] == c] if rng.random() < 0.7 else made
                    rid, p, _ = rng.choice(same or made)
                    kind = rng.random()
                    body = dict(plan_name=p, request_id=rid, actions=[])
                    for _ in range(rng.choice((0, 1, 1, 2, 3))):
                        body["actions"].append(dict(name=rng.choice(NAMES), metrics=dict(
                            r=rng.choice((-4.0, -0.5, 0.0, 0.25, 3.0)), s=rng.choice((-2.0, 0.0, 1.5)))))
                    if kind < 0.08:
                        body["request_id"] = "nobody"
                    elif kind < 0.16:
                        body["plan_name"] = "other"
                    elif kind < 0.24 and body["actions"]:
                        body["actions"][0]["metrics"].pop("r")
                        case["ops"].append(dict(c=c, k="http", path="/api/feedback", body=body))
                        continue
                    elif kind < 0.28:
                        body = json.dumps(body)[: -rng.randrange(1, 30)]
                    elif kind < 0.36:
                        # the client sends its feedback again
                        case["ops"].append(dict(c=c, k="http", path="/api/feedback", body=body))
                    case["ops"].append(dict(c=c, k="http", path="/api/feedback", body=body))
        if rng.random() < 0.3:
            case["ops"].append(dict(c=0, k="roundtrip", value=value(rng)))
        return case

    def nontrivial(self, case, probe):
        return probe.hits["joined"] > 0

    def shrink(self, case):
        for k in ("delay", "throw"):
            for x in list(case[k]):
                yield dict(case, **{k: {a: b for a, b in case[k].items() if a != x}})

    def run(self, case, probe):
        tmp = tempfile.mkdtemp(prefix="s03-")
        try:
            self.run_in(tmp, case, probe)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def run_in(self, tmp, case, probe):
        ops = []
        for p, cfg in sorted(case["plans"].items()):
            ops.append(dict(c=0, k="plan", name=p, config={a: b for a, b in cfg.items() if a != "rf"}))
        for c in sorted({o["c"] for o in case["ops"]}):
            ops.append(dict(c=c, k="sleep", ms=1))
        ops += case["ops"]
        sim = dict(case, ops=ops)
        logfile = os.path.join(tmp, "logs", "log.txt")
        if case["logged_to_disk"]:
            sim["log"] = logfile
        res = simulate(sim)
        fold(res, probe)
        for v in case["delay"].values():
            probe.fault("slow_operator" if v < 20000 else "stalled_operator")
        probe.fault("operator_failed", len(case["throw"]))
        ev = res["events"]
        call, ret = {}, {}
        given = {}
        for k, e in enumerate(ev):
            if e["ev"] == "call":
                call[e["i"]] = k
            elif e["ev"] == "return":
                ret[e["i"]] = (k, e)
            elif e["ev"] == "feedback":
                given.setdefault(e["rid"], []).append(e)
        final = [e for e in ev if e["ev"] == "final"][0]
        logged = final["logged"]

        decisions, feedbacks = {}, {}
        for i, o in enumerate(ops):
            check(i in ret, "no-answer", "operation %d did not end" % i)
            k, r = ret[i]
            if o["k"] == "roundtrip":
                check(r.get("json") == o["value"], "roundtrip", lambda: "the value %s is written as %s" % (o["value"], r))
                continue
            if o["k"] != "http":
                check("err" not in r, "refused", r.get("err", ""))
                continue
            check(r["writes"] == 1, "answers", "%s answers" % r["writes"])
            if o["path"] == "/api/request":
                if r["code"] == 200:
                    decisions[o["body"]["request_id"]] = (i, o["body"], json.loads(r["body"]))
                else:
                    check(self.may_fail(case, o["body"]), "refused-good", r["body"][:300])
                continue
            # feedback
            b = o["body"]
            good = isinstance(b, dict) and b["plan_name"] in case["plans"] and self.rewards(case, b) is not None
            if not good:
                check(r["code"] == 400, "accepted-bad", lambda: "feedback %s is accepted: %s" % (str(b)[:300], r["body"][:100]))
                probe.hit("feedback_refused")
                continue
            check(r["code"] == 200, "refused-good", lambda: "feedback %s is refused: %s" % (str(b)[:300], r["body"][:300]))
            feedbacks.setdefault(b["request_id"], []).append((i, b))

        byid = {}
        for n, d in enumerate(logged):
            rid = d.get("request", {}).get("request_id")
            check("request" in d and "response" in d and "feedback" in d and "outputs" in d, "incomplete",
                  lambda: "a record without all of its parts: %s" % str(d)[:300])
            check(rid not in byid, "joined-twice", "decision %s is joined more than once" % rid)
            byid[rid] = d
        for rid, d in byid.items():
            check(rid in decisions, "invented", "a record of %s, which was never answered" % rid)
            check(feedbacks.get(rid), "invented", "a record of %s without feedback" % rid)
        for rid, (i, body, answer) in decisions.items():
            fb = feedbacks.get(rid, [])
            later = [x for x in fb if call[x[0]] > ret[i][0]]
            if later:
                check(rid in byid, "lost", "decision %s was answered and had accepted feedback afterwards, but was not joined" % rid)
            if rid not in byid:
                check(rid not in given, "feedback-without-join", "operators were given feedback for %s" % rid)
                continue
            probe.hit("joined")
            d = byid[rid]
            plan = case["plans"][body["plan_name"]]
            # a feedback can only be the joined one if no other one was over before it
            early = [x for x in fb if ret[x[0]][0] < ret[i][0] and call[x[0]] < ret[i][0]]
            cands = [x for x in fb if not any(call[y[0]] > ret[i][0] and ret[y[0]][0] < call[x[0]] for y in fb)]
            del early
            got = d["feedback"]
            match = [x for x in cands if self.same_feedback(case, got, x[1])]
            check(match, "wrong-feedback", lambda: "%s is joined with %s, accepted were %s" % (rid, got, [x[1] for x in cands]))
            want = dict(request_id=rid, plan_name=body["plan_name"], names=body["actions"]["names"],
                        features=body["actions"].get("features", {}), context_features=body.get("context_features", {}),
                        input=body["input"])
            check(d["request"] == want, "request-changed", lambda: "joined request %s, sent was %s" % (d["request"], want))
            check(d["response"] == answer, "response-changed", lambda: "joined response %s, answered was %s" % (d["response"], answer))
            vals = evaluate(plan, body, rid)
            outs = {c["name"]: c["value"] for c in plan["constants"]}
            outs["input"] = body["input"]
            for n in plan["operators"]:
                v = vals[n["name"]]
                outs[n["name"]] = {"ranked_action_list": simrank(v)} if n["op_name"] == "SimRank" else {"map_double_value": {"v": float(v)}}
            check(d["outputs"] == outs, "outputs-changed", lambda: "joined outputs %s, computed were %s" % (d["outputs"], outs))
            # operators
            g = given.get(rid, [])
            fplan = case["plans"][got["plan_name"]]
            check(sorted(e["op"] for e in g) == sorted(n["name"] for n in plan["operators"]), "operators-not-once",
                  lambda: "feedback of %s was given to %s" % (rid, [e["op"] for e in g]))
            del fplan
            for e in g:
                o = [n for n in plan["operators"] if n["name"] == e["op"]][0]
                check(e["in"] == {a: outs[b] for a, b in o["input_dep_map"].items()}, "operator-inputs",
                      lambda: "operator %s was given the past inputs %s" % (e["op"], e["in"]))
                check(e["out"] == outs[e["op"]], "operator-inputs", lambda: "operator %s was given the past output %s" % (e["op"], e["out"]))
                check(self.same_feedback(case, dict(plan_name=got["plan_name"], request_id=rid, actions=e["actions"], reward=e["reward"]), match[0][1])
                      or any(self.same_feedback(case, dict(plan_name=got["plan_name"], request_id=rid, actions=e["actions"], reward=e["reward"]), m[1]) for m in match),
                      "operator-feedback", lambda: "operator %s was given %s" % (e["op"], e))
        if case["logged_to_disk"]:
            with open(logfile, encoding="utf-8") as f:
                lines = f.read().split("\n")
            check(lines[-1] == "" and len(lines) - 1 == len(logged), "log-file", "%d lines for %d records" % (len(lines) - 1, len(logged)))
            for ln, d in zip(lines, logged):
                j = json.loads(ln)
                check(j["decision_request"]["request_id"] == d["request"]["request_id"] and j["decision_request"]["input"] == d["request"]["input"]
                      and j["decision_response"] == d["response"] and j["operator_outputs"] == d["outputs"]
                      and j["feedback"]["request_id"] == d["feedback"]["request_id"]
                      and self.near(j["feedback"].get("computed_reward"), d["feedback"]["reward"]), "log-file",
                      lambda: "the line %s is not the record %s" % (ln[:500], str(d)[:500]))
                probe.hit("log_lines")

    @staticmethod
    def near(a, b):
        if a is None or b is None:
            return a is b
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)

    def may_fail(self, case, body):
        rid = body["request_id"]
        return any(k.startswith(rid + "/") for k in case["throw"]) or sum(case["delay"].values()) >= 30000

    def rewards(self, case, b):
        f = REWARDS[case["plans"][b["plan_name"]]["rf"]][1]
        try:
            return [f(a["metrics"]) for a in b["actions"]]
        except KeyError:
            return None

    def same_feedback(self, case, got, b):
        if got["plan_name"] != b["plan_name"] or got["request_id"] != b["request_id"] or len(got["actions"]) != len(b["actions"]):
            return False
        rs = self.rewards(case, b)
        for g, a, r in zip(got["actions"], b["actions"], rs):
            if g["name"] != a["name"] or g["metrics"] != a["metrics"] or not self.near(g["reward"], r):
                return False
        agg = case["plans"][b["plan_name"]]["reward_aggregator"]
        total = (sum(rs) if agg == "sum" else max(rs)) if rs else 0.0
        return self.near(got["reward"], total)


SCENARIO = S03()
