"""S05: the shipped operators compute what they say, and rankings report how probable they were."""
import json
import math

from dst.core import check

from .serving_common import ServingScenario, digest, fold, simulate

ACTS = ("x", "y", "z", "w", "v")
EQ = [("v * 2 + 1", lambda v, u: v * 2 + 1), ("v - u", lambda v, u: v - u), ("v * v / 4", lambda v, u: v * v / 4),
      ("max(v, u)", lambda v, u: max(v, u)), ("-v", lambda v, u: -v)]


def binom_tail(n, k, p):
    """P(X >= k) or P(X <= k), whichever is smaller"""
    def lg(i):
        if p <= 0:
            return 0.0 if i == 0 else -math.inf
        if p >= 1:
            return 0.0 if i == n else -math.inf
        return math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + i * math.log(p) + (n - i) * math.log1p(-p)

    up = sum(math.exp(lg(i)) for i in range(k, n + 1))
    lo = sum(math.exp(lg(i)) for i in range(0, k + 1))
    return min(up, lo)


def softmax(v, t):
    m = max(v.values())
    e = {a: math.exp((x - m) / t) for a, x in v.items()}
    s = sum(e.values())
    return {a: x / s for a, x in e.items()}


class S05(ServingScenario):
    id = "S05"
    title = "Rankings carry the probability with which they were drawn"
    runs = {"quick": 1000, "thorough": 300000}
    rule = "at least one ranking was checked"

    def plan(self, rng, index, tier):
        case = dict(workers=rng.choice((1, 2, 4)), switch=rng.choice((0.05, 0.5, 1.0)), delay={}, throw={}, ops=[], races=rng.random() < 0.3)
        freq = index % 25 == 24
        case["freq"] = freq
        consts, ops = [], []

        def const(v):
            n = "c%d" % len(consts)
            consts.append(dict(name=n, value=v))
            return n

        def op(name, **deps):
            n = "o%d" % len(ops)
            ops.append(dict(name=n, op_name=name, input_dep_map=deps))
            return n

        bad = not freq and rng.random() < 0.1
        src = "input"
        for _ in range(0 if freq else rng.choice((0, 1, 1, 2, 3))):
            k = rng.choice(("expr", "softmax", "score", "request", "frechet"))
            if k == "expr":
                src = op("Expression", equation=const({"string_value": rng.choice(EQ)[0]}), v=src, u=rng.choice((src, "input", "input")))
            elif k == "softmax":
                src = op("Softmax", values=src, temperature=const({"double_value": rng.choice((0.1, 1.0, 10.0))}))
            elif k == "score":
                src = op("ActionValueScoring", model_id=const({"int_value": rng.randrange(5)}), snapshot_id=const({"int_value": rng.randrange(5)}))
            elif k == "request":
                src = op("InputFromRequest")
            else:
                sd = const({"int_value": rng.randrange(2 ** 31)})
                rho, gamma = const({"double_value": rng.choice((0.5, 1.0))}), const({"double_value": rng.choice((1.0, 2.0))})
                a = op("Frechet", values=src, rho=rho, gamma=gamma, seed=sd)
                op("Frechet", values=src, rho=rho, gamma=gamma, seed=sd)
                src = a
        if rng.random() < 0.5:
            case["param"] = rng.choice((0.0, 0.1, 0.5, 1.0))
            op("EpsilonGreedyRanker", values=src, epsilon=const({"double_value": case["param"]}))
        else:
            case["param"] = rng.choice((0.3, 1.0, 5.0))
            if bad:
                case["param"] = rng.choice((0.0, -1.0))
            op("SoftmaxRanker", values=src, temperature=const({"double_value": case["param"]}))
        if freq and rng.random() < 0.4:
            # as many samples of one Frechet distribution as there are actions and seeds
            case["freq"] = freq = False
            case["frechet"] = [rng.choice((0.5, 1.0, 2.0, 4.0)), rng.choice((1.0, 1.5, 2.0, 3.0))]
            rho, gamma = (const({"double_value": x}) for x in case["frechet"])
            tail = ops.pop()
            for _ in range(8):
                op("Frechet", values="input", rho=rho, gamma=gamma, seed=const({"int_value": rng.randrange(1, 2 ** 31 - 1)}))
            ops.append(dict(tail, name="rank"))
        case["config"] = dict(operators=ops, constants=consts, num_actions_to_choose=1, reward_function="", reward_aggregator="sum")
        fixed = {a: rng.randrange(-4, 9) / 4.0 for a in ACTS[: rng.choice((2, 3))]}
        n = 0
        for c in range(rng.choice((1, 2, 3))):
            for _ in range(160 if freq and c == 0 else 80 if freq else rng.choice((1, 3, 6))):
                names = rng.sample(ACTS, rng.randrange(1, 6)) if rng.random() < 0.93 else []
                v = dict(fixed) if freq else {a: rng.choice((0.0, 1.0, rng.randrange(-20, 20) / 4.0, rng.gauss(0, 3), 1e4)) for a in names}
                if "frechet" in case:
                    v = {"a%d" % k: 1.0 for k in range(40)}
                body = dict(plan_name="p", request_id="r%d" % n, actions=dict(names=sorted(v)), input={"map_double_value": v})
                case["ops"].append(dict(c=c, k="http", path="/api/request", uid=n, body=body))
                if not freq:
                    case["ops"].append(dict(c=c, k="http", path="/api/feedback", ref=n,
                                            body=dict(plan_name="p", request_id="r%d" % n, actions=[])))
                n += 1
                if rng.random() < 0.1:
                    case["ops"].append(dict(c=c, k="jump", ms=rng.choice((-86400000, -1, 1000, 3600000))))
                if not freq and rng.random() < 0.2:
                    case["delay"]["r%d/scorer" % (n - 1)] = rng.choice((1, 50, 3000))
        if freq:
            case["races"] = False
            case["switch"] = 0.05
        return case

    def nontrivial(self, case, probe):
        return probe.hits["rankings"] > 0

    def run(self, case, probe):
        clients = sorted({o["c"] for o in case["ops"]})
        ops = [dict(c=0, k="plan", name="p", config=case["config"])] + [dict(c=c, k="sleep", ms=1) for c in clients]
        have = {o["uid"] for o in case["ops"] if "uid" in o}
        ops += [o for o in case["ops"] if o.get("ref", -1) in have or "ref" not in o]
        res = simulate(dict(case, ops=ops))
        fold(res, probe)
        probe.fault("clock_jump", sum(o["k"] == "jump" for o in ops))
        probe.fault("slow_operator", len(case["delay"]))
        ret = {e["i"]: e for e in res["events"] if e["ev"] == "return"}
        logged = {d["request"]["request_id"]: d for d in res["events"][-1]["logged"]}
        last = case["config"]["operators"][-1]
        consts = {c["name"]: list(c["value"].values())[0] for c in case["config"]["constants"]}
        tally, one = {}, None
        self.distribution = {}
        for i, o in enumerate(ops):
            check(i in ret, "no-answer", "operation %d did not end" % i)
            if o.get("path") != "/api/request":
                continue
            r, body = ret[i], o["body"]
            v = body["input"]["map_double_value"]
            if last["op_name"] == "SoftmaxRanker" and case["param"] <= 0:
                check(r["code"] == 400, "accepted-bad", lambda: "temperature %s: %s" % (case["param"], r["body"][:300]))
                continue
            if r["code"] == 400 and not v:
                continue
            check(r["code"] == 200, "refused-good", r["body"][:300])
            got = json.loads(r["body"])["actions"]
            check(sorted(a["name"] for a in got) == sorted(v), "not-a-ranking", lambda: "actions %s are ranked as %s" % (sorted(v), got))
            rid = body["request_id"]
            src = last["input_dep_map"]["values"]
            if not case["freq"]:
                check(rid in logged, "not-joined", rid)
                outs = {k: list(x.values())[0] for k, x in logged[rid]["outputs"].items()}
                self.outputs(case, consts, outs, v, probe)
                vals = v if src == "input" else outs[src]
            else:
                vals = v
                one = v
                key = tuple(a["name"] for a in got)
                tally[key] = tally.get(key, 0) + 1
            p = 1.0
            left = dict(vals)
            for a in got:
                q = self.position(last["op_name"], case["param"], left, a["name"])
                ok = [x for x in q if math.isclose(a["propensity"], p * x, rel_tol=1e-6, abs_tol=1e-12)]
                check(ok, "propensity", lambda: "%s is ranked after %s of %s with propensity %s, its probability is %s" % (
                    a["name"], [b["name"] for b in got[: got.index(a)]], vals, a["propensity"], [p * x for x in q]))
                p *= ok[0]
                del left[a["name"]]
            probe.hit("rankings")
        if self.distribution:
            rho, gamma = case["frechet"]
            xs = sorted(x for s in self.distribution.values() for x in s)
            n = len(xs)
            cdf = [math.exp(-((x / rho) ** -gamma)) for x in xs]
            gap = max(max(abs(c - k / n), abs(c - (k + 1) / n)) for k, c in enumerate(cdf))
            check(n < 300 or gap * math.sqrt(n) < 3.5, "frechet", lambda: "%d samples with scale %s and shape %s are %s away from that distribution, median %s" % (
                n, rho, gamma, gap, xs[n // 2]))
            probe.hit("distributions")
        n = sum(tally.values())
        if case["freq"] and n >= 80:
            for key in self.orders(list(one)):
                left, p = dict(one), 1.0
                lo = hi = 1.0
                for a in key:
                    q = self.position(last["op_name"], case["param"], left, a)
                    lo, hi = lo * min(q), hi * max(q)
                    del left[a]
                if not math.isclose(lo, hi):
                    continue  # equal values: either may count as the greedy one
                k = tally.get(key, 0)
                check(binom_tail(n, k, lo) > 1e-11, "frequency", lambda: "ranking %s of %s was drawn %d times in %d, its probability is %s" % (key, one, k, n, lo))
                probe.hit("frequencies")

    def orders(self, names):
        if not names:
            return [()]
        return [(a,) + r for a in names for r in self.orders([b for b in names if b != a])]

    def position(self, op, param, left, name):
        """possible probabilities that name is taken from left"""
        if op == "SoftmaxRanker":
            return [softmax(left, param)[name]]
        n = len(left)
        m = max(left.values())
        top = [a for a in left if left[a] == m]
        explore = param / n
        if name not in top:
            return [explore]
        return [explore + 1 - param] if len(top) == 1 else [explore + 1 - param, explore]

    def outputs(self, case, consts, outs, inp, probe):
        near = lambda a, b: math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
        seeded = {}
        for o in case["config"]["operators"][:-1]:
            d = o["input_dep_map"]
            get = lambda k: inp if d[k] == "input" else outs.get(d[k], consts.get(d[k]))
            got = outs[o["name"]]
            want = None
            if o["op_name"] == "Expression":
                f = dict(EQ)[get("equation")]
                v, u = get("v"), get("u")
                want = {a: f(v[a], u[a]) for a in v}
            elif o["op_name"] == "Softmax":
                want = softmax(get("values"), get("temperature")) if get("values") else {}
            elif o["op_name"] == "ActionValueScoring":
                want = {a: digest("%s%d.%d" % (a, get("model_id"), get("snapshot_id"))) % 1000 / 100 for a in inp}
            elif o["op_name"] == "InputFromRequest":
                want = inp
            elif o["op_name"] == "Frechet":
                v = get("values")
                check(set(got) == set(v), "operator", "Frechet gave %s for %s" % (got, v))
                for a in v:
                    check(abs(v[a]) < 1e-250 and abs(got[a]) < 1e-200 or (v[a] > 0) == (got[a] > 0), "operator", lambda: "Frechet made %s of %s" % (got[a], v[a]))
                if "frechet" in case:
                    self.distribution.setdefault(o["name"], sorted(got.values()))
                key = (d["seed"], d["values"])
                check(seeded.setdefault(key, got) == got, "operator", lambda: "the same seed gave %s and %s" % (seeded[key], got))
            if want is not None:
                check(set(got) == set(want) and all(near(got[a], want[a]) for a in want), "operator",
                      lambda: "%s gave %s, expected %s" % (o["op_name"], got, want))
            probe.hit("outputs_checked")


SCENARIO = S05()
