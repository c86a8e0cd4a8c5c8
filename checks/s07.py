"""S07: a plan written with the Python configuration library is the plan the service runs."""
import contextlib
import importlib
import io
import json
import math
import os
import sys
import types

from dst.core import SimCrash, check
from dst.simdisk import SimDisk

from .s05 import softmax
from .serving_common import ServingScenario, fold, simulate

CONFIG = "/repo/serving/reagent"
ACTS = ("x", "y", "z", 'a"b', "caf\u00e9", "w w")
REWARDS = {
    "": lambda m, k: 0.0,
    "m": lambda m, k: m,
    "m * 2 + k": lambda m, k: m * 2 + k,
    "m - k": lambda m, k: m - k,
    "max(m, k)": max,
}
PACK = {}


def library():
    """reagent.serving.config, which shares the name of its top package with the training library"""
    if not PACK:
        if "reagent" in sys.modules:
            path = sys.modules["reagent"].__path__
            if CONFIG not in path:
                path.append(CONFIG)
        else:
            top = types.ModuleType("reagent")
            top.__path__ = [CONFIG]
            sys.modules["reagent"] = top
        PACK["error"] = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                for m in ("builder", "main", "config"):
                    PACK[m] = importlib.import_module("reagent.serving.config." + m)
            PACK["shipped"] = {a: dict(c) for a, c in PACK["builder"].DECISION_PLANS.items()}
        except Exception as e:
            PACK["error"] = repr(e)
    return PACK


def number(rng, choices):
    v = rng.choice(choices)
    return int(v) if v == int(v) and rng.random() < 0.5 else v


def values(rng, names=None):
    names = names or rng.sample(ACTS, rng.randrange(1, 5))
    return {a: number(rng, (0.0, 1.0, 2.0, -3.0, 0.5, 2.75, -1.125, 1e4)) for a in names}


def make_spec(rng, others):
    """others: plans of the same author, from which this one may take operators"""
    nodes, made = [], []

    def node(op, **args):
        nodes.append(dict(op=op, args=args))
        return {"ref": len(nodes) - 1}

    agg = rng.choice(("max", "max", "sum", "sum", "default", "invalid"))
    spec = dict(nodes=nodes, reward=rng.choice(sorted(REWARDS)), agg=agg, choose=rng.choice((None, 1, 3)), twice=rng.random() < 0.25)
    if rng.random() < 0.2:
        node("UCB", method="UCB1", **rng.choice(({}, {}, dict(batch_size=1), dict(batch_size=2), dict(batch_size=3))))
        return spec
    if rng.random() < 0.1:
        src = node("Frechet", values={a: rng.choice((0.5, 1.0, 2)) for a in rng.sample(ACTS, 3)}, rho=1, gamma=3.0)
        spec["free"] = True
        node("SoftmaxRanker", temperature=1.0, values=src)
        return spec
    if others and rng.random() < 0.5:
        o = rng.choice(others)
        if not o.get("free") and len(o["nodes"]) > 1:
            nodes += o["nodes"][: rng.randrange(1, len(o["nodes"]))]
            made += [{"ref": i} for i in range(len(nodes))]
    uniform = rng.choice((None, None, "Softmax", "Frechet", "PropensityFit"))
    for _ in range(rng.choice((0, 0, 1, 2, 3, 4))):
        src = rng.choice(made) if made and rng.random() < 0.75 else values(rng)
        k = uniform or rng.choice(("Softmax", "Frechet", "Frechet", "PropensityFit", "InputFromRequest", "ActionValueScoring"))
        if k == "Softmax":
            n = node(k, temperature=number(rng, (0.5, 1.0, 2.0, 7.5)), values=src)
        elif k == "Frechet":
            n = node(k, values=src, rho=number(rng, (0.5, 1.0, 2.0)), gamma=number(rng, (1.0, 1.5, 3.0)), seed=rng.randrange(1, 2 ** 31 - 1))
        elif k == "PropensityFit":
            t = rng.choice(made) if made and rng.random() < 0.3 else values(rng)
            n = node(k, input=src, targets=t)
        elif k == "InputFromRequest":
            n = node(k)
        else:
            n = node(k, model_id=rng.randrange(4), snapshot_id=rng.randrange(4))
        made.append(n)
    src = made[-1] if made else values(rng)
    extra = {} if rng.random() < 0.6 else dict(seed=rng.randrange(9))
    if rng.random() < 0.5:
        node("EpsilonGreedyRanker", epsilon=number(rng, (0.0, 0.1, 0.5, 1.0)), values=src, **extra)
    else:
        node("SoftmaxRanker", temperature=number(rng, (0.5, 1.0, 5.0)), values=src, **extra)
    if agg == "invalid" and any(n["op"] == "PropensityFit" for n in nodes):
        spec["agg"] = "sum"  # what it learns shall not depend on feedback that is refused
    return spec


def reachable(spec):
    out, todo = [], [len(spec["nodes"]) - 1]
    while todo:
        i = todo.pop()
        if i not in out:
            out.append(i)
            todo += [a["ref"] for a in spec["nodes"][i]["args"].values() if isinstance(a, dict) and "ref" in a]
    return sorted(out)


FLOATS = ("values", "temperature", "rho", "gamma", "input", "targets", "epsilon")


def reference(spec):
    """the plan as the service should see it, written by hand"""
    ops, consts = [], []
    for i in reachable(spec):
        n, deps = spec["nodes"][i], {}
        for k, a in n["args"].items():
            if a is None:
                continue
            if isinstance(a, dict) and "ref" in a:
                deps[k] = "n%d" % a["ref"]
                continue
            if isinstance(a, dict):
                v = {"map_double_value": {x: float(y) for x, y in a.items()}}
            elif k in FLOATS:
                v = {"double_value": float(a)}
            else:
                v = {"string_value" if isinstance(a, str) else "int_value": a}
            deps[k] = "k%d" % len(consts)
            consts.append(dict(name=deps[k], value=v))
        ops.append(dict(name="n%d" % i, op_name="Ucb" if n["op"] == "UCB" else n["op"], input_dep_map=deps))
    agg = {"default": "max", "invalid": None}.get(spec["agg"], spec["agg"])
    return dict(operators=ops, constants=consts, num_actions_to_choose=1, reward_function=spec["reward"], reward_aggregator=agg)


class S07(ServingScenario):
    id = "S07"
    title = "A plan written in Python is the plan the service runs"
    runs = {"quick": 1500, "thorough": 200000}
    rule = "at least one exported plan answered a request"
    components = dict(ServingScenario.components, real="reagent.serving.config (builder, operators, serializer, export command) and " + ServingScenario.components["real"],
                      simulated=ServingScenario.components["simulated"] + ", the disk the plans are exported to")

    def setup(self):
        super().setup()
        library()

    def plan(self, rng, index, tier):
        apps = rng.sample(("shop", "team/app", "app 2", "\u00fc"), rng.choice((1, 1, 2, 3)))
        case = dict(workers=rng.choice((1, 2)), switch=rng.choice((0.1, 0.7)), races=rng.random() < 0.1, delay={}, throw={}, plans={}, steps=[],
                    share=rng.random() < 0.4, buf=rng.choice((1, 64, 8192)), short=rng.choice((0, 0, 2)), rounds=rng.choice((1, 2, 4)))
        for a in apps:
            case["plans"][a], specs = {}, []
            for n in rng.sample(("p", "q", "plan r", "s.v2"), rng.choice((1, 2, 3))):
                for _ in range(2):
                    specs.append(make_spec(rng, specs))
                case["plans"][a][n] = specs[-2:]
        for k in range(rng.choice((1, 1, 2, 3))):
            what = {a: sorted(n for n in case["plans"][a] if rng.random() < 0.8) for a in apps if rng.random() < 0.85}
            fault = None
            if rng.random() < 0.4:
                fault = [rng.choice(("crash", "crash", "enospc", "eio")), rng.choice((0, 1, 2, 3, 5, 8, 20, 100)), rng.random()]
            case["steps"].append(dict(what=what, version=rng.randrange(2), app=rng.choice([None] + sorted(what)), fault=fault))
        case["bad"] = rng.choice((None, None, None, "no-root", "root", "empty", "mixed", "keys"))
        case["inputs"] = [values(rng) for _ in range(3)]
        case["metrics"] = [[[rng.choice(ACTS), rng.choice((-2.0, -0.5, 0.0, 1.0, 2.5)), rng.choice((-1.0, 0.0, 0.25, 4.0))]
                            for _ in range(rng.choice((0, 1, 1, 2, 3)))] for _ in range(4)]
        return case

    def nontrivial(self, case, probe):
        return probe.hits["answers"] > 0

    def shrink(self, case):
        for i in range(len(case["steps"])):
            yield dict(case, steps=case["steps"][:i] + case["steps"][i + 1:])
            if case["steps"][i]["fault"]:
                yield dict(case, steps=[dict(s, fault=None) if j == i else s for j, s in enumerate(case["steps"])])
        for a in case["plans"]:
            for n in case["plans"][a]:
                plans = {b: {m: v for m, v in c.items() if (b, m) != (a, n)} for b, c in case["plans"].items()}
                steps = [dict(s, what={b: [m for m in ms if (b, m) != (a, n)] for b, ms in s["what"].items()}) for s in case["steps"]]
                yield dict(case, plans=plans, steps=steps)

    # ------------------------------------------------------------- the library
    def author(self, spec, pool):
        B = library()["builder"]
        done = {}

        def build(i):
            if i not in done:
                n = spec["nodes"][i]
                args = {k: build(a["ref"]) if isinstance(a, dict) and "ref" in a else a for k, a in n["args"].items()}
                key = json.dumps([n["op"], {k: id(a) if isinstance(n["args"][k], dict) and "ref" in n["args"][k] else a for k, a in args.items()}], sort_keys=True)
                if pool is None or key not in pool:
                    op = getattr(B, n["op"])(**args)
                    if pool is None:
                        done[i] = op
                        return op
                    pool[key] = op
                done[i] = pool[key]
            return done[i]

        b = B.DecisionPlanBuilder()
        if spec["twice"]:
            # a builder that was used for a part of the plan first
            b.set_root(build(0)).set_reward_function("m * 3").build()
        b.set_root(build(len(spec["nodes"]) - 1)).set_reward_function(spec["reward"])
        A = library()["config"].DecisionRewardAggreation
        if spec["agg"] != "default":
            b.set_reward_aggregator({"max": A.DRA_MAX, "sum": A.DRA_SUM, "invalid": A.DRA_INVALID}[spec["agg"]])
        if spec["choose"]:
            b.set_num_actions_to_choose(spec["choose"])
        return b.build()

    def refuse(self, kind):
        B = library()["builder"]
        try:
            if kind == "no-root":
                B.DecisionPlanBuilder().build()
            elif kind == "root":
                B.DecisionPlanBuilder().set_root({"a": 1.0}).build()
            else:
                v = {"empty": {}, "mixed": {"a": 1.0, "b": "c"}, "keys": {"a": 1.0, 2: 1.0}}[kind]
                B.DecisionPlanBuilder().set_root(B.SoftmaxRanker(temperature=1.0, values=v)).build()
        except (ValueError, TypeError):
            return
        check(False, "accepted-bad", "a plan with %s was built" % kind)

    # ------------------------------------------------------------- one run
    def run(self, case, probe):
        check(library()["error"] is None, "not-importable", lambda: "the export command cannot be used: %s" % PACK["error"])
        check("softmaxranker" in PACK["shipped"].get("example", {}), "not-importable", lambda: "the example application is missing: %s" % sorted(PACK["shipped"]))
        if case["bad"]:
            self.refuse(case["bad"])
        disk = SimDisk(probe, "s07")
        try:
            self.run_on(disk, case, probe)
        finally:
            library()["builder"].DECISION_PLANS.clear()
            disk.close()

    def run_on(self, disk, case, probe):
        lib, root = library(), os.path.join(disk.root, "plans")
        os.makedirs(root)
        disk.bufsize, disk.short_every = case["buf"], case["short"]
        may = {}  # what a file may hold: versions, or None for nothing that can be served
        for step in case["steps"]:
            # the author's process
            lib["builder"].DECISION_PLANS.clear()
            pool = {} if case["share"] else None
            for a, names in step["what"].items():
                lib["builder"].export(app_id=a, configs={n: self.author(case["plans"][a][n][step["version"]], pool) for n in names})
            if step["fault"]:
                disk.arm(*step["fault"])
            argv = ["--config-dir", root] + (["--app-id", step["app"]] if step["app"] is not None else [])
            done = False
            try:
                with disk, contextlib.redirect_stdout(io.StringIO()):
                    lib["main"].export.main(args=argv, standalone_mode=False)
                done = True
            except SimCrash:
                pass
            except OSError as e:
                check(disk.fired, "not-exported", lambda: "the export raised %r" % e)
            except Exception as e:
                check(False, "not-exported", "the export raised %r" % e)
            disk.restart()
            probe.hit("exports" if done else "interrupted_exports")
            for a, names in step["what"].items():
                if step["app"] not in (None, a):
                    continue
                for n in names:
                    old = may.get((a, n), [None])
                    may[a, n] = [step["version"]] if done else sorted(set(old) | {step["version"], None}, key=str)
        left = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)
        names = {"%s/%s.json" % k: k for k in may}
        check(set(left) <= set(names), "strange-file", lambda: "the directory holds %s" % left)
        self.serve(root, names, may, case, probe)

    def serve(self, root, names, may, case, probe):
        ops, exch = [dict(c=0, k="sleep", ms=1)], []
        refs = []
        for p, key in sorted(names.items()):
            for v in may[key]:
                if v is not None:
                    refs.append(("%d:%s" % (v, p), reference(case["plans"][key[0]][key[1]][v])))
        for r in range(case["rounds"]):
            for p in sorted(names):
                exch.append((p, "%s#%d" % (p, r), case["inputs"][r % 3], case["metrics"][r % 4]))

        def conversation(name, rid, inp, metrics):
            return [dict(c=0, k="http", path="/api/request", body=dict(plan_name=name, request_id=rid, actions=dict(names=sorted(inp)),
                                                                      input={"map_double_value": {a: float(x) for a, x in inp.items()}})),
                    dict(c=0, k="http", path="/api/feedback", body=dict(plan_name=name, request_id=rid, actions=[
                        dict(name=a, metrics=dict(m=m, k=k)) for a, m, k in metrics])),
                    dict(c=0, k="sleep", ms=200)]

        for p, rid, inp, metrics in exch:
            ops += conversation(p, rid, inp, metrics)
        real = simulate(dict(case, ops=ops, config_dir=root))
        fold(real, probe)
        svc = [e for e in real["events"] if e["ev"] == "service"]
        check(svc and svc[0]["ok"], "not-started", lambda: "the service did not start: %s" % svc)
        ret = {e["i"]: e for e in real["events"] if e["ev"] == "return"}
        logged = {d["request"]["request_id"]: d for d in real["events"][-1]["logged"]}
        # the same conversations with the plans written by hand, every operator's value on record
        rops = [dict(c=0, k="plan", name=n, config=dict(c, reward_aggregator=c["reward_aggregator"] or "max")) for n, c in refs]
        for n, _ in refs:
            for p, rid, inp, metrics in exch:
                if n.split(":", 1)[1] == p:
                    rops += conversation(n, n[0] + rid, inp, metrics)
        hand = simulate(dict(case, ops=rops))
        fold(hand, probe)
        values_of = {d["request"]["request_id"]: d["outputs"] for d in hand["events"][-1]["logged"]}
        for p, key in sorted(names.items()):
            talk = []
            for j, (q, rid, inp, metrics) in enumerate(exch):
                if q == p:
                    i = 1 + 3 * j
                    check(i in ret and i + 1 in ret, "no-answer", "operation %d did not end" % i)
                    talk.append((rid, inp, metrics, ret[i], ret[i + 1], logged.get(rid)))
            served = talk and talk[0][3]["code"] == 200
            if not served and None in may[key]:
                check(all(t[3]["code"] == 400 and t[4]["code"] == 400 for t in talk), "half-served", lambda: "plan %s: %s" % (p, talk))
                probe.hit("refused_after_interruption")
                continue
            why = []
            for v in may[key]:
                if v is None:
                    continue
                w = self.explains(case["plans"][key[0]][key[1]][v], v, talk, values_of, probe)
                if w is None:
                    probe.hit("answers", len(talk))
                    break
                why.append(w)
            else:
                check(False, why[0][0], "%s, plan %s" % ("; ".join(w[1] for w in why), p))

    # ------------------------------------------------------------- oracle
    def explains(self, spec, v, talk, values_of, probe):
        """None if the plan gives these answers, else what it does not"""
        near = lambda a, b: math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
        root = spec["nodes"][-1]
        arm, bat, first = {}, {}, {}
        for rid, inp, metrics, ans, fb, rec in talk:
            if ans["code"] != 200:
                return "refused-good", "the plan is refused: %s" % ans["body"][:300]
            got = json.loads(ans["body"])["actions"]
            if root["op"] == "UCB":
                name = got[0]["name"]
                fresh = [a for a in sorted(inp) if not arm.get(a)]
                if len(got) != 1 or name not in inp:
                    return "wrong-answer", "UCB of %s answers %s" % (sorted(inp), got)
                if fresh:
                    if name not in fresh or not near(got[0]["propensity"], 1 / len(fresh)):
                        return "wrong-answer", "UCB chose %s, %s have no rewards yet" % (got, fresh)
                else:
                    n = sum(len(arm[a]) for a in inp)
                    score = {a: sum(arm[a]) / len(arm[a]) + math.sqrt(2 * math.log(n) / len(arm[a])) for a in inp}
                    if score[name] < max(score.values()) - 1e-9:
                        return "wrong-answer", "UCB chose %s with scores %s" % (name, score)
            else:
                src = root["args"]["values"]
                if "ref" in src:
                    vals = values_of["%d%s" % (v, rid)]["n%d" % src["ref"]]["map_double_value"]
                else:
                    vals = {a: float(x) for a, x in src.items()}
                if sorted(a["name"] for a in got) != sorted(vals):
                    return "wrong-answer", "%s are ranked as %s" % (sorted(vals), got)
                left, p = dict(vals), 1.0
                first.setdefault(got[0]["name"], []).append(got[0]["propensity"])
                for a in got if not spec.get("free") else ():
                    if root["op"] == "SoftmaxRanker":
                        q = [softmax(left, root["args"]["temperature"])[a["name"]]]
                    else:
                        e, top = root["args"]["epsilon"], [b for b in left if left[b] == max(left.values())]
                        q = [e / len(left)] if a["name"] not in top else [e / len(left) + 1 - e] + [e / len(left)] * (len(top) > 1)
                    ok = [x for x in q if math.isclose(a["propensity"], p * x, rel_tol=1e-6, abs_tol=1e-12)]
                    if not ok:
                        return "wrong-answer", "values %s, ranked %s: %s has propensity %s, not %s" % (vals, got, a["name"], a["propensity"], [p * x for x in q])
                    p *= ok[0]
                    del left[a["name"]]
            f = REWARDS[spec["reward"]]
            each = [f(m, k) for _, m, k in metrics]
            if spec["agg"] == "invalid" and each:
                if fb["code"] != 400 or rec is not None:
                    return "wrong-reward", "feedback is taken although the plan has no way to aggregate rewards"
                continue
            if fb["code"] != 200 or rec is None:
                return "wrong-reward", "feedback is refused: %s" % fb["body"][:300]
            total = (sum(each) if spec["agg"] == "sum" else max(each)) if each else 0.0
            seen = rec["feedback"]
            if len(seen["actions"]) != len(each) or not all(near(x["reward"], y) for x, y in zip(seen["actions"], each)) or not near(seen["reward"], total):
                return "wrong-reward", "rewards %s of metrics %s, the plan says %s and %s" % (seen, metrics, each, total)
            probe.hit("rewards")
            if root["op"] == "UCB":
                bat.setdefault(name, []).append(total)
                if len(bat[name]) == root["args"].get("batch_size", 1):
                    arm.setdefault(name, []).append(sum(bat[name]) / len(bat[name]))
                    bat[name] = []
        if spec.get("free") and any(len(x) > 1 for x in first.values()) and all(len(set(x)) == 1 for x in first.values()):
            return "wrong-answer", "Frechet without a seed draws the same every time: %s" % first
        probe.state(root["op"], len(spec["nodes"]), spec["agg"], spec["reward"], len(talk))
        return None


SCENARIO = S07()
