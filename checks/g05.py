"""G05: a planned action follows from the imagined trajectories, which follow the world models."""
import math
import random
import warnings

from dst.core import Scenario, Violation, check, sut
from checks.g03 import L, freq_ok

START = 500.0  # the first coordinate of every real state; no world model predicts anything like it


class NetFault(RuntimeError):
    """the simulated world model failed"""


class World:
    pass


def near(a, b, tol=1e-4):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


class G05(Scenario):
    id = "G05"
    runs = {"quick": 700, "thorough": 60000}
    rule = ("a case is a planner configuration, its world models and a history of plans, model updates and model failures; "
            "non-trivial when at least one plan was recomputed from the imagined trajectories")
    components = {"real": ["reagent.models.cem_planner", "CEMPolicy", "MemoryNetwork/MDNRNN (in part of the cases)",
                           "CrossEntropyMethod model manager and CEMTrainer (in part of the cases)"],
                  "stub": ["world models with drawn rewards, mixtures and terminations (in the other cases)"]}
    assumptions = ["plans decided by a difference below float32 accuracy are not judged",
                   "frequency bounds fail on a correct tree with probability below 1e-13 each"]

    def setup(self):
        warnings.simplefilter("ignore")
        import logging
        logging.disable(logging.CRITICAL)
        import reagent_compat  # noqa
        from checks import train_common
        train_common.stub_missing()
        import torch
        torch.set_num_threads(1)
        import reagent.training  # noqa
        import reagent.workflow.model_managers.model_based.cross_entropy_method  # noqa

    def plan(self, rng, index, tier):
        c = {"disc": rng.random() < 0.5, "A": rng.choice([1, 2, 2, 3]), "H": rng.choice([1, 2, 3, 4]),
             "pop": rng.choice([1, 2, 3, 7, 9, 10, 11, 20, 35]), "ens": rng.choice([1, 1, 2, 3]), "models": rng.choice([1, 2, 3]),
             "iters": rng.choice([1, 2, 3, 5]), "term": rng.random() < 0.5, "D": rng.choice([1, 2, 3]), "G": rng.choice([1, 2, 3]),
             "gamma": rng.choice([0.0, 0.5, 0.9, 1.0]), "alpha": rng.choice([0.0, 0.25, 0.9, 1.0]),
             "epsilon": rng.choice([0.0, 0.001, 0.05, 1.0]), "real": rng.random() < 0.3, "sigma": rng.choice([1e-5, 0.3]),
             "tlogit": rng.choice(["sure", "coin", "mixed"])}
        c["peak"] = rng.choice([0.5, 2.0, 8.0])
        if rng.random() < 0.06:
            c.update(pop=80, ens=3, H=4, iters=3, real=False)
        c["elites"] = rng.randint(1, max(1, min(c["pop"], 6)))
        lo = [rng.choice([-1.0, -3.0, 0.0, 2.5]) for _ in range(c["A"])]
        c["lo"], c["hi"] = lo, [x + rng.choice([0.5, 1.0, 2.0, 7.0]) for x in lo]
        faulty = rng.random() < 0.4
        ops = []
        for _ in range(rng.choice([1, 2, 4] if tier == "quick" else [2, 5, 10])):
            x = rng.random()
            if x < 0.3:
                ops.append(["learn"])
            elif x < 0.5 and faulty:
                ops.append(["fail", rng.choice([0, 1, 2, 5, 17])])
            ops.append(["plan"])
        c["ops"] = ops
        return c

    def shrink(self, case):
        for k, v in (("models", 1), ("ens", 1), ("H", 1), ("D", 1), ("G", 1), ("iters", 1), ("real", False), ("term", False),
                     ("sigma", 1e-5), ("tlogit", "sure"), ("peak", 2.0), ("pop", 3), ("pop", 10)):
            if case[k] != v and not (k == "pop" and case["elites"] > v):
                yield dict(case, **{k: v})
        if case["elites"] > 1:
            yield dict(case, elites=1)
        if case["A"] > 1:
            yield dict(case, A=case["A"] - 1, lo=case["lo"][:-1], hi=case["hi"][:-1])

    def nontrivial(self, case, probe):
        return probe.hits["plans_recomputed"] > 0

    # ------------------------------------------------------------------ models
    def build(self, w):
        import numpy as np
        import torch
        import reagent.types as rlt
        from reagent.models.cem_planner import CEMPlannerNetwork
        from reagent.models.world_model import MemoryNetwork
        from reagent.workflow.model_managers.model_based.cross_entropy_method import CEMPolicy

        c = w.case
        A, D, G = c["A"], c["D"], c["G"]

        class Stub(torch.nn.Module):
            def __init__(self, i):
                super().__init__()
                g = torch.Generator().manual_seed(c["seed"] % 10 ** 6 * 10 + i)
                self.p = torch.nn.Parameter(torch.randn(3 + G * (D + 1), D + A, generator=g))

            def forward(self, state, action):
                s, a = state.float_features, action.float_features
                x = torch.cat([torch.remainder(s, 7.0), a], -1)
                y = torch.sin(x @ self.p.t() * 1.7)
                mus = y[..., 3:3 + G * D].reshape(*y.shape[:2], G, D) + 10.0 * torch.arange(G).reshape(1, 1, G, 1)
                t = y[..., 1]
                if c["tlogit"] == "coin":
                    t = t * 0.0 + 0.5
                elif c["tlogit"] == "sure":
                    t = torch.where(t > -0.5, t * 0 + 60.0, t * 0 - 60.0)
                else:
                    t = t * 4 + 2
                return rlt.MemoryNetworkOutput(
                    mus=mus, sigmas=torch.full_like(mus, c["sigma"]), logpi=torch.log_softmax(c["peak"] * y[..., 3 + G * D:], -1),
                    reward=y[..., 0] * 3 + y[..., 2], not_terminal=t, last_step_lstm_hidden=None, last_step_lstm_cell=None,
                    all_steps_lstm_hidden=None)

        kw = dict(cem_num_iterations=c["iters"], cem_population_size=c["pop"], ensemble_population_size=c["ens"],
                  num_elites=c["elites"], plan_horizon_length=c["H"], gamma=c["gamma"], alpha=c["alpha"], epsilon=c["epsilon"])
        if c["real"]:
            planner, policy = self.managed(w, kw)
        else:
            b = {} if c["disc"] else dict(action_upper_bounds=np.array(c["hi"]), action_lower_bounds=np.array(c["lo"]))
            planner = CEMPlannerNetwork(mem_net_list=[Stub(i) for i in range(c["models"])], state_dim=D, action_dim=A,
                                        discrete_action=c["disc"], terminal_effective=c["term"], **b, **kw)
            policy = CEMPolicy(planner, c["disc"])
        w.nets = list(planner.mem_net_list)
        w.planner, w.policy = planner, policy
        w.calls, w.fail, w.planning = [], None, False

        def hook(i):
            def before(mod, args):
                if w.planning and w.fail is not None and len(w.calls) == w.fail:
                    w.fail = None
                    w.probe.fault("model_failure")
                    raise NetFault("simulated")

            def after(mod, args, out):
                if not w.planning:
                    return
                s, a = [x.float_features.detach().clone() for x in args]
                check(tuple(s.shape) == (1, 1, D) and tuple(a.shape) == (1, 1, A), "shape-given-to-model",
                      lambda: "%s %s" % (tuple(s.shape), tuple(a.shape)))
                w.calls.append((i, s.reshape(-1).tolist(), a.reshape(-1).tolist(), float(out.reward[0, 0]),
                                out.mus[0, 0].detach().tolist(), out.sigmas[0, 0].detach().tolist(),
                                out.logpi[0, 0].detach().exp().tolist(), float(torch.sigmoid(out.not_terminal[0, 0]))))
            return before, after

        for i, n in enumerate(w.nets):
            b, a = hook(i)
            n.register_forward_pre_hook(b)
            n.register_forward_hook(a)

    def managed(self, w, kw):
        """the planner as the model manager builds it, with the networks its trainer trains"""
        from reagent.parameters import CEMTrainerParameters, MDNRNNTrainerParameters, NormalizationData, NormalizationParameters, RLParameters
        from reagent.workflow.model_managers.model_based.cross_entropy_method import CrossEntropyMethod
        from reagent.workflow.types import RewardOptions

        c = w.case
        kw = dict(kw)
        gamma = kw.pop("gamma")
        man = CrossEntropyMethod(trainer_param=CEMTrainerParameters(
            num_world_models=c["models"], rl=RLParameters(gamma=gamma),
            mdnrnn=MDNRNNTrainerParameters(hidden_size=4, num_hidden_layers=1, num_gaussians=c["G"], action_dim=c["A"],
                                           not_terminal_loss_weight=1.0 if c["term"] else 0.0, learning_rate=0.05), **kw))
        state = {i: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0) for i in range(c["D"])}
        if c["disc"]:
            act = {i: NormalizationParameters(feature_type="DISCRETE_ACTION") for i in range(c["A"])}
        else:
            act = {i: NormalizationParameters(feature_type="CONTINUOUS_ACTION", min_value=c["lo"][i], max_value=c["hi"][i])
                   for i in range(c["A"])}
        with sut("planner-not-built"):
            w.trainer = man.initialize_trainer(use_gpu=False, reward_options=RewardOptions(), normalization_data_map={
                "state": NormalizationData(dense_normalization_parameters=state),
                "action": NormalizationData(dense_normalization_parameters=act)})
            pol = man.create_policy()
        nets = [t.memory_network for t in w.trainer.world_model_trainers]
        got = list(pol.cem_planner_network.mem_net_list)
        check(len(got) == c["models"] and len({id(n) for n in got}) == len(got) and all(a is b for a, b in zip(got, nets)),
              "planner-uses-other-models", "the planner does not imagine with the %d networks that are trained" % c["models"])
        return pol.cem_planner_network, pol

    # ----------------------------------------------------------------- running
    def run(self, case, probe):
        import numpy as np
        import reagent.types as rlt
        import torch

        w = World()
        w.case, w.probe, w.rng = case, probe, random.Random("g05-%s" % case["seed"])
        c = case
        random.seed(c["seed"])
        np.random.seed(c["seed"] % 2 ** 31)
        torch.manual_seed(c["seed"])
        self.build(w)
        w.stats = {"model": [0] * c["models"], "traj": 0, "mix": [], "z": [], "term": [], "act": [0] * c["A"], "acts": 0, "u": []}
        for op in c["ops"]:
            if op[0] == "learn":
                if c["real"]:
                    B, T = 2, 3
                    g = torch.Generator().manual_seed(w.rng.randrange(10 ** 6))
                    r = lambda *s: torch.randn(*s, generator=g)  # noqa
                    with sut("training-failed"):
                        w.trainer.train(rlt.MemoryNetworkInput(
                            state=rlt.FeatureData(r(T, B, c["D"])), action=r(T, B, c["A"]), next_state=rlt.FeatureData(r(T, B, c["D"])),
                            reward=r(T, B), not_terminal=torch.ones(T, B), time_diff=torch.ones(T, B), step=None))
                else:
                    with torch.no_grad():
                        for n in w.nets:
                            n.p.add_(0.7 * torch.randn_like(n.p))
                probe.hit("model_updates")
                continue
            w.calls = []
            w.fail = op[1] if op[0] == "fail" else None
            before = [{k: v.clone() for k, v in n.state_dict().items()} for n in w.nets]
            mode = [n.training for n in w.nets]
            obs = torch.full((1, c["D"]), START) + torch.rand(1, c["D"])
            keep = obs.clone()
            out, w.planning = None, True
            try:
                if c["disc"] and w.rng.random() < 0.3:
                    idx, onehot = w.planner(rlt.FeatureData(obs))
                    check(tuple(onehot.shape) == (c["A"],) and int(onehot.argmax()) == int(idx) and float(onehot.sum()) == 1
                          and float(onehot.max()) == 1, "index-and-one-hot-differ", lambda: "%s %s" % (idx, onehot.tolist()))
                    out = onehot.unsqueeze(0)
                else:
                    res = w.policy.act(rlt.FeatureData(obs))
                    out = res.action
                    check(float(res.log_prob) == 0.0, "log-prob", "a planned action carries log-probability %s" % res.log_prob)
            except NetFault:
                check(op[0] == "fail", "stale-failure", "a plan without a failing model raised the earlier failure")
            except Violation:
                raise
            except Exception as e:
                raise Violation("plan-failed", "pop %d, ensemble %d: %s: %s" % (c["pop"], c["ens"], type(e).__name__, str(e)[:200]))
            w.planning = False
            fired = op[0] == "fail" and w.fail is None
            w.fail = None
            if fired:
                check(out is None, "failure-swallowed", "a world model failed and the planner returned an action")
            check(torch.equal(obs, keep), "observation-modified", "planning changed the observation")
            for n, b, m in zip(w.nets, before, mode):
                check(all(torch.equal(v, b[k]) for k, v in n.state_dict().items()) and n.training == m, "model-changed",
                      "planning changed a world model")
                check(all(p.grad is None or c["real"] for p in n.parameters()), "gradients-left", "planning left gradients")
            trajs = self.trajectories(w, obs.reshape(-1).tolist(), complete=out is not None)
            if out is not None:
                check(tuple(out.shape) == (1, c["A"]), "action-shape", lambda: str(tuple(out.shape)))
                (self.discrete if c["disc"] else self.continuous)(w, trajs, out.reshape(-1).tolist())
                probe.hit("plans")
            probe.state(c["disc"], c["term"], c["H"], c["ens"] > 1, c["real"], op[0], len({len(t) for t in trajs}))
            probe.event(op[0], None if out is None else [round(x, 4) for x in out.reshape(-1).tolist()], len(w.calls))
        self.frequencies(w)

    def trajectories(self, w, start, complete):
        """cut the recorded calls into imagined trajectories and check every step against what the model predicted"""
        c, st = w.case, w.stats
        trajs = []
        for call in w.calls:
            if all(abs(a - b) < 1e-3 for a, b in zip(call[1], start)):
                trajs.append([])
            check(trajs, "first-state", "the first imagined step does not start at the observed state")
            trajs[-1].append(call)
        for k, t in enumerate(trajs):
            check(len({x[0] for x in t}) == 1, "model-mixed", "one imagined trajectory used several world models: %s" % [x[0] for x in t])
            check(len(t) <= c["H"], "horizon", "%d steps imagined, the horizon is %d" % (len(t), c["H"]))
            if k < len(trajs) - 1 or complete:
                p = t[-1][7]
                check(len(t) == c["H"] or (c["term"] and p < 1 - 1e-6), "stopped-early",
                      lambda: "an imagined trajectory ended after %d of %d steps, continuing had probability %.3g" % (len(t), c["H"], p))
                if c["term"] and len(t) < c["H"]:
                    st["term"].append((p, 0))
            for a, b in zip(t, t[1:]):
                if c["term"]:
                    check(a[7] > 1e-6, "went-on-after-the-end", "step %s had probability %.3g to continue" % (a[1], a[7]))
                    st["term"].append((a[7], 1))
                fit = []
                for m, s in zip(a[4], a[5]):
                    z = [(x - y) / v for x, y, v in zip(b[1], m, s)]
                    fit.append(max(abs(q) - abs(x) * 2e-7 / v for q, x, v in zip(z, b[1], s)) < 8)
                check(any(fit), "next-state", lambda: "imagined next state %s, predicted means %s (sd %s)" % (b[1], a[4], a[5]))
                if not c["real"]:
                    g = fit.index(True)
                    st["mix"].append((a[6], g))
                    if c["sigma"] > 0.1:
                        st["z"] += [(x - y) / v for x, y, v in zip(b[1], a[4][g], a[5][g])]
            st["traj"] += 1
            st["model"][t[0][0]] += 1
        return trajs

    @staticmethod
    def ret(c, t):
        return sum(c["gamma"] ** j * x[3] for j, x in enumerate(t))

    def solutions(self, w, trajs):
        """[(actions seen, average return)] of the candidates, which are tried ens times each"""
        c = w.case
        e = c["ens"]
        check(len(trajs) % e == 0, "ensemble", "%d trajectories for ensembles of %d" % (len(trajs), e))
        sols = []
        for i in range(0, len(trajs), e):
            grp = trajs[i:i + e]
            longest = max(grp, key=len)
            for t in grp:
                check(all(a[2] == b[2] for a, b in zip(t, longest)), "ensemble",
                      "the trajectories of one candidate do not take the same actions")
            sols.append(([x[2] for x in longest], sum(self.ret(c, t) for t in grp) / e))
        return sols

    def discrete(self, w, trajs, out):
        c = w.case
        check(len(trajs) == c["pop"] * c["ens"], "population", "%d trajectories imagined, wanted %d x %d" % (len(trajs), c["pop"], c["ens"]))
        by = {}
        for acts, r in self.solutions(w, trajs):
            for a in acts:
                check(sorted(a) == [0.0] * (c["A"] - 1) + [1.0], "imagined-action", lambda: "action %s was imagined" % a)
            for a in acts if not c["term"] else acts[:1]:
                w.stats["act"][a.index(1.0)] += 1
                w.stats["acts"] += 1
            by.setdefault(acts[0].index(1.0), []).append(r)
        avg = {a: sum(v) / len(v) for a, v in by.items()}
        check(sorted(out) == [0.0] * (c["A"] - 1) + [1.0], "not-one-hot", lambda: str(out))
        got = out.index(1.0)
        check(got in avg, "untried-action", lambda: "action %d was chosen, only %s were tried" % (got, sorted(avg)))
        check(avg[got] >= max(avg.values()) - 1e-4, "not-the-best-action",
              lambda: "chose %d, average imagined returns by first action %s" % (got, avg))
        w.probe.hit("plans_recomputed")

    def continuous(self, w, trajs, out):
        import numpy as np

        c = w.case
        n = c["pop"] * c["ens"]
        check(trajs and len(trajs) % n == 0 and len(trajs) // n <= c["iters"], "population",
              "%d trajectories imagined, wanted up to %d iterations of %d x %d" % (len(trajs), c["iters"], c["pop"], c["ens"]))
        its = len(trajs) // n
        A, H = c["A"], c["H"]
        lo, hi = np.tile(c["lo"], H), np.tile(c["hi"], H)
        mean, var = (lo + hi) / 2, (hi - lo) ** 2 / 16
        full = not c["term"]
        sure = True
        for it in range(its):
            sols = self.solutions(w, trajs[it * n:(it + 1) * n])
            cv = np.minimum(np.minimum(((mean - lo) / 2) ** 2, ((hi - mean) / 2) ** 2), var)
            X = np.full((c["pop"], A * H), np.nan)
            for i, (acts, _) in enumerate(sols):
                X[i, :len(acts) * A] = np.array(acts).reshape(-1)
            seen = ~np.isnan(X)
            slack = 1e-4 * (1 + np.abs(hi) + np.abs(lo))
            Y = np.where(seen, X, (lo + hi) / 2)
            check(bool(np.all((Y >= lo - slack) & (Y <= hi + slack))), "out-of-bounds",
                  lambda: "iteration %d imagined an action outside its bounds" % it)
            known = np.isfinite(mean)
            check(bool(np.all(~(seen & known) | (np.abs(X - mean) <= 2 * np.sqrt(cv) + slack))), "outside-the-search-region",
                  lambda: "iteration %d tried actions further than two deviations from the current mean" % it)
            ok = known & (cv > 1e-6)
            Z = (Y - mean) / np.sqrt(np.where(ok, cv, 1))
            w.stats["u"] += [float(z) for z in Z[seen & ok[None, :]]]
            R = np.array([r for _, r in sols])
            order = np.argsort(R, kind="stable")
            k = min(c["elites"], c["pop"])
            if k < c["pop"] and R[order[-k]] - R[order[-k - 1]] < 1e-4:
                sure = False
                break
            el = X[order[-k:]]
            mean = c["alpha"] * mean + (1 - c["alpha"]) * el.mean(0)
            var = c["alpha"] * var + (1 - c["alpha"]) * el.var(0)
            top = float(np.nanmax(var))
            if it < its - 1:
                check(top > c["epsilon"] - 1e-5 or not full, "not-stopped", "variance %.3g fell below %s and planning went on" % (top, c["epsilon"]))
            elif its < c["iters"]:
                check(top < c["epsilon"] + 1e-5, "stopped-too-early",
                      lambda: "planning stopped after %d of %d iterations with variance %.3g" % (its, c["iters"], top))
        check(all(-1 - 1e-6 <= x <= 1 + 1e-6 for x in out), "outside-canonical-range", lambda: str(out))
        if sure:
            exp = [(m - a) / (b - a) * 2 - 1 for m, a, b in zip(mean[:A], c["lo"], c["hi"])]
            check(all(abs(a - b) < 1e-3 for a, b in zip(out, exp)), "not-the-refined-action",
                  lambda: "action %s, the elites of the imagined trajectories give %s" % (out, exp))
            w.probe.hit("plans_recomputed")
        else:
            w.probe.hit("too_close_to_call")

    def frequencies(self, w):
        c, st = w.case, w.stats
        n = st["traj"]
        for i, k in enumerate(st["model"]):
            check(n == 0 or freq_ok(k, n, 1 / c["models"]), "model-choice", lambda: "model use %s" % st["model"])
        for a in range(c["A"]):
            check(st["acts"] == 0 or freq_ok(st["act"][a], st["acts"], 1 / c["A"]), "candidate-choice", lambda: "actions tried %s" % st["act"])

        def bernoulli(pairs, cls, what):
            m = len(pairs)
            if m:
                exp = sum(p for p, _ in pairs)
                got = sum(x for _, x in pairs)
                check(abs(got - exp) <= math.sqrt(m * L / 2) + 1, cls, lambda: "%s: %.1f expected, %d seen in %d" % (what, exp, got, m))

        # a step with horizon left ends the trajectory with the predicted probability
        bernoulli(st["term"], "termination-frequency", "imagined steps that went on")
        for g in range(c["G"]):
            bernoulli([(p[g], int(k == g)) for p, k in st["mix"]], "mixture-choice", "next states from mixture %d" % g)
        z = st["z"]
        if z:
            check(abs(sum(z) / len(z)) <= math.sqrt(2 * L / len(z)), "next-state-mean", lambda: "mean deviation %.3f" % (sum(z) / len(z)))
            v = sum(x * x for x in z) / len(z)
            b = 2 * math.sqrt(2 * L / len(z)) + 2 * L / len(z)
            check(1 - b <= v <= 1 + b, "next-state-variance", lambda: "variance %.3f of %d" % (v, len(z)))
        u = st["u"]
        if u:  # a normal cut off at two deviations has variance 0.7737; every term is bounded by 4
            check(abs(sum(u) / len(u)) <= 4 * math.sqrt(L / 2 / len(u)), "search-mean", lambda: "mean %.3f" % (sum(u) / len(u)))
            v = sum(x * x for x in u) / len(u)
            check(abs(v - 0.7737) <= 4 * math.sqrt(L / 2 / len(u)) + 1e-3, "search-variance", lambda: "variance %.3f of %d" % (v, len(u)))


SCENARIO = G05()
