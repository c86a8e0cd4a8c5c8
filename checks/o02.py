"""O02: sequential off-policy estimators give what their formulas give for the episodes logged, through failures and from evaluation pages."""
import contextlib
import copy
import io
import random

import numpy as np

from dst.core import Scenario, Violation, check, sut
from checks import t05


class ModelFault(RuntimeError):
    """the simulated value model or policy failed"""


@contextlib.contextmanager
def mysut(cls, where, *through):
    """sut, but the injected failures pass"""
    try:
        yield
    except through + (Violation,):
        raise
    except Exception as e:
        raise Violation(cls, "%s: %s: %s" % (where, type(e).__name__, str(e)[:300]))


ESTS = ["dm", "ips", "wips", "dr", "wdr", "magic"]


class O02(Scenario):
    id = "O02"
    runs = {"quick": 2000, "thorough": 100000}
    rule = ("a case is a Markov decision process and a history of policy changes, episodes logged (also with failures of the environment) and evaluations of these "
            "logs, directly and through evaluation pages, with failing value models and policies; non-trivial when an estimate was judged")
    components = {"real": ["sequential DMEstimator, IPSEstimator, DoublyRobustEstimator, MAGICEstimator, EpsilonGreedyRLPolicy, RandomRLPolicy, TabularPolicy",
                           "SequentialOPEstimatorAdapter, OPEstimatorAdapter, OPEvaluator", "Environment.step and PolicyLogGenerator"],
                  "stub": ["environment: drawn transition tables", "value model: drawn table"]}
    assumptions = ["estimates are compared to single precision", "MAGIC is judged by its j-step estimates: it must lie between them",
                   "an episode that has ended keeps its last importance ratio"]

    def setup(self):
        t05.SCENARIO.setup()
        import reagent.evaluation.ope_adapter  # noqa

    # ------------------------------------------------------------ cases
    def plan(self, rng, index, tier):
        n, A = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 2, 3])
        style = rng.choice(["plain", "chain", "chain", "loops"])
        nxt = []
        for s in range(n):
            row = []
            for a in range(A):
                cand = list(range(-2, n))
                if style == "chain":
                    cand = [min(s + 1, n - 1) if s + 1 < n else -1, s, -1]
                elif style == "loops":
                    cand = [s, max(0, s - 1), -1]
                to = list(dict.fromkeys(rng.sample(cand, min(rng.choice([1, 1, 2, 3]), len(cand)))))
                w = [rng.choice([1, 1, 2, 7]) for _ in to]
                row.append([[t, round(rng.uniform(-3, 3), 4), x / sum(w)] for t, x in zip(to, w)])
            nxt.append(row)

        horizon = rng.choice([1, 2, 3, 5, 8])
        small = 0.02 if horizon <= 5 else 0.3  # products stay far from what counts as zero

        def probs(zero):
            p = [rng.choice([0.0 if zero else 0.5, small if zero else 0.5, 1.0, 0.3 + rng.random()]) for _ in range(A)]
            if sum(p) == 0:
                p[rng.randrange(A)] = 1.0
            p = [v / sum(p) for v in p]
            return p

        c = {"n": n, "A": A, "next": nxt, "horizon": horizon, "seed": rng.randrange(10 ** 9), "V": [], "Q": []}
        c["V"] = [round(rng.uniform(-4, 4), 4) for _ in range(n)]
        c["G"] = [round(rng.uniform(-4, 4), 4) for _ in range(n)]
        c["Q"] = [[round(rng.uniform(-4, 4), 4) for _ in range(A)] for _ in range(n)]
        c["behavior"] = rng.choice(["random", "tabular", "tabular", "epsilon", "epsilon_held"])
        c["target"] = rng.choice(["random", "tabular", "tabular", "epsilon", "epsilon_held"])
        c["epsilon"] = rng.choice([0.0, 0.3, 0.6])
        c["clamp"] = rng.choice([None, None, None, [0.0, 0.5], [0.05, 1.0]])
        ops = []
        for s in range(n):
            ops.append(["policy", "behavior", s, probs(False)])
            ops.append(["policy", "target", s, probs(True)])
        for _ in range(rng.choice([2, 4, 7])):
            x = rng.random()
            if x < 0.35 or len(ops) == 2 * n:
                ops.append(["log", rng.randrange(2), [rng.randrange(n) for _ in range(rng.choice([1, 2, 2, 3, 6]))],
                            rng.randrange(0, 6) if rng.random() < 0.25 else None, rng.random() < 0.4])
            elif x < 0.5:
                ops.append(["policy", rng.choice(["behavior", "target"]), rng.randrange(n), probs(False)])
            gamma = rng.choice([0.0, 0.5, 0.9, 1.0])
            slot = rng.randrange(2)
            for e in rng.sample(ESTS, rng.choice([1, 2, 4])):
                ops.append(["eval", slot, e, gamma, rng.random() < 0.5, rng.randrange(0, 12) if rng.random() < 0.15 else None, rng.random() < 0.5])
            if rng.random() < 0.5:
                ops.append(["page", slot, rng.choice(["all", "ips", "wips", "dr", "wdr", "wdr"]), gamma])
        c["ops"] = ops
        return c

    def shrink(self, case):
        for i in range(len(case["ops"])):
            if len(case["ops"]) > 1:
                c = copy.deepcopy(case)
                del c["ops"][i]
                yield c
        for i, op in enumerate(case["ops"]):
            if op[0] == "log" and len(op[2]) > 1:
                c = copy.deepcopy(case)
                c["ops"][i][2] = op[2][1:]
                yield c
            for j in range(len(op)):
                if op[0] in ("log", "eval") and j >= 3 and op[j] not in (None, False) and not (op[0] == "eval" and j == 3):
                    c = copy.deepcopy(case)
                    c["ops"][i][j] = None if j in (3, 5) else False
                    yield c
        for k, v in (("clamp", None), ("behavior", "random"), ("target", "random"), ("horizon", max(1, case["horizon"] - 1))):
            if case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c

    def nontrivial(self, case, probe):
        return probe.hits["estimates"] > 0

    # ------------------------------------------------------------ run
    def run(self, case, probe):
        import torch
        from reagent.ope.estimators import sequential_estimators as se
        from reagent.ope.estimators.types import ActionSpace
        from reagent.ope.test.envs import PolicyLogGenerator
        from reagent.ope.trainers.rl_tabular_trainers import TabularPolicy
        from reagent.ope.utils import Clamper

        self.c, self.p, self.se = case, probe, se
        torch.manual_seed(case["seed"])
        random.seed(case["seed"])
        np.random.seed(case["seed"] % 2 ** 32)
        self.env = t05.CLS["env"](case, probe)
        A = case["A"]
        self.tables, self.policies = {}, {}
        self.model = {"behavior": {}, "target": {}}

        class Held(se.RLPolicy):
            """a policy that hands out the distributions it holds"""

            def __init__(self, table, rows):
                super().__init__(table.action_space)
                self.table, self.rows, self.held = table, rows, {}

            def action_dist(self, state):
                key = state.value, tuple(self.rows.get(state.value, ()))
                if key not in self.held:
                    self.held[key] = self.table(state)
                return self.held[key]

        for who in ("behavior", "target"):
            t = TabularPolicy(ActionSpace(A))
            self.tables[who] = t
            with sut("policy-failed", case[who]):
                self.policies[who] = {"random": lambda: se.RandomRLPolicy(ActionSpace(A)), "tabular": lambda: t,
                                      "epsilon": lambda: se.EpsilonGreedyRLPolicy(t, case["epsilon"]),
                                      "epsilon_held": lambda: se.EpsilonGreedyRLPolicy(Held(t, self.model[who]), case["epsilon"])}[case[who]]()
                space = list(self.policies[who].action_space)
            check(space == list(ActionSpace(A)), "action-space", lambda: "%s %s: %s" % (who, case[who], space))
        self.logs, self.fail = {}, None
        self.gen = PolicyLogGenerator(self.env, self.policies["behavior"])
        outer = self

        class Value(se.ValueFunction):
            def __init__(self, V, Q):
                self.V, self.Q = V, Q

            def tick(self):
                if outer.fail is not None:
                    outer.fail -= 1
                    if outer.fail < 0:
                        outer.fail = None
                        probe.fault("model_error")
                        raise ModelFault("simulated")

            def state_action_value(self, state, action):
                self.tick()
                return self.Q[state.value][action.value]

            def state_value(self, state):
                self.tick()
                return self.V[state.value]

            def reset(self):
                pass

        class Failing(se.RLPolicy):
            """the target policy, which may fail"""

            def action_dist(self, state):
                Value.tick(None)
                return outer.policies["target"](state)

        self.value, self.truth = Value(case["V"], case["Q"]), Value(case["G"], case["Q"])
        self.wrapped = Failing(ActionSpace(A))
        clamp = case["clamp"]
        mk = lambda: None if clamp is None else Clamper(*clamp)
        self.est = {"dm": se.DMEstimator(), "ips": se.IPSEstimator(mk(), False), "wips": se.IPSEstimator(mk()),
                    "dr": se.DoublyRobustEstimator(mk(), False), "wdr": se.DoublyRobustEstimator(mk(), True), "magic": se.MAGICEstimator(mk())}
        for i, op in enumerate(case["ops"]):
            self.where = "op %d %s" % (i, op)
            with contextlib.redirect_stdout(io.StringIO()):
                getattr(self, op[0])(*op[1:])

    def row(self, who, s):
        A, kind = self.c["A"], self.c[who]
        u = [1.0 / A] * A
        if kind == "random":
            return u
        p = self.model[who].get(s, u)
        if kind.startswith("epsilon"):
            e = self.c["epsilon"]
            p = [x * (1 - e) + e / A for x in p]
        return p

    def policy(self, who, s, probs):
        self.tables[who].update(self.env.S[s], list(probs))
        self.model[who][s] = list(probs)

    def log(self, slot, starts, fail, more):
        """plays episodes; a failure of the environment loses the episode it happened in"""
        keep = self.logs.get(slot, []) if more else []
        got = []
        self.env.calls = 0
        for s in starts:
            self.env.fail_at, fail = fail, None
            want = len(self.env.episodes)
            rows = {t: self.row("behavior", t) for t in range(self.c["n"])}
            try:
                with mysut("log-failed", self.where, t05.EnvFault):
                    mdp = self.gen.generate_log(self.env.S[s])
            except t05.EnvFault:
                self.env.fail_at = None
                continue
            self.env.fail_at = None
            ep = self.env.episodes[want]
            check([(t.last_state.value, t.action.value, float(t.reward)) for t in mdp] == ep, "log",
                  lambda: "%s: logged %s, played %s" % (self.where, mdp, ep))
            H = self.c["horizon"]
            ends = mdp[-1].state.is_terminal
            check(len(mdp) <= H and (ends or len(mdp) == H) and not any(t.state.is_terminal for t in mdp[:-1]), "episode-length",
                  lambda: "%s: %s, at most %d" % (self.where, mdp, H))
            check(ep[0][0] == s and all(a.state == b.last_state for a, b in zip(mdp, mdp[1:])), "episode-order", lambda: "%s: %s" % (self.where, mdp))
            for t in mdp:
                check(abs(t.action_prob - rows[t.last_state.value][t.action.value]) < 1e-6, "logged-probability",
                      lambda: "%s: %s, the policy has %s" % (self.where, t, rows[t.last_state.value]))
            got.append(mdp)
        if keep or got:
            self.logs[slot] = keep + got
            self.p.hit("logs")

    # ------------------------------------------------------------ the formulas
    def reference(self, gamma, eps, n_steps):
        """eps: lists of (ratio, reward, q, v, start value); returns name -> (estimate, scale)"""
        n, T = len(eps), n_steps
        rho = np.ones((n, T))
        r, q, v = np.zeros((n, T)), np.zeros((n, T)), np.zeros((n, T))
        for i, e in enumerate(eps):
            c = 1.0
            for t in range(T):
                if t < len(e):
                    c *= e[t][0]
                    r[i, t], q[i, t], v[i, t] = e[t][1:4]
                rho[i, t] = c
        d = gamma ** np.arange(T) if gamma else np.array([1.0] + [0.0] * (T - 1))
        out = {}
        lo, hi = self.c["clamp"] or (-np.inf, np.inf)
        tot = rho.sum(0)
        for weighted in (False, True):
            w = rho / (np.where(tot < 1e-15, n, tot) if weighted else n)
            w = np.clip(w, lo, hi)
            last = np.concatenate([np.full((n, 1), 1.0 / n), w[:, :-1]], 1)
            x = w * r
            out["wips" if weighted else "ips"] = ((x.sum(0) * d).sum(), (np.abs(x) * d).sum())
            x = w * (r - q) + last * v
            out["wdr" if weighted else "dr"] = ((x.sum(0) * d).sum(), ((w * (np.abs(r) + np.abs(q)) + last * np.abs(v)) * d).sum())
            if weighted:
                nv = np.concatenate([v[:, 1:], np.zeros((n, 1))], 1)
                g = np.cumsum((x * d).sum(0)) + (w * nv * d).sum(0) * gamma
                out["magic"] = ((g.min(), g.max()), out["wdr"][1] + (np.abs(w * nv) * d).sum())
        out["dm"] = (np.mean([e[0][3] for e in eps]), 4.0)
        ret = [sum(gamma ** t * s[1] for t, s in enumerate(e)) for e in eps]
        out["log"] = (np.mean(ret), 4.0 * T)
        return out

    def judge(self, name, got, ref, where):
        want, scale = ref[name]
        tol = 2e-5 * (1 + scale)
        if name == "magic":
            check(want[0] - tol <= got <= want[1] + tol, "estimate", lambda: "%s: MAGIC %s, its j-step estimates reach from %s to %s" % (where, got, *want))
        else:
            check(abs(got - want) <= tol, "estimate", lambda: "%s: %s estimates %s, expected %s" % (where, name, got, want))
        self.p.hit("estimates")

    def episodes(self, log):
        out = []
        for mdp in log:
            e = []
            for t in mdp:
                s, a = t.last_state.value, t.action.value
                e.append((self.row("target", s)[a] / t.action_prob, float(t.reward), self.c["Q"][s][a], self.c["V"][s]))
            out.append(e)
        return out

    def eval(self, slot, name, gamma, truth, fail, wrapped):
        log = self.logs.get(slot)
        if not log or (name == "magic" and len(log) < 2):
            return
        before = copy.deepcopy(log)
        inp = self.se.RLEstimatorInput(gamma=gamma, log=log, target_policy=self.wrapped if wrapped else self.policies["target"],
                                       value_function=self.value, ground_truth=self.truth if truth else None)
        self.fail = fail
        kw = {"num_resamples": 20} if name == "magic" else {}
        try:
            with mysut("evaluation-failed", self.where, ModelFault):
                res = self.est[name].evaluate(inp, **kw)
            hidden = fail is not None and self.fail is None
            self.fail = None
            check(not hidden, "failure-hidden", lambda: "%s: the value model failed, but an estimate was returned" % self.where)
        except ModelFault:
            self.fail = None
            self.p.hit("failed_visibly")
            self.eval(slot, name, gamma, truth, None, wrapped)  # the next attempt works
            return
        check(log == before, "log-changed", self.where)
        check(len(res.results) == 1, "number-of-estimates", lambda: "%s: %d" % (self.where, len(res.results)))
        r = res.results[0]
        eps = self.episodes(log)
        ref = self.reference(gamma, eps, max(len(e) for e in eps))
        self.judge(name, r.estimated_reward, ref, self.where)
        self.judge("log", r.log_reward, ref, self.where)
        gt = np.mean([self.c["G"][m[0].last_state.value] for m in log]) if truth else 0.0
        check(abs(r.ground_truth_reward - gt) <= 1e-4, "ground-truth", lambda: "%s: %s, expected %s" % (self.where, r.ground_truth_reward, gt))
        self.p.event(name, gamma, len(log), round(float(r.estimated_reward), 4))
        self.p.state(name, gamma, len({len(m) for m in log}), min(len(log), 4), self.c["clamp"] is None, truth)

    def page(self, slot, name, gamma):
        """the same log as a page of evaluation data"""
        import torch
        from reagent.evaluation import ope_adapter as oa
        from reagent.evaluation.evaluation_data_page import EvaluationDataPage

        log = self.logs.get(slot)
        if not log or len(log) < 2:
            return
        A = self.c["A"]
        ids, seq, lp, lr, am, mp, mv, eps = [], [], [], [], [], [], [], []
        for i, mdp in enumerate(log):
            e = []
            for j, t in enumerate(mdp):
                s, a = t.last_state.value, t.action.value
                p = self.row("target", s)
                ids.append([10 * i + 3])
                seq.append([j])
                lp.append([t.action_prob])
                lr.append([float(t.reward)])
                am.append([1.0 if k == a else 0.0 for k in range(A)])
                mp.append(p)
                mv.append(self.c["Q"][s])
                e.append((p[a] / t.action_prob, float(t.reward), self.c["Q"][s][a], sum(x * y for x, y in zip(p, self.c["Q"][s]))))
            eps.append(e)
        T = lambda x: torch.tensor(x, dtype=torch.float32)
        amt = T(am)
        edp = EvaluationDataPage(mdp_id=torch.tensor(ids), sequence_number=torch.tensor(seq), logged_propensities=T(lp), logged_rewards=T(lr), action_mask=amt,
                                 model_propensities=T(mp), model_values=T(mv), model_rewards=T(mv),
                                 model_rewards_for_logged_action=(T(mv) * amt).sum(1, keepdim=True))
        ref = self.reference(gamma, eps, max(len(e) for e in eps))
        if name != "all":
            with sut("evaluation-failed", self.where):
                got = {name: oa.SequentialOPEstimatorAdapter(self.est[name], gamma).estimate(edp)}
        else:
            clamp, self.c = self.c["clamp"], dict(self.c, clamp=None)
            ref = self.reference(gamma, eps, max(len(e) for e in eps))
            self.c["clamp"] = clamp
            with sut("evaluation-failed", self.where):
                s = oa.OPEvaluator([str(k) for k in range(A)], gamma, None).score_cpe("reward", edp)
            got = {"dr": s.sequential_doubly_robust, "wdr": s.weighted_doubly_robust, "magic": s.magic}
            # one row is one decision for the bandit estimators
            flat = [x for e in eps for x in e]
            for what, est, want in (("direct method", s.direct_method, np.mean([x[3] for x in flat])),
                                    ("inverse propensity", s.inverse_propensity, np.mean([x[0] * x[1] for x in flat])),
                                    ("doubly robust", s.doubly_robust, np.mean([x[3] + x[0] * (x[1] - x[2]) for x in flat]))):
                check(abs(est.raw - want) <= 2e-4 * (1 + max(x[0] for x in flat)), "bandit-estimate",
                      lambda: "%s: %s %s, expected %s" % (self.where, what, est.raw, want))
        for k, e in got.items():
            self.judge(k, e.raw, ref, self.where)
            lg = ref["log"][0]
            if abs(lg - 1e-6) > 1e-3:
                want = e.raw / lg if lg > 1e-6 else 0.0
                check(abs(e.normalized - want) <= 1e-3 * (1 + abs(want)), "normalized",
                      lambda: "%s: %s normalized is %s, expected %s" % (self.where, k, e.normalized, want))
            self.p.state("page", name, k, gamma, len({len(m) for m in log}))
        self.p.event("page", name, {k: round(float(e.raw), 4) for k, e in sorted(got.items())})


SCENARIO = O02()
