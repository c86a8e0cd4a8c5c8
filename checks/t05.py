"""T05: tabular policies and value functions follow the episodes and the environment they saw, across faults and restarts."""
import copy
import math
import os
import random

import numpy as np

from dst.core import Scenario, SimCrash, Violation, check, sut
from dst.simdisk import SimDisk


class EnvFault(RuntimeError):
    """the simulated environment failed"""


class TooLong(BaseException):
    """more environment calls than the run may make"""


CLS = {}
LIMIT = 150000


def make_env_class():
    from reagent.ope.estimators.sequential_estimators import RewardProbability, State
    from reagent.ope.test.envs import Environment

    class Env(Environment):
        """a drawn Markov decision process which keeps the episodes it was asked for"""

        def __init__(self, spec, probe):
            super().__init__(spec["horizon"])
            self.spec, self.probe = spec, probe
            self.episodes, self.calls, self.fail_at = [], 0, None
            self.S = [State(i) for i in range(spec["n"])]
            self.table = {}
            for s in range(spec["n"]):
                for a in range(spec["A"]):
                    self.table[s, a] = {
                        (self.S[t] if t >= 0 else State(t, True)): RewardProbability(r, p) for t, r, p in spec["next"][s][a]}

        def reset(self, state=None):
            super().reset(state if state is not None else self.S[0])
            self.episodes.append([])
            return self.current_state

        def close(self):
            pass

        def step(self, policy):
            try:
                t = super().step(policy)
            except BaseException:
                if self.episodes:
                    self.episodes.pop()
                raise
            self.episodes[-1].append((t.last_state.value, t.action.value, float(t.reward)))
            return t

        def next_state_reward_dist(self, state, action):
            self.calls += 1
            if self.fail_at is not None:
                self.fail_at -= 1
                if self.fail_at < 0:
                    self.fail_at = None
                    self.probe.fault("environment_error")
                    raise EnvFault("simulated")
            if self.calls > LIMIT:
                raise TooLong()
            if state.is_terminal:
                return {state: RewardProbability(0.0, 1.0)}
            return dict(self.table[state.value, action.value])

        @property
        def observation_space(self):
            return (1,), ((0, self.spec["n"]),)

        @property
        def states(self):
            return list(self.S)

    return Env


def visits(ep, gamma, first, key):
    """key -> the discounted returns that follow its (first) visits in an episode"""
    out, g, rets = {}, 0.0, []
    for t in reversed(ep):
        g = gamma * g + t[2]
        rets.append(g)
    for t, g in zip(ep, reversed(rets)):
        k = key(t)
        if first and k in out:
            continue
        out.setdefault(k, []).append(g)
    return out


class T05(Scenario):
    id = "T05"
    runs = {"quick": 4000, "thorough": 200000}
    rule = ("a case is a Markov decision process and a history of policy updates, evaluations (dynamic programming, Monte Carlo, plain averages), "
            "trainings, saves and loads, with environment and disk failures and deaths; non-trivial when a value or a trained policy was judged")
    components = {"real": ["TabularPolicy, DPValueFunction, DPTrainer, MonteCarloValueFunction, MonteCarloTrainer, EstimatedStateValueFunction",
                           "Environment.step and PolicyLogGenerator"],
                  "stub": ["environment: drawn transition tables", "disk: simulated layer over a scratch directory"]}
    assumptions = ["dynamic programming is exact up to what its threshold allows",
                   "policy iterations that swing between equally good actions are abandoned after %d environment calls" % LIMIT]

    def setup(self):
        import logging
        import warnings

        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        import reagent_compat  # noqa
        import torch

        torch.set_num_threads(1)
        import reagent.ope.trainers.rl_tabular_trainers  # noqa

        CLS["env"] = make_env_class()

    # ------------------------------------------------------------ cases
    def plan(self, rng, index, tier):
        n, A = rng.choice([1, 2, 3, 3, 4, 6]), rng.choice([1, 2, 2, 3])
        style = rng.choice(["plain", "plain", "chain", "loops"])
        ties = rng.random() < 0.2
        nxt = []
        for s in range(n):
            row = []
            for a in range(A):
                cand = list(range(-2, n))
                if style == "chain":
                    cand = [min(s + 1, n - 1) if s + 1 < n else -1, s, -1]
                elif style == "loops":
                    cand = [s, max(0, s - 1), -1]
                k = rng.choice([1, 1, 2, 3])
                to = rng.sample(cand, min(k, len(cand)))
                to = list(dict.fromkeys(to))
                w = [rng.choice([1, 1, 2, 7]) for _ in to]
                if a and rng.random() < 0.2:  # just like another action
                    row.append(copy.deepcopy(row[rng.randrange(a)]))
                    continue
                row.append([[t, float(rng.choice([0, 0, 1])) if ties else round(rng.uniform(-3, 3), 4), x / sum(w)] for t, x in zip(to, w)])
            nxt.append(row)
        c = {"n": n, "A": A, "next": nxt, "horizon": rng.choice([1, 2, 4, 8, 15]), "seed": rng.randrange(10 ** 9), "ties": ties,
             "epsilon": rng.choice([0.0, 0.0, 0.1, 0.5])}
        ops = []
        gammas = [0.0, 0.5, 0.9, 0.95]
        for _ in range(rng.choice([2, 4, 7, 12])):
            x = rng.random()
            fail = rng.randrange(1, 40) if rng.random() < 0.15 else None
            if x < 0.2:
                p = [rng.choice([0.0, 1.0, rng.random()]) for _ in range(A)]
                if sum(p) == 0:
                    p[rng.randrange(A)] = 1.0
                ops.append(["update", rng.randrange(n), [v / sum(p) for v in p]])
            elif x < 0.4:
                slot = rng.randrange(2)
                ops.append(["mc", slot, rng.choice(gammas + [1.0]), rng.random() < 0.6, rng.choice([1, 1, 3, 8]), rng.choice([1, 4, 12])])
                for _ in range(rng.choice([1, 2, 4])):
                    ops.append(["mcv", slot, rng.randrange(n), fail])
            elif x < 0.47:
                ops.append(["mcv", rng.randrange(2), rng.randrange(n), fail])
            elif x < 0.5:
                ops.append(["mcreset", rng.randrange(2), rng.random() < 0.6])
            elif x < 0.62:
                slot = rng.randrange(2)
                ops.append(["dp", slot, rng.choice(gammas), rng.choice([1e-2, 1e-4, 1e-8])])
                ops.append(["dpv", slot, fail])
            elif x < 0.68:
                ops.append(["dpreset", rng.randrange(2), rng.random() < 0.5])
                ops.append(["dpv", ops[-1][1], fail])
            elif x < 0.74:
                ops.append(["estimate", rng.choice(gammas + [1.0]), rng.choice([1, 2, 5]), fail])
            elif x < 0.81:
                ops.append(["dptrain", rng.choice(gammas), rng.choice([1e-3, 1e-6]), fail])
            elif x < 0.89:
                ops.append(["mctrain", rng.choice([1, 3, 7, 12]), rng.choice(gammas), rng.random() < 0.6, rng.choice([1, 2, 3, 20]), fail])
            elif x < 0.95:
                fault = None
                if rng.random() < 0.5:
                    fault = [rng.choice(["crash", "enospc", "eio", "tear", "lose"]), rng.randrange(0, 4), rng.choice([0.0, 0.3, 0.9, 1.0])]
                ops.append(["save", rng.randrange(2), fault, rng.choice([0.0, 0.2])])
            else:
                ops.append(["load", rng.randrange(2), rng.choice([None, 0.0, 0.3])])
        for i in range(len(ops) - 1, -1, -1):
            if ops[i][0] == "save" and rng.random() < 0.7:
                ops.insert(i + 1 + rng.randrange(len(ops) - i), ["load", ops[i][1], rng.choice([None, 0.0, 0.3])])
        c["ops"] = ops
        return c

    def shrink(self, case):
        for i in range(len(case["ops"])):
            if len(case["ops"]) > 1:
                c = copy.deepcopy(case)
                del c["ops"][i]
                yield c
        if case["horizon"] > 1:
            c = copy.deepcopy(case)
            c["horizon"] = max(1, case["horizon"] // 2)
            yield c
        for i, op in enumerate(case["ops"]):
            if op[0] in ("mcv", "dpv", "estimate", "dptrain", "mctrain") and op[-1] is not None:
                c = copy.deepcopy(case)
                c["ops"][i][-1] = None
                yield c
        for s in range(case["n"]):
            for a in range(case["A"]):
                if len(case["next"][s][a]) > 1:
                    c = copy.deepcopy(case)
                    c["next"][s][a] = [[case["next"][s][a][0][0], case["next"][s][a][0][1], 1.0]]
                    yield c

    def nontrivial(self, case, probe):
        return probe.hits["values"] + probe.hits["trained_policies"] > 0

    # ------------------------------------------------------------ run
    def run(self, case, probe):
        import torch

        self.c, self.p = case, probe
        self.disk = SimDisk(probe, "t05")
        self.saved = {}
        torch.manual_seed(case["seed"])
        random.seed(case["seed"])
        np.random.seed(case["seed"] % 2 ** 32)
        self.fresh(case["epsilon"])
        try:
            for i, op in enumerate(case["ops"]):
                self.where = "op %d %s" % (i, op)
                self.env.calls = 0
                try:
                    getattr(self, op[0])(*op[1:])
                except TooLong:
                    if op[0] == "dptrain" and case["ties"]:
                        probe.hit("abandoned")
                        break
                    raise Violation("does-not-finish", "%s: more than %d environment calls" % (self.where, LIMIT))
        finally:
            self.disk.close()

    def fresh(self, epsilon):
        """a new process"""
        from reagent.ope.estimators.types import ActionSpace
        from reagent.ope.trainers.rl_tabular_trainers import TabularPolicy

        self.env = CLS["env"](self.c, self.p)
        self.policy = TabularPolicy(ActionSpace(self.c["A"]), epsilon)
        self.model = {"epsilon": epsilon, "probs": {}}
        self.vfs = {}

    def probs(self, m, s):
        A = self.c["A"]
        if s not in m["probs"]:
            return [1.0 / A] * A
        return [p * (1.0 - m["epsilon"]) + m["epsilon"] / A for p in m["probs"][s]]

    def actual(self):
        out = []
        for s in self.env.S:
            d = self.policy(s)
            row = [float(d[a]) for a in self.policy.action_space]
            check(len(row) == self.c["A"] and all(p >= -1e-9 for p in row) and abs(sum(row) - 1) < 1e-5, "no-distribution",
                  lambda: "%s: the actions of state %s have probabilities %s" % (self.where, s.value, row))
            out.append(row)
        return out

    def judge_policy(self):
        for s, row in enumerate(self.actual()):
            want = self.probs(self.model, s)
            check(max(abs(a - b) for a, b in zip(row, want)) < 1e-6, "policy",
                  lambda: "%s: the actions of state %d have probabilities %s, expected %s" % (self.where, s, row, want))

    def adopt(self):
        """go on from the policy as it is"""
        e, A = self.model["epsilon"], self.c["A"]
        self.model["probs"] = {s: [(p - e / A) / (1 - e) for p in row] for s, row in enumerate(self.actual())}

    def faulty(self, what, fail, fn):
        """runs fn with an environment failure after so many calls; returns (failed, result)"""
        self.env.fail_at = fail
        try:
            r = fn()
        except EnvFault:
            self.p.hit("failed_visibly")
            return True, None
        except (TooLong, Violation):
            raise
        except Exception as e:
            raise Violation("failed", "%s: %s: %s" % (self.where, type(e).__name__, str(e)[:300]))
        hidden = fail is not None and self.env.fail_at is None
        self.env.fail_at = None
        check(not hidden, "failure-hidden", lambda: "%s: the environment failed, but %s reported success" % (self.where, what))
        return False, r

    # ------------------------------------------------------------ operations
    def update(self, s, probs):
        old = self.model["probs"].get(s, [1.0 / self.c["A"]] * self.c["A"])
        with sut("failed", self.where):
            d = self.policy.update(self.env.S[s], list(probs))
        want = math.sqrt(sum((a - b) ** 2 for a, b in zip(old, probs)))
        check(abs(d - want) < 1e-5, "update-distance", lambda: "%s: %s, expected %s" % (self.where, d, want))
        self.model["probs"][s] = list(probs)
        self.judge_policy()

    def mc(self, slot, gamma, first, threshold, max_iteration):
        from reagent.ope.trainers.rl_tabular_trainers import MonteCarloValueFunction

        v = MonteCarloValueFunction(self.policy, self.env, gamma, first, threshold, max_iteration)
        self.vfs["mc", slot] = dict(v=v, gamma=gamma, first=first, threshold=threshold, limit=max_iteration, returns={})

    def mcv(self, slot, s, fail):
        f = self.vfs.get(("mc", slot))
        if f is None:
            return
        state = self.env.S[s]
        start = len(self.env.episodes)
        before = len(f["returns"].get(s, []))
        failed, got = self.faulty("the evaluation", fail, lambda: f["v"](state))
        eps = self.env.episodes[start:]
        for ep in eps:
            check(ep and ep[0][0] == s, "episode-start", lambda: "%s: an episode from state %s" % (self.where, ep[:1]))
            for k, gs in visits(ep, f["gamma"], f["first"], lambda t: t[0]).items():
                f["returns"].setdefault(k, []).extend(gs)
        if failed:
            return
        R = f["returns"].get(s, [])
        if before >= f["threshold"]:
            check(not eps, "episodes", lambda: "%s: %d more episodes, %d returns were known" % (self.where, len(eps), before))
        else:
            check(len(eps) == f["limit"] or len(R) >= f["threshold"], "episodes",
                  lambda: "%s: stopped after %d episodes with %d of %d returns" % (self.where, len(eps), len(R), f["threshold"]))
            check(len(eps) <= f["limit"], "episodes", lambda: "%s: %d episodes, at most %d" % (self.where, len(eps), f["limit"]))
            if len(eps) > 1:
                prev = before + sum(len(visits(ep, 1.0, f["first"], lambda t: t[0]).get(s, [])) for ep in eps[:-1])
                check(prev < f["threshold"], "episodes", lambda: "%s: %d episodes, enough were known before the last" % (self.where, len(eps)))
        want = sum(R) / len(R) if R else 0.0
        check(abs(got - want) <= 1e-8 * (1 + abs(want)), "monte-carlo-value",
              lambda: "%s: value %s, the mean of the %d returns seen is %s" % (self.where, got, len(R), want))
        self.p.hit("values")
        self.p.event("mc", slot, s, round(want, 8), len(R))
        self.p.state("mc", f["first"], min(len(R), 6), min(len(eps), 6), self.c["horizon"], any(
            len(visits(e, 1.0, False, lambda t: t[0]).get(s, [])) > 1 for e in eps))

    def mcreset(self, slot, clear):
        f = self.vfs.get(("mc", slot))
        if f:
            f["v"].reset(clear)
            if clear:
                f["returns"] = {}

    # exact values of a policy, given as a list of rows
    def solve(self, rows, gamma):
        n = self.c["n"]
        P, r = np.zeros((n, n)), np.zeros(n)
        for s in range(n):
            for a, pa in enumerate(rows[s]):
                for t, rew, p in self.c["next"][s][a]:
                    r[s] += pa * p * rew
                    if t >= 0:
                        P[s, t] += pa * p
        return np.linalg.solve(np.eye(n) - gamma * P, r)

    def q(self, V, s, a, gamma):
        return sum(p * (rew + gamma * (V[t] if t >= 0 else 0.0)) for t, rew, p in self.c["next"][s][a])

    def slack(self, gamma, threshold):
        return gamma * threshold / (1 - gamma) + 1e-7 / (1 - gamma) ** 2

    def dp(self, slot, gamma, threshold):
        from reagent.ope.trainers.rl_tabular_trainers import DPValueFunction

        self.vfs["dp", slot] = dict(v=DPValueFunction(self.policy, self.env, gamma, threshold), gamma=gamma, threshold=threshold, V=None)

    def dpv(self, slot, fail):
        f = self.vfs.get(("dp", slot))
        if f is None:
            return
        start = len(self.env.episodes)
        failed, got = self.faulty("the evaluation", fail, lambda: [f["v"](s) for s in self.env.S])
        if failed:  # half an evaluation is none
            self.dpv(slot, None)
            return
        now = self.solve([self.probs(self.model, s) for s in range(self.c["n"])], f["gamma"])
        fits = [V for V in (f["V"], now) if V is not None]
        if f["V"] is None:
            f["V"] = now
        t = self.slack(f["gamma"], f["threshold"])
        err = min(max(abs(a - b) for a, b in zip(got, V)) for V in fits)
        check(err <= t, "dynamic-programming-value", lambda: "%s: values %s, exact %s" % (self.where, got, now.tolist()))
        check(len(self.env.episodes) == start, "episodes", lambda: "%s: dynamic programming played episodes" % self.where)
        for s in range(self.c["n"]):
            for a in self.policy.action_space:
                with sut("failed", self.where):
                    qa = f["v"](self.env.S[s], a)
                want = self.q(got, s, a.value, f["gamma"])
                check(abs(qa - want) <= 1e-6 * (1 + abs(want)), "action-value",
                      lambda: "%s: value of action %d in state %d is %s, expected %s" % (self.where, a.value, s, qa, want))
        self.p.hit("values")
        self.p.event("dp", slot, [round(float(x), 5) for x in got])
        self.p.state("dp", f["gamma"], f["threshold"], self.c["n"], self.c["A"], len(fits))

    def dpreset(self, slot, clear):
        f = self.vfs.get(("dp", slot))
        if f:
            f["v"].reset(clear)
            f["V"] = None

    def estimate(self, gamma, k, fail):
        from reagent.ope.trainers.rl_tabular_trainers import EstimatedStateValueFunction

        start = len(self.env.episodes)
        failed, v = self.faulty("the estimation", fail, lambda: EstimatedStateValueFunction(self.policy, self.env, gamma, k))
        if failed:
            return
        eps = self.env.episodes[start:]
        for s in range(self.c["n"]):
            mine = [e for e in eps if e and e[0][0] == s]
            check(len(mine) == k, "episodes", lambda: "%s: %d episodes from state %d" % (self.where, len(mine), s))
            want = sum(sum(gamma ** i * t[2] for i, t in enumerate(e)) for e in mine) / k
            got = v(self.env.S[s])
            check(abs(got - want) <= 1e-8 * (1 + abs(want)), "estimated-value", lambda: "%s: state %d: %s, mean return %s" % (self.where, s, got, want))
        check(len(eps) == k * self.c["n"], "episodes", self.where)
        self.p.hit("values")
        self.p.state("est", k, gamma)

    def dptrain(self, gamma, threshold, fail):
        from reagent.ope.trainers.rl_tabular_trainers import DPTrainer

        failed, vf = self.faulty("the training", fail, lambda: DPTrainer(self.env, self.policy).train(gamma, threshold))
        if failed:
            self.adopt()
            return
        rows, e, A = self.actual(), self.model["epsilon"], self.c["A"]
        V = self.solve(rows, gamma)
        t = self.slack(gamma, threshold)
        tol = 2 * gamma * t + 1e-5
        for s, row in enumerate(rows):
            qs = [self.q(V, s, a, gamma) for a in range(A)]
            sup = [a for a in range(A) if row[a] > e / A + 1e-7]
            check(sup and all(qs[a] >= max(qs) - tol for a in sup), "not-greedy",
                  lambda: "%s: state %d: actions %s of values %s" % (self.where, s, sup, qs))
            check(all(abs(row[a] - (e / A + (1 - e) / len(sup))) < 1e-5 for a in sup), "ties",
                  lambda: "%s: state %d: %s" % (self.where, s, row))
            nxt = self.c["next"][s]
            for a in sup:
                check(all(b in sup for b in range(A) if nxt[b] == nxt[a]), "ties",
                      lambda: "%s: state %d: %s, but some actions are the same" % (self.where, s, row))
        got = [vf(s) for s in self.env.S]
        check(max(abs(a - b) for a, b in zip(got, V)) <= t + 1e-4, "value-of-trained-policy",
              lambda: "%s: %s, exact %s" % (self.where, got, V.tolist()))
        self.adopt()
        self.p.hit("trained_policies")
        self.p.event("dptrain", [round(float(x), 4) for x in V])
        self.p.state("dptrain", gamma, threshold, self.c["n"], A, self.c["ties"], e > 0)

    def mctrain(self, iterations, gamma, first, interval, fail):
        from reagent.ope.trainers.rl_tabular_trainers import MonteCarloTrainer

        n, A = self.c["n"], self.c["A"]
        start = len(self.env.episodes)
        failed, _ = self.faulty("the training", fail, lambda: MonteCarloTrainer(self.env, self.policy).train(iterations, gamma, first, interval))
        if failed:
            self.adopt()
            return
        eps = self.env.episodes[start:]
        check(len(eps) % n == 0 and len(eps) <= n * iterations, "episodes", lambda: "%s: %d episodes" % (self.where, len(eps)))
        total, done = {}, 0
        m = copy.deepcopy(self.model)
        stable = False
        for i in range(1, len(eps) // n + 1):
            check(not stable, "episodes", lambda: "%s: went on after the policy had settled" % self.where)
            for j, ep in enumerate(eps[(i - 1) * n:i * n]):
                check(ep and ep[0][0] == j, "episode-start", lambda: "%s: episode %d of iteration %d starts with %s" % (self.where, j, i, ep[:1]))
                for k, gs in visits(ep, gamma, first, lambda t: t[:2]).items():
                    total[k] = total.get(k, 0.0) + sum(gs)
            if i % interval == 0:
                move = 0.0
                for s in range(n):
                    x = [total.get((s, a), 0.0) for a in range(A)]
                    w = [math.exp(v - max(x)) for v in x]
                    new = [v / sum(w) for v in w]
                    old = m["probs"].get(s, [1.0 / A] * A)
                    move = max(move, math.sqrt(sum((a - b) ** 2 for a, b in zip(old, new))))
                    m["probs"][s] = new
                stable = move < 1e-7
                done = move < 1e-5
        check(len(eps) == n * iterations or stable or done, "episodes", lambda: "%s: stopped after %d of %d iterations, unsettled" % (
            self.where, len(eps) // n, iterations))
        for s, row in enumerate(self.actual()):
            want = self.probs(m, s)
            check(max(abs(a - b) for a, b in zip(row, want)) < 1e-4, "trained-policy",
                  lambda: "%s: the actions of state %d have probabilities %s, the returns imply %s" % (self.where, s, row, want))
        self.adopt()
        self.p.hit("trained_policies")
        self.p.event("mctrain", len(eps), sorted((k, round(v, 5)) for k, v in total.items())[:8])
        self.p.state("mctrain", iterations, gamma, first, interval, len(eps) // n)

    # ------------------------------------------------------------ files
    def save(self, slot, fault, epsilon):
        disk = self.disk
        path = os.path.join(disk.root, "policy%d" % slot)
        old = self.saved.get(slot, [])
        mine = copy.deepcopy(self.model)
        with disk:
            if fault and fault[0] in ("crash", "enospc", "eio"):
                disk.arm(*fault)
            try:
                with sut("failed", self.where):
                    ok = self.policy.save(path)
            except SimCrash:
                ok = None
            fired = disk.fired
            disk.restart()
        if ok is None:
            self.saved[slot] = [None] + [m for m in old if m] + [mine]
            self.fresh(epsilon)
            return
        check(bool(ok) or fired, "save-refused", self.where)
        self.saved[slot] = [mine] if ok else [None] + [m for m in old if m] + [mine]
        if fault and fault[0] in ("tear", "lose") and os.path.exists(path):
            self.p.fault("file_" + fault[0])
            if fault[0] == "lose":
                os.remove(path)
                self.saved[slot] = [None]
            else:
                size = os.path.getsize(path)
                keep = int(size * fault[2])
                with open(path, "r+b") as f:
                    f.truncate(keep)
                if keep < size:
                    self.saved[slot] = [None]
        self.judge_policy()

    def load(self, slot, epsilon):
        path = os.path.join(self.disk.root, "policy%d" % slot)
        if epsilon is not None:  # into a policy of another process
            self.fresh(epsilon)
        with sut("failed", self.where):
            ok = self.policy.load(path)
        may = self.saved.get(slot, [None])
        if not ok:
            check(None in may, "load-failed", lambda: "%s: a saved policy could not be loaded" % self.where)
            self.judge_policy()  # nothing changed
            self.p.hit("refused_loads")
            return
        for m in may:
            if m is None:
                continue
            self.model = copy.deepcopy(m)
            try:
                self.judge_policy()
                self.p.hit("loads")
                return
            except Violation as e:
                err = e
        if all(m is None for m in may):
            raise Violation("load-invented", "%s: nothing complete was saved, but a policy was loaded" % self.where)
        raise Violation("loaded-policy", str(err))


SCENARIO = T05()
