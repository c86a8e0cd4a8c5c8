"""G03: policies draw from the distribution they report, never an action that is ruled out."""
import math
import random
import warnings

from dst.core import HarnessError, Scenario, Violation, check, sut

L = 32.0  # -ln of the chance that one frequency bound fails on a correct tree


class NetFault(RuntimeError):
    """the simulated network failed"""



def freq_ok(hits, n, p):
    p = min(max(p, 0.0), 1.0)
    return abs(hits / n - p) <= math.sqrt(2 * p * (1 - p) * L / n) + L / n


def logp_close(a, p, tol=2e-4):
    """reported log-probability a against the probability p"""
    if p <= 0:
        return a < -18.0
    if p < 1e-6:
        return a < math.log(p) + 3
    return abs(a - math.log(p)) <= tol * (1 + abs(math.log(p)))


DISCRETE = ["softmax", "greedy", "epsilon"]
KINDS = (["dqn"] * 6 + ["parametric"] * 2 + ["serving_dqn", "serving_param", "random_discrete", "random_discrete",
         "random_multi", "random_box", "gauss", "gauss", "gauss_sampler", "fc_actor", "dirichlet", "frechet", "frechet",
         "slate", "serving_slate"])


class World:
    def __init__(self, case, probe):
        self.case, self.probe = case, probe
        self.rng = random.Random("g03-%s" % case["seed"])
        self.fail = False


class G03(Scenario):
    id = "G03"
    runs = {"quick": 800, "thorough": 120000}
    rule = ("a case is a policy and a history of single acts, bulk draws, repeated questions for log-probabilities, decays, "
            "learner steps that change the network and network failures; non-trivial when at least one draw was compared "
            "with the distribution it should come from")
    components = {"real": ["reagent.gym.policies (samplers, scorers, random and predictor policies)", "reagent.samplers.frechet",
                           "reagent.models (DQN, dueling-free critic, actors)", "reagent.prediction.predictor_wrapper"],
                  "stub": ["the learner between acts (parameters are overwritten)", "observations"]}
    assumptions = ["frequency bounds fail on a correct tree with probability below 1e-13 each",
                   "continuous log-probabilities are compared away from the squashing limits only"]

    def setup(self):
        warnings.simplefilter("ignore")
        import logging
        logging.disable(logging.CRITICAL)
        import reagent_compat  # noqa
        from checks import train_common
        train_common.stub_missing()
        import reagent.gym.policies.predictor_policies  # noqa
        import reagent.gym.policies.random_policies  # noqa
        import reagent.samplers  # noqa
        import reagent.models.actor  # noqa

    # -------------------------------------------------------------- planning
    def plan(self, rng, index, tier):
        kind = rng.choice(KINDS)
        c = {"kind": kind, "A": rng.choice([1, 2, 3, 4, 7]), "D": rng.choice([1, 2, 3]),
             "scale": rng.choice([0.0, 0.1, 1.0, 5.0, 30.0]), "bn": rng.random() < 0.3, "drop": rng.random() < 0.3}
        if kind in ("dqn", "parametric"):
            c["sampler"] = rng.choice(DISCRETE)
            c["atoms"] = rng.choice([None, None, 4])
            c["T"] = rng.choice([0.05, 0.3, 1.0, 2.5, 20.0])
            c["eps"] = rng.choice([0.0, 0.05, 0.3, 0.5, 1.0])
            c["decay"] = rng.choice([1.0, 0.9, 0.5])
            c["min"] = rng.choice([0.0, 0.02, 0.05]) if c["eps"] >= 0.05 else 0.0
        if kind == "serving_dqn":
            c["soft"] = rng.random() < 0.6
            c["T"] = rng.choice([0.05, 0.3, 1.0, 2.5, 20.0])
        if kind == "random_multi":
            c["nvec"] = [rng.choice([1, 2, 3, 5]) for _ in range(rng.choice([1, 2, 3]))]
        if kind == "frechet":
            c["A"] = rng.choice([1, 2, 3, 4])
            c["shape"] = rng.choice([0.3, 1.0, 2.0, 5.0])
            c["logs"] = rng.random() < 0.5
            c["topk"] = rng.choice([None, 1, 2, 3, 4])
            if c["topk"]:
                c["topk"] = min(c["topk"], c["A"])
            c["equiv"] = rng.choice([None, 1, 2])
            if c["equiv"] and c["equiv"] > (c["topk"] or c["A"]):
                c["equiv"] = None
        if "slate" in kind:
            c["k"] = rng.randint(1, c["A"])
        if kind == "fc_actor":
            c["var"] = rng.choice([None, 0.05, 0.3])
        faulty = rng.random() < 0.4
        ops = []
        for _ in range(rng.choice([3, 6, 12, 25] if tier == "quick" else [6, 25, 60])):
            x = rng.random()
            mask = rng.random() < 0.5
            if x < 0.42:
                ops.append(["act", int(mask)])
            elif x < 0.52:
                ops.append(["bulk", int(mask), rng.choice([300, 1500, 4000])])
            elif x < 0.66:
                ops.append(["logp", int(mask)])
            elif x < 0.80:
                ops.append(["update"])
            elif x < 0.92 or not faulty:
                ops.append(["learn"])
            else:
                ops.append(["fail", int(mask)])
        ops += [["act", 1], ["bulk", 0, 2000], ["logp", 0]]
        c["ops"] = ops
        return c

    def shrink(self, case):
        for k, v in (("A", 2), ("D", 1), ("bn", False), ("drop", False), ("scale", 1.0), ("atoms", None), ("T", 1.0),
                     ("decay", 1.0)):
            if k in case and case[k] != v and not (k == "A" and (case["kind"] == "frechet" or "k" in case)):
                yield dict(case, **{k: v})

    def nontrivial(self, case, probe):
        return probe.hits["draws"] > 0

    # ---------------------------------------------------------------- network
    def net(self, w):
        import torch
        from reagent.models.actor import (DirichletFullyConnectedActor, FullyConnectedActor, GaussianFullyConnectedActor)
        from reagent.models.critic import FullyConnectedCritic
        from reagent.models.dqn import FullyConnectedDQN

        c = w.case
        D, A = c["D"], c["A"]
        kind = c["kind"]
        if kind in ("dqn", "serving_dqn"):
            n = FullyConnectedDQN(D, A, sizes=[5], activations=["relu"], num_atoms=c.get("atoms"),
                                  use_batch_norm=c["bn"], dropout_ratio=0.5 if c["drop"] else 0.0)
        elif kind in ("parametric", "serving_param"):
            n = FullyConnectedCritic(D, A, sizes=[5], activations=["relu"], use_batch_norm=c["bn"])
        elif "slate" in kind:
            n = FullyConnectedCritic(D, 2, sizes=[5], activations=["relu"], use_batch_norm=c["bn"])
        elif kind in ("gauss", "gauss_sampler"):
            n = GaussianFullyConnectedActor(D, A, sizes=[5], activations=["relu"], use_batch_norm=c["bn"],
                                            use_layer_norm=c["drop"] and A > 1)
        elif kind == "fc_actor":
            n = FullyConnectedActor(D, A, sizes=[5], activations=["relu"], use_batch_norm=c["bn"], exploration_variance=c["var"])
        elif kind == "dirichlet":
            n = DirichletFullyConnectedActor(D, max(A, 2), sizes=[5], activations=["relu"], use_batch_norm=c["bn"])
        else:
            return None
        inner = n.forward

        def forward(*a, **k):
            if w.fail:
                w.fail = False
                w.probe.fault("network_error")
                raise NetFault("simulated network failure")
            return inner(*a, **k)

        if "serving" not in kind:
            n.forward = forward
        else:
            w.plain = n
        return n

    def relearn(self, w):
        import torch

        g = torch.Generator().manual_seed(w.rng.randrange(2 ** 31))
        with torch.no_grad():
            for p in w.network.parameters():
                p.copy_(torch.randn(p.shape, generator=g) * 0.5 * w.case["scale"])
            last = [p for p in w.network.parameters()][-1]
            if w.case["kind"] in ("gauss", "gauss_sampler") and not (w.case["drop"] and w.case["A"] > 1):
                # keep the densities where single precision can express them
                ps = list(w.network.parameters())
                for p in ps[-2:]:
                    p.copy_((p * 0.2).clamp(-0.4, 0.4))
                half = last.shape[0] // 2
                last[half:] = last[half:].clamp(-1.0, 0.3)
            for b in w.network.buffers():
                if b.dtype.is_floating_point:
                    b.copy_(torch.rand(b.shape, generator=g) + 0.5)

    # ----------------------------------------------------------------- policy
    def build(self, w):
        import gym
        import numpy as np
        import torch
        from reagent.gym.policies import Policy
        from reagent.gym.policies import random_policies as rp
        from reagent.gym.policies.predictor_policies import create_predictor_policy_from_model
        from reagent.gym.policies.samplers import discrete_sampler as ds
        from reagent.gym.policies.samplers.continuous_sampler import GaussianSampler
        from reagent.gym.policies.samplers.top_k_sampler import TopKSampler
        from reagent.gym.policies.scorers import discrete_scorer as sc
        from reagent.gym.policies.scorers.continuous_scorer import sac_scorer
        from reagent.gym.policies.scorers.slate_q_scorer import slate_q_scorer
        from reagent.parameters import RLParameters
        from reagent.samplers import FrechetSort
        from reagent.workflow.model_managers.actor_critic_base import ActorPolicyWrapper

        c = w.case
        kind = c["kind"]
        w.network = self.net(w)
        if w.network is not None:
            self.relearn(w)
        w.eps = c.get("eps")
        if kind in ("dqn", "parametric"):
            if c["sampler"] == "softmax":
                w.sampler = ds.SoftmaxActionSampler(temperature=c["T"])
            elif c["sampler"] == "greedy":
                w.sampler = ds.GreedyActionSampler()
            else:
                w.sampler = ds.EpsilonGreedyActionSampler(c["eps"], c["decay"], c["min"])
            scorer = sc.discrete_dqn_scorer(w.network) if kind == "dqn" else sc.parametric_dqn_scorer(c["A"], w.network)
            w.policy = Policy(scorer=scorer, sampler=w.sampler)
        elif kind.startswith("serving"):
            w.policy = None  # built at each change of the network: a serving model is frozen
            self.publish(w)
        elif kind == "random_discrete":
            class E:
                action_space = gym.spaces.Discrete(c["A"])
            w.policy = rp.make_random_policy_for_env(E())
        elif kind == "random_multi":
            class E:
                action_space = gym.spaces.MultiDiscrete(c["nvec"])
            w.policy = rp.make_random_policy_for_env(E())
        elif kind == "random_box":
            class E:
                action_space = gym.spaces.Box(low=-3, high=5, shape=(c["A"],))
            w.policy = rp.make_random_policy_for_env(E())
        elif kind == "gauss_sampler":
            w.sampler = GaussianSampler(w.network)
            w.policy = Policy(scorer=sac_scorer(w.network), sampler=w.sampler)
        elif kind in ("gauss", "fc_actor", "dirichlet"):
            w.policy = ActorPolicyWrapper(w.network)
        elif kind == "frechet":
            w.sampler = FrechetSort(shape=c["shape"], topk=c["topk"], equiv_len=c["equiv"], log_scores=c["logs"])
            w.policy = Policy(scorer=lambda obs: obs, sampler=w.sampler)
        elif kind == "slate":
            w.policy = Policy(scorer=slate_q_scorer(c["A"], w.network), sampler=TopKSampler(k=c["k"]))
        else:
            raise HarnessError(kind)

    def publish(self, w):
        import copy
        import reagent.types as rlt
        from reagent.gym.policies.predictor_policies import create_predictor_policy_from_model
        from reagent.parameters import NormalizationParameters, RLParameters
        from reagent.prediction import predictor_wrapper as pw
        from reagent.preprocessing.preprocessor import Preprocessor

        c = w.case

        def pre(n):
            return Preprocessor({i: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0)
                                 for i in range(n)}, use_gpu=False)

        m = copy.deepcopy(w.network).eval()
        if c["kind"] == "serving_dqn":
            names = ["a%d" % i for i in range(c["A"])]
            cfg = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name="f%d" % i, feature_id=i)
                                                              for i in range(c["D"])])
            mod = pw.DiscreteDqnPredictorWrapper(pw.DiscreteDqnWithPreprocessor(m, pre(c["D"]).eval(), cfg), names, cfg)
            rl = RLParameters(softmax_policy=c["soft"], temperature=c["T"])
            w.policy = create_predictor_policy_from_model(mod, rl_parameters=rl)
        else:
            na = c["A"] if c["kind"] == "serving_param" else 2
            mod = pw.ParametricDqnPredictorWrapper(pw.ParametricDqnWithPreprocessor(m, pre(c["D"]).eval(), pre(na).eval()))
            kw = dict(max_num_actions=c["A"])
            if c["kind"] == "serving_slate":
                kw["slate_size"] = c["k"]
            w.policy = create_predictor_policy_from_model(mod, **kw)
        w.frozen = m

    # ------------------------------------------------------------- references
    def obs(self, w, n=1):
        """one observation (repeated n times)"""
        import torch
        import reagent.types as rlt

        c = w.case
        x = torch.tensor([[w.rng.uniform(-1, 1) for _ in range(c["D"])]]).float()
        docs = None
        if "slate" in c["kind"]:
            f = torch.tensor([[[w.rng.uniform(-1, 1) for _ in range(2)] for _ in range(c["A"])]]).float()
            v = torch.tensor([[w.rng.uniform(-1, 1) for _ in range(c["A"])]]).float()
            docs = rlt.DocList(f.repeat(n, 1, 1), value=v.repeat(n, 1))
        return rlt.FeatureData(x.repeat(n, 1), candidate_docs=docs)

    def scores(self, w, o):
        """what the network says for the (first row of the) observation, computed apart from the policy"""
        import copy
        import torch
        import torch.nn.functional as F
        import reagent.types as rlt

        c = w.case
        kind = c["kind"]
        src = w.frozen if kind.startswith("serving") else w.network
        d = dict(src.__dict__)
        had = d.pop("forward", None)
        n = copy.copy(src)
        n.__dict__ = d  # the same parameters, without the failing wrapper
        n = copy.deepcopy(n).eval()
        x = o.float_features[:1]
        with torch.no_grad():
            if kind in ("dqn", "serving_dqn"):
                s = n(rlt.FeatureData(x))
                if s.dim() == 3:
                    s = s.mean(dim=2)
                return s[0].double()
            if kind in ("parametric", "serving_param"):
                return torch.stack([n(rlt.FeatureData(x), rlt.FeatureData(F.one_hot(torch.tensor([a]), c["A"]).float()))[0, 0]
                                    for a in range(c["A"])]).double()
            if "slate" in kind:
                f, v = o.candidate_docs.float_features[0], o.candidate_docs.value[0]
                q = torch.stack([n(rlt.FeatureData(x), rlt.FeatureData(f[a:a + 1]))[0, 0] for a in range(c["A"])])
                return (torch.softmax(v, 0) * q).double()
            if kind in ("gauss", "gauss_sampler"):
                both = n.fc(x)
                loc, scale = both[:, : n.action_dim], both[:, n.action_dim:]
                if n.use_layer_norm:
                    loc, scale = n.loc_layer_norm(loc), n.scale_layer_norm(scale)
                return [loc[0].double(), scale.clamp(-20.0, 2.0)[0].double()]
            if kind == "fc_actor":
                return n.fc(x)[0].double()
            if kind == "dirichlet":
                return (n.fc(x).exp() + 1e-6)[0].double()

    def dist(self, w, s, mask):
        """(p, groups): the probability of every action; actions in one group may share theirs in any way"""
        import torch

        c = w.case
        A = c["A"]
        valid = [True] * A if mask is None else [bool(b) for b in mask]
        if c["kind"] == "random_discrete":
            k = sum(valid)
            return [1.0 / k if v else 0.0 for v in valid], None
        kind = c.get("sampler") or ("softmax" if c.get("soft") else "greedy")
        sv = [float(x) if v else -math.inf for x, v in zip(s.tolist(), valid)]
        top = max(sv)
        near = [i for i in range(A) if valid[i] and sv[i] >= top - 1e-5 * (1 + abs(top))]
        if kind == "softmax":
            z = [(x - top) / c["T"] for x in sv]
            e = [math.exp(x) if x > -700 else 0.0 for x in z]
            t = sum(e)
            return [x / t for x in e], None
        eps = w.eps if kind == "epsilon" else 0.0
        k = sum(valid)
        p = [eps / k if v else 0.0 for v in valid]
        if len(near) == 1:
            p[near[0]] += 1 - eps
            return p, None
        for i in near:
            p[i] += (1 - eps) / len(near)
        return p, near

    def mask(self, w, on):
        import numpy as np

        A = w.case["A"]
        if not on or w.case["kind"] not in ("dqn", "serving_dqn", "random_discrete"):
            return None
        m = np.array([w.rng.random() < 0.6 for _ in range(A)])
        m[w.rng.randrange(A)] = True
        return m

    # ------------------------------------------------------------------- acts
    def act(self, w, o, mask):
        from reagent.gym.policies import Policy  # noqa

        kind = w.case["kind"]
        if kind == "serving_dqn":
            import torch
            return w.policy.act((o.float_features, torch.ones_like(o.float_features)), mask)
        if kind == "serving_param":
            import torch
            return w.policy.act((o.float_features, torch.ones_like(o.float_features)))
        if kind == "frechet":
            return w.policy.act(o)
        if mask is None:
            return w.policy.act(o)
        return w.policy.act(o, mask)

    def run(self, case, probe):
        import torch

        w = World(case, probe)
        with sut("construct", "building the policy"):
            self.build(w)
        if w.network is not None and not case["kind"].startswith("serving"):
            w.network.train()
        for op in case["ops"]:
            probe.steps += 1
            if op[0] == "learn":
                if w.network is not None:
                    self.relearn(w)
                    if case["kind"].startswith("serving"):
                        self.publish(w)
                probe.event("learn")
            elif op[0] == "update":
                if getattr(w, "sampler", None) is None:
                    continue
                with sut("update-failed", "update of the sampler"):
                    w.sampler.update()
                if case.get("sampler") == "epsilon":
                    w.eps = max(w.eps * case["decay"], case["min"])
                    probe.hit("decays")
                probe.event("update")
            else:
                getattr(self, "do_" + self.family(case["kind"]))(w, op)
            if w.network is not None and not case["kind"].startswith("serving"):
                check(w.fail or w.network.training or op[0] == "fail", "mode-changed",
                      "acting left the network the learner trains in evaluation mode")
                w.network.train()
        probe.state(case["kind"], case["A"], case.get("sampler"), case.get("atoms"), bool(w.eps), case["bn"])

    @staticmethod
    def family(kind):
        if kind in ("dqn", "parametric", "serving_dqn", "serving_param", "random_discrete"):
            return "discrete"
        if kind in ("slate", "serving_slate"):
            return "slate"
        if kind in ("gauss", "gauss_sampler"):
            return "gauss"
        return kind

    def failing(self, w, op, o, mask):
        """the network fails under this act: the caller must be told"""
        if op[0] != "fail":
            return False
        if w.network is None or w.case["kind"].startswith("serving"):
            return True
        w.fail = True
        try:
            self.act(w, o, mask)
        except NetFault:
            w.probe.event("fail")
            w.fail = False
            return True
        if w.fail:  # this policy does not go through forward()
            w.fail = False
            return True
        raise Violation("failure-hidden", "the network failed but the policy returned an action")

    def one_hot(self, a, A):
        check(tuple(a.shape[1:]) == (A,), "shape", "action of shape %s for %d actions" % (tuple(a.shape), A))
        ok = ((a == 0) | (a == 1)).all() and (a.sum(1) == 1).all()
        check(bool(ok), "not-one-hot", "the action is not one of the actions: %s" % a[:3].tolist())
        return a.argmax(1)

    def do_discrete(self, w, op):
        import torch

        c, probe = w.case, w.probe
        A = c["A"]
        mask = self.mask(w, op[1])
        o = self.obs(w)
        if self.failing(w, op, o, mask):
            return
        s = None if c["kind"] == "random_discrete" else self.scores(w, o)
        p, ties = self.dist(w, s, mask)

        def agree(i, lp, where):
            if ties and i in ties:
                # ties may be broken in any way: anything between exploring it and choosing it
                eps = (w.eps or 0.0) if c.get("sampler") == "epsilon" else 0.0
                k = A if mask is None else int(mask.sum())
                check(lp <= math.log(1 - eps + eps / k) + 1e-3, "log-prob", "%s reports log-prob %g for a tied action" % (where, lp))
                return
            check(logp_close(lp, p[i]), "log-prob", "%s reports log-prob %.6g (probability %.6g) for action %d, which has "
                  "probability %.6g" % (where, lp, math.exp(min(lp, 50)), i, p[i]), kind=c["kind"])

        if op[0] == "act" or (op[0] == "bulk" and c["kind"] == "random_discrete"):
            n = 1 if op[0] == "act" else 1200
            counts = [0] * A
            for _ in range(n):
                with sut("act-failed", "act"):
                    out = self.act(w, o, mask)
                a = self.one_hot(out.action, A)
                check(len(a) == 1, "shape", "%d actions for one observation" % len(a))
                i = int(a[0])
                counts[i] += 1
                check(p[i] > 0 and (mask is None or bool(mask[i])), "impossible-action",
                      "action %d was drawn, which has probability 0%s" % (i, "" if mask is None else " under mask %s" % mask.tolist()))
                check(out.log_prob is not None and out.log_prob.numel() == 1, "log-prob", "no single log-prob is reported")
                check(not out.action.requires_grad and not out.log_prob.requires_grad, "graph", "the policy's output is attached to the graph")
                agree(i, float(out.log_prob.reshape(-1)[0]), "act")
                probe.hit("draws")
            if n > 1:
                self.frequencies(counts, n, p, ties, probe)
            probe.event("act", counts if n == 1 else None)
            return
        if c["kind"] == "random_discrete":
            return
        # the sampler asked in bulk, with the scores the scorer gives
        n = op[2] if op[0] == "bulk" else 1
        with sut("act-failed", "the scorer"):
            import reagent.types as rlt
            x = o.float_features
            if c["kind"] == "serving_dqn":
                sc = w.policy.scorer(rlt.ServingFeatureData(float_features_with_presence=(x, torch.ones_like(x)),
                                                            id_list_features={}, id_score_list_features={}), mask)
            elif c["kind"] == "serving_param":
                sc = w.policy.scorer((x, torch.ones_like(x)))
            elif c["kind"] == "dqn":
                sc = w.policy.scorer(o, mask)
            else:
                sc = w.policy.scorer(o)
        check(tuple(sc.shape) == (1, A), "shape", "scores of shape %s" % (tuple(sc.shape),))
        smp = w.policy.sampler
        rows = sc.repeat(n, 1)
        keep = rows.clone()
        if op[0] == "bulk":
            with sut("act-failed", "sample_action"):
                out = smp.sample_action(rows)
            a = self.one_hot(out.action, A)
            counts = torch.bincount(a, minlength=A).tolist()
            for i, k in enumerate(counts):
                check(not k or p[i] > 0, "impossible-action", "action %d was drawn %d times, which has probability 0" % (i, k))
            self.frequencies(counts, n, p, ties, probe)
            lps = out.log_prob.reshape(-1)
            check(len(lps) == n, "shape", "%d log-probs for %d actions" % (len(lps), n))
            for i in range(A):
                if counts[i]:
                    v = lps[a == i]
                    agree(i, float(v.min()), "sample_action")
                    agree(i, float(v.max()), "sample_action")
            with sut("act-failed", "log_prob"):
                again = smp.log_prob(rows, out.action).reshape(-1)
            check(torch.allclose(again.double(), lps.double(), atol=1e-4), "log-prob-differs",
                  "log_prob() of the drawn actions differs from what was reported with them")
            check(torch.equal(rows, keep), "scores-changed", "sampling changed the scores it was given")
            probe.hit("draws", n)
            probe.event("bulk", counts)
        else:
            eye = torch.eye(A).long()
            rows = sc.repeat(A, 1)
            with sut("act-failed", "log_prob"):
                lp = smp.log_prob(rows, eye).reshape(-1)
            check(len(lp) == A, "shape", "%d log-probs for %d actions" % (len(lp), A))
            for i in range(A):
                agree(i, float(lp[i]), "log_prob")
            tot = float(lp.double().exp().sum())
            check(abs(tot - 1) < 1e-3, "log-prob", "the probabilities of all actions add up to %g" % tot)
            probe.event("logp", [round(x, 4) for x in p])

    def frequencies(self, counts, n, p, ties, probe):
        skip = set(ties or ())
        for i, k in enumerate(counts):
            if i not in skip:
                check(freq_ok(k, n, p[i]), "frequency", "action %d has probability %.4f but was drawn %d times in %d"
                      % (i, p[i], k, n))
        if skip:
            check(freq_ok(sum(counts[i] for i in skip), n, sum(p[i] for i in skip)), "frequency",
                  "tied best actions were drawn %d times in %d" % (sum(counts[i] for i in skip), n))
        probe.hit("frequencies")

    # ---------------------------------------------------------------- slates
    def do_slate(self, w, op):
        import torch

        c = w.case
        o = self.obs(w)
        if self.failing(w, op, o, None):
            return
        s = self.scores(w, o)
        with sut("act-failed", "act"):
            out = self.act(w, o, None)
        a = out.action
        check(tuple(a.shape) == (1, c["k"]), "shape", "slate of shape %s, asked for %d" % (tuple(a.shape), c["k"]))
        ids = a[0].tolist()
        check(len(set(ids)) == len(ids) and all(0 <= i < c["A"] for i in ids), "slate", "slate %s of %d candidates" % (ids, c["A"]))
        got = [float(s[i]) for i in ids]
        want = sorted(s.tolist(), reverse=True)[:c["k"]]
        check(all(abs(x - y) <= 1e-4 * (1 + abs(y)) for x, y in zip(got, want)), "slate",
              "slate %s has scores %s, the best are %s" % (ids, got, want))
        check(out.log_prob is None or float(out.log_prob.reshape(-1)[0]) == 0.0, "log-prob", "a certain slate has log-prob 0")
        w.probe.hit("draws")
        w.probe.event("slate", ids)

    # --------------------------------------------------------------- rankings
    def do_frechet(self, w, op):
        import itertools
        import torch

        c, probe = w.case, w.probe
        A = c["A"]
        raw = [w.rng.uniform(-1.5, 1.5) for _ in range(A)]
        sc = torch.tensor([raw]) if c["logs"] else torch.tensor([raw]).exp()
        topk = c["topk"] or A
        upto = c["equiv"] or topk

        def plp(perm, k):
            left = list(range(A))
            lp = 0.0
            for i in perm[:k]:
                z = [raw[j] * c["shape"] for j in left]
                m = max(z)
                lp += raw[i] * c["shape"] - m - math.log(sum(math.exp(x - m) for x in z))
                left.remove(i)
            return lp

        if op[0] == "fail":
            return
        n = 1 if op[0] == "act" else 1500
        with sut("act-failed", "sample_action"):
            out = self.act(w, sc.repeat(n, 1), None)
        a, lps = out.action, out.log_prob.reshape(-1)
        check(tuple(a.shape) == (n, topk), "shape", "%s rankings for batch %d, top %d" % (tuple(a.shape), n, topk))
        check(len(lps) == n, "shape", "%d log-probs for %d rankings" % (len(lps), n))
        seen = {}
        for r, lp in zip(a.tolist(), lps.tolist()):
            check(len(set(r)) == topk and all(0 <= i < A for i in r), "slate", "ranking %s of %d items" % (r, A))
            want = plp(r, upto)
            check(abs(lp - want) < 1e-3, "log-prob", "ranking %s has log-prob %.5f, reported %.5f" % (r, want, lp))
            seen[tuple(r)] = seen.get(tuple(r), 0) + 1
        probe.hit("draws", n)
        if n > 1:
            for r in itertools.permutations(range(A), topk):
                check(freq_ok(seen.get(r, 0), n, math.exp(plp(r, topk))), "frequency",
                      "ranking %s has probability %.4f but was drawn %d times in %d" % (list(r), math.exp(plp(r, topk)), seen.get(r, 0), n))
            probe.hit("frequencies")
        if op[0] == "logp":
            for r in itertools.permutations(range(A)):
                with sut("act-failed", "log_prob"):
                    lp = float(w.sampler.log_prob(sc, torch.tensor([list(r)])).reshape(-1)[0])
                check(abs(lp - plp(list(r), upto)) < 1e-3, "log-prob", "log_prob of %s is %.5f, not %.5f" % (r, lp, plp(list(r), upto)))
        probe.event("ranking", a[0].tolist())

    # ------------------------------------------------------------- continuous
    def do_random_multi(self, w, op):
        import torch

        if op[0] == "fail":
            return
        nv = w.case["nvec"]
        n = 1 if op[0] != "bulk" else op[2]
        with sut("act-failed", "act"):
            out = self.act(w, self.obs(w, n), None)
        check(tuple(out.action.shape) == (n, len(nv)), "shape", "actions of shape %s" % (tuple(out.action.shape),))
        want = -sum(math.log(k) for k in nv)
        lp = out.log_prob.reshape(-1)
        check(len(lp) == n and bool(((lp - want).abs() < 1e-4).all()), "log-prob", "log-prob %s, not %g" % (lp[:3].tolist(), want))
        for j, k in enumerate(nv):
            col = out.action[:, j]
            check(bool(((col >= 0) & (col < k)).all()), "impossible-action", "component %d outside [0, %d)" % (j, k))
            if n > 1:
                self.frequencies(torch.bincount(col.long(), minlength=k).tolist(), n, [1.0 / k] * k, None, w.probe)
        w.probe.hit("draws", n)
        w.probe.event("multi", out.action[0].tolist())

    def do_random_box(self, w, op):
        import torch

        if op[0] == "fail":
            return
        A = w.case["A"]
        n = 1 if op[0] != "bulk" else op[2]
        with sut("act-failed", "act"):
            out = self.act(w, self.obs(w, n), None)
        a = out.action
        check(tuple(a.shape) == (n, A), "shape", "actions of shape %s" % (tuple(a.shape),))
        from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE as R
        lo, hi = R
        check(bool(((a >= lo) & (a <= hi)).all()), "impossible-action", "an action is outside %s" % (R,))
        want = -A * math.log(hi - lo)
        lp = out.log_prob.reshape(-1)
        check(len(lp) == n and bool(((lp - want).abs() < 1e-4).all()), "log-prob", "log-prob %s, not %g" % (lp[:3].tolist(), want))
        if n > 1:
            for j in range(A):
                b = ((a[:, j] - lo) / (hi - lo) * 4).long().clamp(0, 3)
                self.frequencies(torch.bincount(b, minlength=4).tolist(), n, [0.25] * 4, None, w.probe)
        w.probe.hit("draws", n)
        w.probe.event("box", [round(x, 4) for x in a[0].tolist()])

    def do_gauss(self, w, op):
        import torch

        c, probe = w.case, w.probe
        n = op[2] if op[0] == "bulk" else (1 if op[0] == "act" else 8)
        o = self.obs(w, n)
        if self.failing(w, op, o, None):
            return
        loc, sl = self.scores(w, o)
        with sut("act-failed", "act"):
            out = self.act(w, o, None)
        a, lp = out.action.double(), out.log_prob.reshape(-1).double()
        check(tuple(a.shape) == (n, c["A"]) and len(lp) == n, "shape", "actions %s, log-probs %d" % (tuple(a.shape), len(lp)))
        check(bool((a.abs() <= 1).all()), "impossible-action", "an action is outside [-1, 1]")
        with sut("act-failed", "log_prob"):
            if c["kind"] == "gauss_sampler":
                again = w.sampler.log_prob(w.policy.scorer(o), out.action).reshape(-1)
            else:
                w.network.eval()
                with torch.no_grad():
                    again = w.network.get_log_prob(o, out.action).reshape(-1)
                w.network.train()
        if float(sl.min()) > -3:
            good = (a.abs() < 0.99).all(1)
            raw = torch.atanh(a.clamp(-0.9999, 0.9999))
            r = (raw - loc) / sl.exp()
            want = (-0.5 * r ** 2 - sl - 0.5 * math.log(2 * math.pi) - torch.log(1 - a ** 2 + 1e-6)).sum(1)
            tol = 0.02 + 2e-3 * want.abs()
            bad = good & ((lp - want).abs() > tol)
            check(not bool(bad.any()), "log-prob", "actions reported with log-prob %s have log-density %s"
                  % (lp[bad][:3].tolist(), want[bad][:3].tolist()))
            bad = good & ((again.double() - want).abs() > tol)
            check(not bool(bad.any()), "log-prob", "asked again, actions with log-density %s get log-prob %s"
                  % (want[bad][:3].tolist(), again[bad][:3].tolist()))
            if n > 100:
                for j in range(c["A"]):
                    m, s = float(loc[j]), float(sl[j].exp())
                    qs = [math.tanh(m + s * z) for z in (-0.67448975, 0.0, 0.67448975)]
                    if qs[0] < -0.9999 or qs[-1] > 0.9999:
                        continue
                    b = sum((a[:, j] > q + 0.0).long() for q in qs)
                    self.frequencies(torch.bincount(b, minlength=4).tolist(), n, [0.25] * 4, None, probe)
        probe.hit("draws", n)
        probe.event("gauss", [round(x, 3) for x in a[0].tolist()])

    def do_fc_actor(self, w, op):
        import torch

        c, probe = w.case, w.probe
        n = op[2] if op[0] == "bulk" else 1
        o = self.obs(w, n)
        if self.failing(w, op, o, None):
            return
        mu = self.scores(w, o)
        with sut("act-failed", "act"):
            out = self.act(w, o, None)
        a, lp = out.action.double(), out.log_prob.reshape(-1).double()
        check(tuple(a.shape) == (n, c["A"]) and len(lp) == n, "shape", "actions %s, log-probs %d" % (tuple(a.shape), len(lp)))
        check(bool((a.abs() <= 1).all()), "impossible-action", "an action is outside [-1, 1]")
        if c["var"] is None:
            check(bool(((a - mu).abs() < 1e-4).all()), "impossible-action", "the actor's action is not its output")
            check(bool((lp == 0).all()), "log-prob", "a certain action has log-prob 0")
        else:
            s = c["var"]
            good = (a.abs() < 0.999).all(1)
            r = (a - mu) / s
            want = (-0.5 * r ** 2 - math.log(s) - 0.5 * math.log(2 * math.pi)).sum(1)
            bad = good & ((lp - want).abs() > 0.02 + 1e-3 * want.abs())
            check(not bool(bad.any()), "log-prob", "actions reported with log-prob %s have log-density %s"
                  % (lp[bad][:3].tolist(), want[bad][:3].tolist()))
            if n > 100:
                for j in range(c["A"]):
                    k = int((a[:, j] > float(mu[j])).sum())
                    if abs(float(mu[j])) < 0.99:
                        self.frequencies([n - k, k], n, [0.5, 0.5], None, probe)
        probe.hit("draws", n)
        probe.event("fc", [round(x, 3) for x in a[0].tolist()])

    def do_dirichlet(self, w, op):
        import torch

        c, probe = w.case, w.probe
        n = op[2] if op[0] == "bulk" else 1
        o = self.obs(w, n)
        if self.failing(w, op, o, None):
            return
        conc = self.scores(w, o)
        if float(conc.min()) < 0.05 or float(conc.max()) > 500:
            return
        with sut("act-failed", "act"):
            out = self.act(w, o, None)
        a = out.action.double()
        check(tuple(a.shape) == (n, len(conc)), "shape", "actions %s" % (tuple(a.shape),))
        check(bool((a >= 0).all()) and bool(((a.sum(1) - 1).abs() < 1e-3).all()), "impossible-action", "an action does not add up to 1")
        if n > 100:
            t = float(conc.sum())
            for j in range(len(conc)):
                m = float(conc[j]) / t
                v = m * (1 - m) / (t + 1)
                bound = math.sqrt(2 * v * L / n) + L / n
                check(abs(float(a[:, j].mean()) - m) <= bound, "frequency", "component %d averages %.4f, expected %.4f"
                      % (j, float(a[:, j].mean()), m))
        probe.hit("draws", n)
        probe.event("dir", [round(x, 3) for x in a[0].tolist()])


SCENARIO = G03()
