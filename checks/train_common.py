"""Tiny actor-critic / Q-learning set-ups and straightforward reference learners.

Each Algo builds the real training module and a reference that applies the
published update to its own copies of the networks, network by network.
Everything runs in float64 so that the comparison can be tight."""
import copy
import hashlib
import json
import random

import torch
import torch.nn.functional as F

S = 3  # state features
NOISE = {"key": 0}
NET = {"dropout": 0.0}
_real_randn_like = torch.randn_like


def _randn_like(x, *a, **kw):
    """randomness seam: noise is a function of the batch and the shape, not of the order of draws"""
    h = hashlib.blake2b(repr((NOISE["key"], tuple(x.shape))).encode(), digest_size=7).digest()
    g = torch.Generator().manual_seed(int.from_bytes(h, "big"))
    return torch.randn(tuple(x.shape), generator=g, dtype=x.dtype)


def stub_missing():
    """packages that are not installed here and only needed to import the workflow modules"""
    import importlib.util
    import sys
    import types

    class Stub(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            v = type(k, (), {"__init__": lambda self, *a, **kw: None})
            setattr(self, k, v)
            return v

    for top, names in (("petastorm", ["petastorm", "petastorm.pytorch"]),
                       ("pyspark", ["pyspark", "pyspark.sql", "pyspark.sql.functions", "pyspark.sql.types"])):
        if top not in sys.modules and importlib.util.find_spec(top) is None:
            for n in names:
                sys.modules[n] = Stub(n)
                sys.modules[n].__path__ = []
            for n in names[1:]:
                a, b = n.rsplit(".", 1)
                setattr(sys.modules[a], b, sys.modules[n])


def setup():
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import reagent_compat  # noqa
    stub_missing()
    import pytorch_lightning as pl  # noqa
    import reagent.training  # noqa

    torch.set_num_threads(1)
    torch.randn_like = _randn_like


def noise(x):
    return _randn_like(x)


def f(x):
    import reagent.types as rlt

    return rlt.FeatureData(float_features=x)


def opt_union(cfg):
    from reagent.optimizer.union import Optimizer__Union, classes

    name, kw = cfg[0], dict(cfg[1])
    if cfg[2:]:
        kw["lr_schedulers"] = [sim_scheduler(cfg[2], cfg[3])]
    return Optimizer__Union(**{name: classes[name](**kw)})


_SCHED = []


def sim_scheduler(name, kw):
    """a schedule configuration; the shipped ones do not recognise the schedules of this torch version"""
    if not _SCHED:
        from reagent.core.dataclasses import dataclass
        from reagent.optimizer.scheduler import LearningRateSchedulerConfig

        @dataclass(frozen=True)
        class SimSchedule(LearningRateSchedulerConfig):
            name: str = ""
            text: str = "{}"

            def make_from_optimizer(self, optimizer):
                real = getattr(torch.optim.lr_scheduler, self.name)
                # the wrapper asks for a _LRScheduler, the base class of schedules in older torch versions
                cls = type(self.name, (real, torch.optim.lr_scheduler._LRScheduler), {})
                return cls(optimizer, **json.loads(self.text))

        _SCHED.append(SimSchedule)
    return _SCHED[0](name=name, text=json.dumps(kw))


class RefOpt:
    """plain torch optimizer (and schedule) over one network's parameters"""

    def __init__(self, cfg, params):
        self.params = list(params)
        self.opt = getattr(torch.optim, cfg[0])(self.params, **cfg[1])
        self.sched = getattr(torch.optim.lr_scheduler, cfg[2])(self.opt, **cfg[3]) if cfg[2:] else None

    def step(self, loss):
        grads = torch.autograd.grad(loss, self.params, allow_unused=True)
        for p, g in zip(self.params, grads):
            p.grad = g
        self.opt.step()
        for p in self.params:
            p.grad = None
        if self.sched:
            self.sched.step()


def fc_dqn(seed, out, atoms=None):
    from reagent.models.dqn import FullyConnectedDQN

    torch.manual_seed(seed)
    return FullyConnectedDQN(S, out, [4], ["tanh"], num_atoms=atoms, dropout_ratio=NET["dropout"]).double()


def critic(seed, adim, out=1):
    from reagent.models.critic import FullyConnectedCritic

    torch.manual_seed(seed)
    return FullyConnectedCritic(S, adim, [4], ["tanh"], output_dim=out).double()


GAP = [1e30]  # how far the last arg-max comparisons were from going the other way


def cast(x, dtype):
    """the same batch in another floating point precision"""
    if isinstance(x, torch.Tensor):
        return x.to(dtype) if x.is_floating_point() else x
    if isinstance(x, dict):
        return {k: cast(v, dtype) for k, v in x.items()}
    if hasattr(x, "__dataclass_fields__"):
        y = copy.copy(x)
        for k in x.__dataclass_fields__:
            object.__setattr__(y, k, cast(getattr(x, k), dtype))
        return y
    return x


def masked_argmax(q, mask):
    top = torch.where(mask > 0, q, torch.full_like(q, -1e30)).topk(min(2, q.shape[1]), 1)[0]
    if top.shape[1] == 2:
        GAP[0] = min(GAP[0], float((top[:, 0] - top[:, 1]).min()))
    return torch.where(mask > 0, q, torch.full_like(q, -1e30)).argmax(1, keepdim=True)


def propensities(scores, mask, temp):
    s = torch.where(mask > 0, scores / temp, torch.full_like(scores, -1e30))
    p = torch.softmax(s, dim=1) * (mask > 0)
    z = p.sum(1, keepdim=True)
    return torch.where(z > 0, p / torch.where(z > 0, z, torch.ones_like(z)), torch.zeros_like(p))


def rl_params(case):
    from reagent.parameters import RLParameters

    c = case["rl"]
    return RLParameters(
        gamma=c["gamma"], target_update_rate=c["tau"], maxq_learning=c["maxq"], temperature=c["temp"],
        reward_boost={"a%d" % i: b for i, b in enumerate(c["boost"])} if c["boost"] else None,
        use_seq_num_diff_as_time_diff=c["time"] == "diff", multi_steps=3 if c["time"] == "steps" else None,
        q_network_loss=c["loss"])


class Ref:
    """common parts of the reference learners"""

    def __init__(self, case, nets):
        self.case, self.c = case, case["rl"]
        self.n = {k: copy.deepcopy(v) for k, v in nets.items() if v is not None}
        self.o = {}
        for p in self.n.values():
            for q in p.parameters() if isinstance(p, torch.nn.Module) else [p]:
                q.requires_grad_(True)

    def params(self):
        out = {}
        for k, m in self.n.items():
            out[k] = [p.detach().clone() for p in (m.parameters() if isinstance(m, torch.nn.Module) else [m])]
        return out

    def has(self, k):
        return k in self.n

    def opt(self, name, cfg):
        m = self.n[name]
        self.o[name] = RefOpt(cfg, m.parameters() if isinstance(m, torch.nn.Module) else [m])

    def soft(self, *pairs):
        tau = self.c["tau"]
        with torch.no_grad():
            for t, s in pairs:
                if t in self.n and s in self.n:
                    for a, b in zip(self.n[t].parameters(), self.n[s].parameters()):
                        a.copy_((1 - tau) * a + tau * b)

    def loss(self, a, b):
        return F.smooth_l1_loss(a, b) if self.c["loss"] == "huber" else F.mse_loss(a, b)

    def discount(self, b):
        g = torch.full_like(b.reward, self.c["gamma"])
        if self.c["time"] == "diff":
            g = g ** b.time_diff.double()
        elif self.c["time"] == "steps":
            g = g ** b.step.double()
        return g

    def rewards(self, b):
        r = b.reward
        if self.c["boost"]:
            r = r + (b.action.double() * torch.tensor(self.c["boost"], dtype=torch.float64)).sum(1, keepdim=True)
        return r

    def cpe(self, b, next_scores, disc):
        """the separate reward and value networks used for off-policy evaluation"""
        if not self.case["cpe"]:
            return
        A = b.action.shape[1]
        real = b.reward if b.extras.metrics is None else torch.cat((b.reward, b.extras.metrics), 1)
        M = real.shape[1]
        a = b.action.argmax(1)
        rows = torch.arange(len(a))

        def pick(out):
            return torch.stack([out[rows, i * A + a] for i in range(M)], 1)

        self.o["reward_network"].step(F.mse_loss(pick(self.n["reward_network"](b.state)), real))
        mask = b.possible_next_actions_mask.double() if self.c["maxq"] else b.next_action.double()
        pi = propensities(next_scores, mask, self.c["temp"])
        with torch.no_grad():
            nxt = self.n["q_network_cpe_target"](b.next_state)
            tgt = torch.stack([(nxt[:, i * A:(i + 1) * A] * pi).sum(1) for i in range(M)], 1)
            tgt = real + disc * b.not_terminal.double() * tgt
        self.o["q_network_cpe"].step(self.loss(pick(self.n["q_network_cpe"](b.state)), tgt))


class Algo:
    name = ""
    nets = ()

    @staticmethod
    def cpe_nets(case, seed):
        if not case["cpe"]:
            return {"reward_network": None, "q_network_cpe": None, "q_network_cpe_target": None}
        M = 1 + case["metrics"]
        A = case["A"]
        q = fc_dqn(seed + 7, M * A)
        return {"reward_network": fc_dqn(seed + 8, M * A), "q_network_cpe": q,
                "q_network_cpe_target": fc_dqn(seed + 9, M * A)}

    @staticmethod
    def evaluation(case):
        from reagent.parameters import EvaluationParameters

        return EvaluationParameters(calc_cpe_in_training=case["cpe"])

    def tracked(self, module):
        """name -> the module's network (or parameter)"""
        out = {}
        for k in self.nets:
            v = getattr(module, k, None)
            if v is not None:
                out[k] = v
        return out

    def batch(self, case, key):
        import reagent.types as rlt

        return discrete_batch(case, key)


def gen(key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=7).digest()
    return torch.Generator().manual_seed(int.from_bytes(h, "big"))


def common(case, key):
    g = gen(key)
    B = case["B"]
    r = lambda *s: torch.randn(*s, generator=g, dtype=torch.float64)  # noqa
    d = {
        "state_features": r(B, S), "next_state_features": r(B, S), "reward": r(B, 1),
        "not_terminal": (torch.rand(B, 1, generator=g) < 0.75), "time_diff": torch.randint(1, 4, (B, 1), generator=g),
        "step": torch.randint(1, 4, (B, 1), generator=g),
    }
    return g, B, r, d


def one_hot(g, B, A, mask):
    idx = torch.multinomial(mask.float(), 1, generator=g).reshape(-1)
    return F.one_hot(idx, A).double()


def rmask(g, B, A):
    m = (torch.rand(B, A, generator=g) < 0.7).double()
    m[torch.arange(B), torch.randint(0, A, (B,), generator=g)] = 1.0
    return m


def discrete_batch(case, key):
    import reagent.types as rlt

    g, B, r, d = common(case, key)
    A = case["A"]
    m, m2 = rmask(g, B, A), rmask(g, B, A)
    if case.get("bcq"):
        m, m2 = torch.ones_like(m), torch.ones_like(m2)
    d["possible_actions_mask"], d["possible_next_actions_mask"] = m, m2
    d["action"] = one_hot(g, B, A, m)
    d["next_action"] = one_hot(g, B, A, m2) * d["not_terminal"].double()
    if case.get("mask32"):
        d["possible_actions_mask"], d["possible_next_actions_mask"] = m.float(), m2.float()
    d["extras"] = rlt.ExtraData(action_probability=torch.rand(B, 1, generator=g).double(),
                                metrics=r(B, case["metrics"]) if case["metrics"] else None)
    return d if case["as_dict"] else rlt.DiscreteDqnInput.from_dict(d)


def policy_batch(case, key):
    import reagent.types as rlt

    g, B, r, d = common(case, key)
    d["action"] = torch.tanh(r(B, case["A"]))
    d["next_action"] = torch.tanh(r(B, case["A"]))
    return d if case["as_dict"] else rlt.PolicyNetworkInput.from_dict(d)


def as_obj(batch, cls):
    return cls.from_dict(batch) if isinstance(batch, dict) else batch


class Dqn(Algo):
    name = "dqn"
    nets = ("q_network", "q_network_target", "reward_network", "q_network_cpe", "q_network_cpe_target", "bcq_imitator")

    def build(self, case, seed):
        from reagent.training.dqn_trainer import DQNTrainer

        return DQNTrainer(
            fc_dqn(seed, case["A"]), fc_dqn(seed + 1, case["A"]), **self.cpe_nets(case, seed),
            metrics_to_score=["m%d" % i for i in range(case["metrics"])] or None,
            actions=["a%d" % i for i in range(case["A"])], rl=rl_params(case), double_q_learning=case["double"],
            optimizer=opt_union(case["opt"]), evaluation=self.evaluation(case),
            **self.bcq(case, seed)).double()

    def bcq(self, case, seed):
        if not case.get("bcq"):
            return {}
        from reagent.training.dqn_trainer import BCQConfig

        torch.manual_seed(seed + 11)
        imit = torch.nn.Linear(S, case["A"]).double()
        with torch.no_grad():
            imit.weight.mul_(4)
        return {"bcq": BCQConfig(drop_threshold=case["bcq"]), "imitator": imit}

    class Ref(Ref):
        def optimizers(self):
            for k in ("q_network", "reward_network", "q_network_cpe"):
                if self.has(k):
                    self.opt(k, self.case["opt"])

        def train(self, b, idx):
            n = self.n
            disc = self.discount(b)
            with torch.no_grad():
                q, qt = n["q_network"](b.next_state), n["q_network_target"](b.next_state)
                mask = b.possible_next_actions_mask if self.c["maxq"] else b.next_action
                if self.case.get("bcq"):
                    p = torch.softmax(self.n["bcq_imitator"](b.next_state.float_features), 1)
                    mask = mask * (p / p.max(1, keepdim=True)[0] >= self.case["bcq"]).double()
                a = masked_argmax(q if self.case["double"] else qt, mask)
                tgt = self.rewards(b) + disc * b.not_terminal.double() * qt.gather(1, a)
            qa = (n["q_network"](b.state) * b.action).sum(1, keepdim=True)
            self.o["q_network"].step(self.loss(qa, tgt))
            with torch.no_grad():
                sc = n["q_network"](b.next_state)
            self.cpe(b, sc, disc)
            self.soft(("q_network_target", "q_network"), ("q_network_cpe_target", "q_network_cpe"))


class QrDqn(Algo):
    name = "qrdqn"
    nets = Dqn.nets

    def build(self, case, seed):
        from reagent.training.qrdqn_trainer import QRDQNTrainer

        return QRDQNTrainer(
            fc_dqn(seed, case["A"], 5), fc_dqn(seed + 1, case["A"], 5), **self.cpe_nets(case, seed),
            metrics_to_score=["m%d" % i for i in range(case["metrics"])] or None,
            actions=["a%d" % i for i in range(case["A"])], rl=rl_params(case), double_q_learning=case["double"],
            num_atoms=5, optimizer=opt_union(case["opt"]), cpe_optimizer=opt_union(case["opt2"]),
            evaluation=self.evaluation(case)).double()

    class Ref(Ref):
        def optimizers(self):
            self.opt("q_network", self.case["opt"])
            for k in ("reward_network", "q_network_cpe"):
                if self.has(k):
                    self.opt(k, self.case["opt2"])

        def train(self, b, idx):
            n, N = self.n, 5
            disc = self.discount(b)
            rows = torch.arange(b.reward.shape[0])
            with torch.no_grad():
                nt = n["q_network_target"](b.next_state)
                if self.c["maxq"]:
                    sel = (n["q_network"](b.next_state) if self.case["double"] else nt).mean(2)
                    z = nt[rows, masked_argmax(sel, b.possible_next_actions_mask)[:, 0]]
                else:
                    z = (nt * b.next_action.unsqueeze(-1)).sum(1)
                tgt = self.rewards(b) + disc * b.not_terminal.double() * z  # rows x atoms
            cur = n["q_network"](b.state)[rows, b.action.argmax(1)]
            tau = (torch.arange(N).double() + 0.5) / N
            u = tgt[:, :, None] - cur[:, None, :]  # rows x target atom x own atom
            hub = torch.where(u.abs() < 1, 0.5 * u ** 2, u.abs() - 0.5)
            w = (tau[None, None, :] - (u.detach() < 0).double()).abs()
            self.o["q_network"].step((hub * w).mean())
            with torch.no_grad():
                sc = n["q_network"](b.next_state).mean(2)
            self.cpe(b, sc, disc)
            self.soft(("q_network_target", "q_network"), ("q_network_cpe_target", "q_network_cpe"))


class C51(Algo):
    name = "c51"
    nets = ("q_network", "q_network_target")
    N, LO, HI = 7, -3.0, 4.0

    def net(self, seed, case):
        from reagent.models.categorical_dqn import CategoricalDQN

        return CategoricalDQN(fc_dqn(seed, case["A"], self.N), qmin=self.LO, qmax=self.HI, num_atoms=self.N).double()

    def build(self, case, seed):
        from reagent.training.c51_trainer import C51Trainer

        return C51Trainer(
            self.net(seed, case), self.net(seed + 1, case), actions=["a%d" % i for i in range(case["A"])],
            rl=rl_params(case), double_q_learning=case["double"], num_atoms=self.N, qmin=self.LO, qmax=self.HI,
            optimizer=opt_union(case["opt"])).double()

    class Ref(Ref):
        def optimizers(self):
            self.opt("q_network", self.case["opt"])

        def train(self, b, idx):
            n, N, LO, HI = self.n, C51.N, C51.LO, C51.HI
            z = torch.linspace(LO, HI, N).double()
            dz = (HI - LO) / (N - 1)
            B = b.reward.shape[0]
            with torch.no_grad():
                p = n["q_network_target"].log_dist(b.next_state).exp()
                if self.c["maxq"]:
                    sel = n["q_network"].log_dist(b.next_state).exp() if self.case["double"] else p
                    a = masked_argmax((sel * z).sum(2), b.possible_next_actions_mask)[:, 0]
                    p = p[torch.arange(B), a]
                else:
                    p = (p * b.next_action.unsqueeze(-1)).sum(1)
                t = (self.rewards(b) + self.discount(b) * b.not_terminal.double() * z).clamp(LO, HI)
                m = torch.zeros(B, N, dtype=torch.float64)
                for k in range(N):  # every target atom spreads its mass over its two neighbours
                    w = (1 - (t - z[k]).abs() / dz).clamp(min=0)
                    m[:, k] = (w * p).sum(1)
            lp = n["q_network"].log_dist(b.state)[torch.arange(B), b.action.argmax(1)]
            self.o["q_network"].step(-(m * lp).sum(1).mean())
            self.soft(("q_network_target", "q_network"))


class Parametric(Algo):
    name = "parametric"
    nets = ("q_network", "q_network_target", "reward_network")
    K = 2

    def build(self, case, seed):
        from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer

        return ParametricDQNTrainer(
            critic(seed, self.K), critic(seed + 1, self.K), critic(seed + 2, self.K, 1 + case["metrics"]),
            rl=rl_params(case), double_q_learning=case["double"], optimizer=opt_union(case["opt"])).double()

    def batch(self, case, key):
        import reagent.types as rlt

        g, B, r, d = common(case, key)
        A, K = case["A"], self.K
        d["action"], d["next_action"] = r(B, K), r(B, K)
        d["possible_actions"], d["possible_next_actions"] = r(B * A, K), r(B * A, K)
        d["possible_actions_mask"], d["possible_next_actions_mask"] = rmask(g, B, A), rmask(g, B, A)
        d["extras"] = rlt.ExtraData(metrics=r(B, case["metrics"]) if case["metrics"] else None)
        return d if case["as_dict"] else rlt.ParametricDqnInput.from_dict(d)

    class Ref(Ref):
        def optimizers(self):
            self.opt("q_network", self.case["opt"])
            self.opt("reward_network", self.case["opt"])

        def train(self, b, idx):
            n, A = self.n, self.case["A"]
            B = b.reward.shape[0]
            with torch.no_grad():
                if self.c["maxq"]:
                    acts = b.possible_next_actions.float_features.reshape(B, A, -1)

                    def all_q(net):
                        return torch.cat([net(b.next_state, f(acts[:, k])) for k in range(A)], 1)

                    q, qt = all_q(n["q_network"]), all_q(n["q_network_target"])
                    v = qt.gather(1, masked_argmax(q if self.case["double"] else qt, b.possible_next_actions_mask))
                else:
                    v = n["q_network_target"](b.next_state, b.next_action)
                tgt = b.reward + b.not_terminal.double() * self.discount(b) * v
                real = b.reward if b.extras.metrics is None else torch.cat((b.reward, b.extras.metrics), 1)
            self.o["q_network"].step(self.loss(n["q_network"](b.state, b.action), tgt))
            self.o["reward_network"].step(F.mse_loss(n["reward_network"](b.state, b.action), real))
            self.soft(("q_network_target", "q_network"))


def gauss(seed, adim):
    from reagent.models.actor import GaussianFullyConnectedActor

    torch.manual_seed(seed)
    return GaussianFullyConnectedActor(S, adim, [4], ["tanh"]).double()


class Sac(Algo):
    name = "sac"
    nets = ("q1_network", "q2_network", "actor_network", "value_network", "value_network_target",
            "q1_network_target", "q2_network_target", "log_alpha")

    def batch(self, case, key):
        return policy_batch(case, key)

    def build(self, case, seed):
        from reagent.models.fully_connected_network import FullyConnectedNetwork
        from reagent.training.sac_trainer import CRRWeightFn, SACTrainer

        v = None
        if case["value"]:
            torch.manual_seed(seed + 3)
            v = FullyConnectedNetwork([S, 4, 1], ["tanh", "linear"]).double()
        crr = None
        if case.get("crr"):
            crr = CRRWeightFn(**case["crr"])
        m = SACTrainer(
            gauss(seed, case["A"]), critic(seed + 1, case["A"]), critic(seed + 2, case["A"]) if case["q2"] else None,
            value_network=v, rl=rl_params(case), q_network_optimizer=opt_union(case["opt"]),
            value_network_optimizer=opt_union(case["opt2"]), actor_network_optimizer=opt_union(case["opt"]),
            alpha_optimizer=opt_union(case["opt2"]) if case["alpha"] else None, entropy_temperature=case["temp0"],
            logged_action_uniform_prior=case["uniform"], target_entropy=-0.5, crr_config=crr,
            backprop_through_log_prob=case["through"],
            action_embedding_kld_weight=case["kld"] or None, apply_kld_on_mean=case["kldmean"],
            action_embedding_mean=[0.1] * case["A"] if case["kld"] else None,
            action_embedding_variance=[0.7] * case["A"] if case["kld"] else None)
        return m.double()

    class Ref(Ref):
        def optimizers(self):
            c = self.case
            for k, o in (("q1_network", "opt"), ("q2_network", "opt"), ("actor_network", "opt"), ("log_alpha", "opt2"),
                         ("value_network", "opt2")):
                if self.has(k):
                    self.opt(k, c[o])
            self.temp = float(self.n["log_alpha"].detach().exp()) if self.has("log_alpha") else c["temp0"]

        def train(self, b, idx):
            n, c = self.n, self.case
            with torch.no_grad():
                if self.has("value_network"):
                    v = n["value_network_target"](b.next_state.float_features)
                else:
                    out = n["actor_network"](b.next_state)
                    na = f(out.action)
                    v = n["q1_network_target"](b.next_state, na)
                    if self.has("q2_network"):
                        v = torch.min(v, n["q2_network_target"](b.next_state, na))
                    lp = n["actor_network"].get_log_prob(b.next_state, out.action).clamp(-20, 20)
                    v = v - self.temp * lp
                tgt = b.reward + self.c["gamma"] * v * b.not_terminal.double()
            for k in ("q1_network", "q2_network"):
                if self.has(k):
                    self.o[k].step(F.mse_loss(n[k](b.state, b.action), tgt))
            out = n["actor_network"](b.state)
            sa = (b.state, f(out.action))
            mq = n["q1_network"](*sa)
            if self.has("q2_network"):
                mq = torch.min(mq, n["q2_network"](*sa))
            lp = out.log_prob if c["through"] else out.log_prob.detach()
            if c.get("crr"):
                adv = (mq - n["value_network"](b.state.float_features)).detach()
                w = c["crr"]
                if w.get("indicator_fn_threshold"):
                    wt = (adv >= w["indicator_fn_threshold"]).double()
                else:
                    wt = (adv / w["exponent_beta"]).exp()
                    if w.get("exponent_clamp"):
                        wt = wt.clamp(0, w["exponent_clamp"])
                loss = -(lp * wt).mean()
            else:
                loss = (self.temp * lp - mq).mean()
            if c["kld"]:
                x = out.squashed_mean if c["kldmean"] else out.action
                m, var = x.mean(0), x.var(0)
                em, ev = torch.tensor(0.1), torch.tensor(0.7)
                loss = loss + c["kld"] * 0.5 * ((var + (m - em) ** 2) / ev - 1 + ev.log() - var.log()).sum()
            self.o["actor_network"].step(loss)
            mq, lp = mq.detach(), out.log_prob.detach()
            if self.has("log_alpha"):
                self.o["log_alpha"].step(-(n["log_alpha"] * (lp - 0.5)).mean())
                self.temp = float(n["log_alpha"].detach().exp())
            if self.has("value_network"):
                t = mq if c["uniform"] else mq - self.temp * lp.clamp(-20, 20)
                self.o["value_network"].step(F.mse_loss(n["value_network"](b.state.float_features), t))
                self.soft(("value_network_target", "value_network"))
            else:
                self.soft(("q1_network_target", "q1_network"), ("q2_network_target", "q2_network"))


class Td3(Algo):
    name = "td3"
    nets = ("q1_network", "q2_network", "actor_network", "q1_network_target", "q2_network_target", "actor_network_target")

    def batch(self, case, key):
        return policy_batch(case, key)

    def build(self, case, seed):
        from reagent.models.actor import FullyConnectedActor
        from reagent.training.td3_trainer import TD3Trainer

        torch.manual_seed(seed)
        actor = FullyConnectedActor(S, case["A"], [4], ["tanh"]).double()
        return TD3Trainer(
            actor, critic(seed + 1, case["A"]), critic(seed + 2, case["A"]) if case["q2"] else None, rl=rl_params(case),
            q_network_optimizer=opt_union(case["opt"]), actor_network_optimizer=opt_union(case["opt2"]),
            noise_variance=case["noise"][0], noise_clip=case["noise"][1], delayed_policy_update=case["delay"]).double()

    class Ref(Ref):
        def optimizers(self):
            for k in ("q1_network", "q2_network"):
                if self.has(k):
                    self.opt(k, self.case["opt"])
            self.opt("actor_network", self.case["opt2"])

        def train(self, b, idx):
            n, c = self.n, self.case
            with torch.no_grad():
                a = n["actor_network_target"](b.next_state).action
                e = (noise(a) * c["noise"][0]).clamp(-c["noise"][1], c["noise"][1])
                a = f((a + e).clamp(-0.999999, 0.999999) if False else (a + e).clamp(*action_range()))
                v = n["q1_network_target"](b.next_state, a)
                if self.has("q2_network"):
                    v = torch.min(v, n["q2_network_target"](b.next_state, a))
                tgt = b.reward + self.c["gamma"] * v * b.not_terminal.double()
            for k in ("q1_network", "q2_network"):
                if self.has(k):
                    self.o[k].step(F.mse_loss(n[k](b.state, b.action), tgt))
            if idx % c["delay"] == 0:
                self.o["actor_network"].step(-n["q1_network"](b.state, f(n["actor_network"](b.state).action)).mean())
                self.soft(*[(k + "_target", k) for k in ("q1_network", "q2_network", "actor_network")])


def action_range():
    from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE

    return CONTINUOUS_TRAINING_ACTION_RANGE


class SlateQ(Algo):
    name = "slateq"
    nets = ("q_network", "q_network_target")
    D, K = 4, 2  # documents, slate size

    def build(self, case, seed):
        from reagent.training.slate_q_trainer import SlateQTrainer

        return SlateQTrainer(critic(seed, 2), critic(seed + 1, 2), rl=rl_params(case), optimizer=opt_union(case["opt"]),
                             single_selection=case["single"]).double()

    def batch(self, case, key):
        import reagent.types as rlt

        g, B, r, d = common(case, key)
        D, K = self.D, self.K
        for p in ("", "next_"):
            d[p + "candidate_features"] = r(B, D, 2)
            d[p + "item_mask"] = torch.ones(B, D, dtype=torch.bool)
            d[p + "item_probability"] = torch.rand(B, D, generator=g).double()
        d["action"] = torch.stack([torch.randperm(D, generator=g)[:K] for _ in range(B)])
        d["next_action"] = torch.stack([torch.randperm(D, generator=g)[:K] for _ in range(B)])
        d["position_reward"] = r(B, K)
        m = torch.rand(B, K, generator=g) < 0.5
        m[torch.arange(B), torch.randint(0, K, (B,), generator=g)] = True
        if case["single"]:
            m = F.one_hot(torch.randint(0, K, (B,), generator=g), K).bool()
        d["reward_mask"] = m
        # indices of a terminal state's next slate mean nothing
        d["next_action"][~d["not_terminal"][:, 0]] = 10 ** 6
        return d if case["as_dict"] else rlt.SlateQInput.from_dict(d)

    class Ref(Ref):
        def optimizers(self):
            self.opt("q_network", self.case["opt"])

        def qs(self, net, st, docs, act):
            B, K = act.shape
            out = []
            for i in range(B):
                out.append(torch.cat([net(f(st.float_features[i:i + 1]), f(docs.float_features[i, int(a)][None])) for a in act[i]], 1))
            return torch.cat(out, 0)

        def train(self, b, idx):
            n, single = self.n, self.case["single"]
            with torch.no_grad():
                na = torch.where(b.not_terminal, b.next_action, torch.zeros_like(b.next_action))
                docs = b.next_state.candidate_docs
                val = docs.value.gather(1, na)
                if single:
                    val = torch.softmax(val, 1)
                v = (self.qs(n["q_network_target"], b.next_state, docs, na) * val).sum(1, keepdim=True)
                if not single:
                    v = v / b.reward.shape[1]
                tgt = b.reward + self.c["gamma"] * v * b.not_terminal.double()
            q = self.qs(n["q_network"], b.state, b.state.candidate_docs, b.action)
            if single:
                q, tgt = q[b.reward_mask], tgt[b.reward_mask]
            self.o["q_network"].step(F.mse_loss(q, tgt))
            self.soft(("q_network_target", "q_network"))


class Crr(Algo):
    name = "crr"
    nets = Td3.nets + ("reward_network", "q_network_cpe", "q_network_cpe_target")

    def build(self, case, seed):
        from reagent.models.actor import FullyConnectedActor
        from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer

        torch.manual_seed(seed)
        actor = FullyConnectedActor(S, case["A"], [4], ["tanh"], action_activation="linear").double()
        return DiscreteCRRTrainer(
            actor, fc_dqn(seed + 1, case["A"]), q2_network=fc_dqn(seed + 2, case["A"]) if case["q2"] else None,
            **self.cpe_nets(case, seed), metrics_to_score=["m%d" % i for i in range(case["metrics"])] or None,
            evaluation=self.evaluation(case), rl=rl_params(case), q_network_optimizer=opt_union(case["opt"]),
            actor_network_optimizer=opt_union(case["opt2"]), use_target_actor=case["tactor"],
            actions=["a%d" % i for i in range(case["A"])], delayed_policy_update=case["delay"]).double()

    class Ref(Ref):
        def optimizers(self):
            for k in ("q1_network", "q2_network", "reward_network", "q_network_cpe"):
                if self.has(k):
                    self.opt(k, self.case["opt"])
            self.opt("actor_network", self.case["opt2"])

        def train(self, b, idx):
            n, c = self.n, self.case
            with torch.no_grad():
                p = torch.softmax(n["actor_network_target" if c["tactor"] else "actor_network"](b.next_state).action, 1)
                nq = n["q1_network_target"](b.next_state)
                v = (nq * p).sum(1, keepdim=True)
                if self.has("q2_network"):
                    v = torch.min(v, (n["q2_network_target"](b.next_state) * p).sum(1, keepdim=True))
                tgt = self.rewards(b) + self.c["gamma"] * v * b.not_terminal.double()
            for k in ("q1_network", "q2_network"):
                if self.has(k):
                    self.o[k].step(F.mse_loss((n[k](b.state) * b.action).sum(1, keepdim=True), tgt))
            upd = idx % c["delay"] == 0
            if upd:
                logits = n["actor_network"](b.state).action
                lp = torch.log_softmax(logits, 1)
                with torch.no_grad():
                    q = n["q1_network"](b.state)
                    adv = ((q - (q * lp.exp()).sum(1, keepdim=True)) * b.action).sum(1, keepdim=True)
                    w = adv.exp().clamp(0, 20)
                self.o["actor_network"].step(-((lp * b.action).sum(1, keepdim=True) * w).mean())
            self.cpe(b, nq, torch.full_like(b.reward, self.c["gamma"]))
            if upd:
                self.soft(*[(k + "_target", k) for k in ("q1_network", "q2_network", "actor_network")],
                          ("q_network_cpe_target", "q_network_cpe"))


ALGOS = {a.name: a() for a in (Dqn, QrDqn, C51, Parametric, Sac, Td3, SlateQ, Crr)}


def plan_algo(rng, exact=False):
    """a random algorithm and its options.  exact: any optimizer, else those whose steps amplify no rounding"""
    name = rng.choice(sorted(ALGOS))

    def opt():
        k = rng.choice(["SGD", "SGD", "Adam"]) if exact else "SGD"
        if k == "SGD":
            return ["SGD", {"lr": rng.choice([0.01, 0.05]), "momentum": rng.choice([0.0, 0.5])}]
        return ["Adam", {"lr": rng.choice([0.001, 0.01])}]

    case = {
        "algo": name, "A": rng.choice([2, 3]), "B": rng.choice([2, 3, 6]), "as_dict": rng.random() < 0.5,
        "opt": opt(), "opt2": opt(), "double": rng.random() < 0.5, "cpe": False, "metrics": 0,
        "rl": {"gamma": rng.choice([0.5, 0.9, 1.0]), "tau": rng.choice([0.0, 0.05, 0.3, 1.0]), "maxq": rng.random() < 0.6,
               "temp": rng.choice([0.5, 1.0]), "boost": None, "time": rng.choice(["none", "none", "diff", "steps"]),
               "loss": rng.choice(["mse", "huber"])},
    }
    if name in ("dqn", "qrdqn", "c51", "crr") and rng.random() < 0.4:
        case["rl"]["boost"] = [rng.choice([-1.5, 0.25, 2.0]) for _ in range(case["A"])]
    if name in ("dqn", "qrdqn", "crr"):
        case["cpe"] = rng.random() < 0.5
        if case["cpe"]:
            case["metrics"] = rng.choice([0, 0, 1, 2])
    case["mask32"] = rng.random() < 0.5
    if name == "dqn" and rng.random() < 0.3:
        case["bcq"] = rng.choice([0.1, 0.5, 0.9])
        case["rl"]["maxq"] = True
    if name == "parametric":
        case["metrics"] = rng.choice([0, 1])
    if name in ("sac", "td3", "crr"):
        case["q2"] = rng.random() < 0.6
        case["rl"]["time"] = "none"
    if name in ("td3", "crr"):
        case["delay"] = rng.choice([1, 2, 3])
        case["noise"] = rng.choice([[0.2, 0.5], [1.0, 0.3]])
        case["tactor"] = rng.random() < 0.5
    if name == "slateq":
        case["rl"]["maxq"] = False
        case["rl"]["time"] = "none"
        case["single"] = rng.random() < 0.5
    if name == "sac":
        case.update(value=rng.random() < 0.5, alpha=rng.random() < 0.6, temp0=rng.choice([0.01, 0.1, 0.5]),
                    uniform=rng.random() < 0.5, through=rng.random() < 0.6, crr=None,
                    kld=rng.choice([0, 0, 0.3]), kldmean=rng.random() < 0.5)
        if case["value"] and case["through"] and rng.random() < 0.3:
            case["crr"] = rng.choice([{"indicator_fn_threshold": 0.1}, {"exponent_beta": 1.0, "exponent_clamp": 2.0},
                                      {"exponent_beta": 0.7}])
    return case
