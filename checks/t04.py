"""T04: ranking, reward and world-model trainers take, for each batch, exactly the optimizer steps its data prescribes."""
import copy
import itertools
import math
import os
import shutil
import tempfile

import torch
import torch.nn.functional as F

from dst.core import Scenario, Violation, check
from checks import train_common as tc

S, C = 3, 2  # state and candidate features


class Interrupted(RuntimeError):
    pass


# ------------------------------------------------------------------ seam: optimizer steps
STEPS = {"on": False, "log": [], "after": {}}


def _pre(opt, *a, **kw):
    if STEPS["on"]:
        ps = [p for g in opt.param_groups for p in g["params"]]
        STEPS["log"].append({"ids": frozenset(map(id, ps)), "name": type(opt).__name__, "lr": opt.param_groups[0]["lr"],
                             "grad": {id(p): (torch.zeros_like(p) if p.grad is None else p.grad.detach().clone()) for p in ps},
                             "value": {id(p): p.detach().clone() for p in ps}})


def _post(opt, *a, **kw):
    if STEPS["on"]:
        for g in opt.param_groups:
            for p in g["params"]:
                STEPS["after"][id(p)] = p.detach().clone()


def same(a, b):
    return torch.equal(torch.nan_to_num(a, 1e30), torch.nan_to_num(b, 1e30)) and torch.equal(torch.isnan(a), torch.isnan(b))


def near(a, b, tol=2e-4):
    a, b = torch.as_tensor(a, dtype=torch.float64), torch.as_tensor(b, dtype=torch.float64)
    if a.shape != b.shape:
        return False
    if not a.numel():
        return True
    nan = torch.isnan(a) | torch.isnan(b)
    if not torch.equal(torch.isnan(a), torch.isnan(b)):
        return False
    d = (a - b).abs()
    d[nan] = 0
    d[a == b] = 0
    big = b[~nan].abs().max() if bool((~nan).any()) else torch.tensor(0.0)
    return bool((d <= tol * big + 1e-7).all())


class FakeReward(torch.nn.Module):
    """a slate reward model in the form the simulation and the evaluation expect"""

    def __init__(self, n, tgt):
        super().__init__()
        self.a = torch.nn.Linear(S + n * C + tgt * C, 1)
        self.sign = 1.0

    def forward(self, state: torch.Tensor, src: torch.Tensor, tgt: torch.Tensor, mask: torch.Tensor, idx: torch.Tensor) -> torch.Tensor:
        b = state.shape[0]
        x = torch.cat([state, src.reshape(b, -1), tgt.reshape(b, -1)], dim=1)
        return torch.sigmoid(self.a(x)) + 0.1 * idx[:, :1].float()


def bubble(idx):
    """swaps of neighbours needed to get from the production order to idx: inversions inside, plus the items skipped"""
    inv = sum(1 for i in range(len(idx)) for j in range(i + 1, len(idx)) if idx[i] > idx[j])
    return inv + sum(idx) - len(idx) * (len(idx) - 1) // 2


RANKING = ["ips", "ips", "sim", "sim", "tf", "dr", "attn"]
OTHER = ["reward", "mdnrnn", "mdnrnn", "seq2reward", "compress", "imitator", "cem"]


class T04(Scenario):
    id = "T04"
    runs = {"quick": 700, "thorough": 40000}
    rule = ("a case is one of ten trainers with its options and a list of batches, evaluations, rankings, restarts and failures; "
            "non-trivial when at least two optimizer steps were compared with the gradients the data prescribes")
    components = {"real": ["ranking trainers and networks", "reward-network, MDN-RNN, Seq2Reward, compress, imitator and CEM trainers",
                           "their evaluators", "Optimizer__Union", "Trainer.state_dict"],
                  "stub": ["slate reward models of the simulation (scripted files)", "the data pipeline (batches are drawn)"]}
    assumptions = ["gradients are compared in single precision, to 2e-4 of the largest", "a batch may fail only in a network's forward pass"]

    def setup(self):
        tc.setup()
        if not STEPS.get("hook"):
            from torch.optim import optimizer as o

            STEPS["hook"] = (o.register_optimizer_step_pre_hook(_pre), o.register_optimizer_step_post_hook(_post))
        import reagent.evaluation.evaluation_data_page  # noqa  (import order)

    # ------------------------------------------------------------ planning
    def plan(self, rng, index, tier):
        kind = rng.choice(RANKING + OTHER)
        opt = lambda: rng.choice([["SGD", {"lr": rng.choice([0.05, 0.2])}], ["SGD", {"lr": 0.1, "momentum": 0.5}],  # noqa
                                  ["Adam", {"lr": rng.choice([0.001, 0.02])}]])
        c = {"kind": kind, "opt": opt(), "opt2": opt()}
        if kind in RANKING:
            c["n"] = rng.choice([1, 2, 3, 4])
            c["tgt"] = rng.randint(1, c["n"])
            c["arch"] = "encoder_score" if kind == "attn" else rng.choice(["frechet_sort", "autoregressive"])
        if kind in ("ips", "sim", "dr"):
            c["clamp"] = rng.choice([None, ["universal", 0.5], ["universal", 1.5], ["aggressive", 0.5], ["aggressive", 1.5]])
        if kind in ("ips", "sim"):
            c["baseline"] = rng.random() < 0.5
            c["warmup"] = rng.choice([0, 0, 1, 2, 3]) if c["baseline"] else rng.choice([0, 3])
        if kind in ("ips", "sim", "tf"):
            c["interval"] = rng.choice([1, 1, 2, 3])
        if kind == "sim":
            k = rng.choice([1, 1, 2])
            c["rewards"] = [[rng.choice([1.0, 0.5, -2.0]), rng.choice([1.0, 2.0])] for _ in range(k)]
            c["rclamp"] = rng.choice([None, None, [0.2, 0.9], [-1.0, None], [None, 0.3]])
            c["penalty"] = rng.choice([None, None, 0.5])
        if kind == "dr":
            c["on"] = rng.random() < 0.5
        if kind == "reward":
            c["loss"] = rng.choice(["MSE", "SmoothL1Loss", "L1Loss", "BCELoss"])
            c["threshold"] = rng.choice([None, None, 0.6])
            c["drop"] = rng.choice([0.0, 0.4])
        if kind in ("mdnrnn", "cem"):
            c.update(last=rng.random() < 0.3, weights=[rng.choice([1.0, 0.5, 0.0, 2.0]) for _ in range(3)], gauss=rng.choice([1, 2, 3]),
                     lr=rng.choice([0.001, 0.05]), models=rng.choice([1, 2, 3]), discrete=rng.random() < 0.5)
        if kind in ("seq2reward", "compress"):
            c.update(steps=rng.choice([1, 2, 3]), gamma=rng.choice([1.0, 0.5, 0.9]), lr=rng.choice([0.001, 0.05]), q=rng.random() < 0.4)
        if kind == "imitator":
            c["per_step"] = rng.choice([1, 1, 2, 3])
        c["A"] = rng.choice([2, 3])
        if kind == "dr":
            c["opt"][1]["lr"] = min(c["opt"][1]["lr"], 0.05)
        c["layers"] = rng.choice([1, 1, 2])
        c["init"] = rng.randrange(1000)
        ops = []
        p_fault = rng.choice([0.0, 0.25])
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            B = rng.choice([1, 2, 3, 5])
            fault = [rng.choice([0, 0, 1, 1, 2, 3, 4]), rng.choice(["error", "interrupt"])] if rng.random() < p_fault else None
            if x < 0.68:
                if kind == "sim" and rng.random() < 0.15:
                    B = 200  # enough slates to judge how often each is chosen
                ops.append(["train", B, rng.randrange(10 ** 6), fault])
            elif x < 0.82:
                ops.append(["eval", B, rng.randrange(10 ** 6), fault])
            elif x < 0.90 and kind in RANKING and kind != "attn":
                ops.append(["rank", B, rng.randrange(10 ** 6), int(rng.random() < 0.5)])
            elif x < 0.96:
                ops.append(["restart"])
            elif kind == "sim":
                ops.append(["missing", B, rng.randrange(10 ** 6)])
        c["ops"] = ops
        return c

    def nontrivial(self, case, probe):
        return probe.hits["steps"] > 1

    def shrink(self, case):
        for i in range(len(case["ops"])):
            c = copy.deepcopy(case)
            del c["ops"][i]
            yield c
        for i, op in enumerate(case["ops"]):
            if op[0] == "train" and (op[3] or op[1] > 2):
                c = copy.deepcopy(case)
                c["ops"][i] = ["train", 2 if not op[3] else op[1], op[2], None]
                yield c
        for k, v in (("clamp", None), ("baseline", False), ("warmup", 0), ("interval", 1), ("rclamp", None), ("penalty", None),
                     ("threshold", None), ("models", 1), ("gauss", 1), ("layers", 1), ("per_step", 1), ("q", False)):
            if k in case and case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c

    # ------------------------------------------------------------ building
    def seq2slate(self, c, seed):
        from reagent.model_utils.seq2slate_utils import Seq2SlateOutputArch
        from reagent.models.seq2slate import Seq2SlateTransformerNet

        torch.manual_seed(seed)
        return Seq2SlateTransformerNet(state_dim=S, candidate_dim=C, num_stacked_layers=1, num_heads=2, dim_model=4, dim_feedforward=4,
                                       max_src_seq_len=c["n"], max_tgt_seq_len=c["tgt"], output_arch=Seq2SlateOutputArch(c["arch"]),
                                       temperature=1.0)

    def memory(self, c, seed):
        from reagent.models.world_model import MemoryNetwork

        torch.manual_seed(seed)
        return MemoryNetwork(state_dim=S, action_dim=c["A"], num_hiddens=4, num_hidden_layers=c["layers"], num_gaussians=c["gauss"])

    def s2r(self, c, seed):
        from reagent.models.seq2reward_model import Seq2RewardNetwork

        torch.manual_seed(seed)
        return Seq2RewardNetwork(state_dim=S, action_dim=c["A"], num_hiddens=4, num_hidden_layers=c["layers"])

    def fc(self, seed, out, acts=("tanh", "linear"), width=4):
        from reagent.models.fully_connected_network import FullyConnectedNetwork

        torch.manual_seed(seed)
        sizes = [S] + [width] * (len(acts) - 1) + [out]
        return FullyConnectedNetwork(sizes, list(acts), use_layer_norm=False)

    def reward_net(self, c, seed):
        from reagent.models.base import ModelBase
        import reagent.types as rlt

        class RewardNet(ModelBase):
            def __init__(self):
                super().__init__()
                self.l = torch.nn.Sequential(torch.nn.Linear(S, 4), torch.nn.Tanh(), torch.nn.Dropout(c["drop"]), torch.nn.Linear(4, 1))

            def forward(self, batch):
                x = self.l(batch.state.float_features)
                return rlt.RewardNetworkOutput(predicted_reward=torch.sigmoid(x) if c["loss"] == "BCELoss" else x)

        torch.manual_seed(seed)
        return RewardNet()

    def make_nets(self, c, seed):
        from reagent.models.seq2slate import BaselineNet

        kind = c["kind"]
        if kind in RANKING:
            nets = {"net": self.seq2slate(c, seed)}
            if c.get("baseline"):
                torch.manual_seed(seed + 1)
                nets["baseline"] = BaselineNet(S, 4, 1)
            return nets
        if kind == "reward":
            return {"net": self.reward_net(c, seed)}
        if kind == "mdnrnn":
            return {"net": self.memory(c, seed)}
        if kind == "cem":
            return {"net%d" % i: self.memory(c, seed + i) for i in range(c["models"])}
        if kind == "seq2reward":
            return {"net": self.s2r(c, seed), "step": self.fc(seed, c["steps"], ("relu", "relu", "linear"))}
        if kind == "compress":
            return {"net": self.fc(seed, c["A"]), "s2r": self.s2r(c, seed + 1)}
        return {"net": self.fc(seed, c["A"])}

    def build(self, c, seed, dirname):
        """the real trainer over new networks"""
        import reagent.parameters as rp
        from reagent.parameters_seq2slate import IPSClamp, IPSClampMethod, RewardClamp, SimulationParameters

        kind = c["kind"]
        nets = self.make_nets(c, seed)
        o, o2 = tc.opt_union(c["opt"]), tc.opt_union(c["opt2"])
        clamp = IPSClamp(clamp_method=IPSClampMethod(c["clamp"][0]), clamp_max=c["clamp"][1]) if c.get("clamp") else None
        if kind == "ips":
            from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer

            t = Seq2SlateTrainer(nets["net"], 4, rp.Seq2SlateParameters(ips_clamp=clamp), baseline_net=nets.get("baseline"),
                                 baseline_warmup_num_batches=c["warmup"], policy_optimizer=o, baseline_optimizer=o2,
                                 policy_gradient_interval=c["interval"], print_interval=1)
        elif kind == "sim":
            from reagent.training.ranking.seq2slate_sim_trainer import Seq2SlateSimulationTrainer

            names = ["r%d" % i for i in range(len(c["rewards"]))]
            sim = SimulationParameters(
                reward_name_weight={n: c["rewards"][i][0] for i, n in enumerate(names)},
                reward_name_power={n: c["rewards"][i][1] for i, n in enumerate(names)},
                reward_name_path={n: os.path.join(dirname, n + ".pt") for n in names},
                reward_clamp=RewardClamp(*c["rclamp"]) if c["rclamp"] else None, distance_penalty=c["penalty"])
            t = Seq2SlateSimulationTrainer(nets["net"], 4, rp.Seq2SlateParameters(ips_clamp=clamp, simulation=sim),
                                           baseline_net=nets.get("baseline"), baseline_warmup_num_batches=c["warmup"],
                                           policy_optimizer=o, baseline_optimizer=o2, policy_gradient_interval=c["interval"], print_interval=1)
        elif kind == "tf":
            from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer

            t = Seq2SlateTeacherForcingTrainer(nets["net"], rp.Seq2SlateParameters(), 4, policy_optimizer=o,
                                               policy_gradient_interval=c["interval"], print_interval=1)
        elif kind == "dr":
            from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer

            t = Seq2SlateDifferentiableRewardTrainer(nets["net"], rp.Seq2SlateParameters(on_policy=c["on"], ips_clamp=clamp), 4,
                                                     policy_optimizer=o, print_interval=1)
        elif kind == "attn":
            from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer

            t = Seq2SlatePairwiseAttnTrainer(nets["net"], 4, policy_optimizer=o)
        elif kind == "reward":
            from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer

            t = RewardNetTrainer(nets["net"], optimizer=o, loss_type=LossFunction[c["loss"]], reward_ignore_threshold=c["threshold"])
        elif kind in ("mdnrnn", "cem"):
            from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer

            w = c["weights"]
            pars = rp.MDNRNNTrainerParameters(hidden_size=4, learning_rate=c["lr"], num_gaussians=c["gauss"], next_state_loss_weight=w[0],
                                              not_terminal_loss_weight=w[1], reward_loss_weight=w[2], fit_only_one_next_step=c["last"])
            if kind == "mdnrnn":
                t = MDNRNNTrainer(nets["net"], pars)
            else:
                from reagent.models.cem_planner import CEMPlannerNetwork
                from reagent.training.cem_trainer import CEMTrainer

                trainers = [MDNRNNTrainer(m, pars) for m in nets.values()]
                planner = CEMPlannerNetwork(list(nets.values()), 1, 2, 1, 1, 2, S, c["A"], True, False, 1.0)
                t = CEMTrainer(planner, trainers, rp.CEMTrainerParameters(mdnrnn=pars))
        elif kind in ("seq2reward", "compress"):
            pars = rp.Seq2RewardTrainerParameters(learning_rate=c["lr"], multi_steps=c["steps"], gamma=c["gamma"], view_q_value=c["q"],
                                                  action_names=[str(i) for i in range(c["A"])], step_predict_net_size=4,
                                                  compress_model_learning_rate=c["lr"])
            if kind == "seq2reward":
                from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer

                torch.manual_seed(seed)
                t = Seq2RewardTrainer(nets["net"], pars)
                nets["step"] = t.step_predict_network
            else:
                from reagent.training.world_model.compress_model_trainer import CompressModelTrainer

                t = CompressModelTrainer(nets["net"], nets["s2r"], pars)
        else:
            from reagent.training.imitator_training import ImitatorTrainer

            t = ImitatorTrainer(nets["net"], minibatches_per_step=c["per_step"], optimizer=o)
        return t, nets

    # ------------------------------------------------------------ data
    def batch(self, c, B, key):
        import reagent.types as rlt

        g = torch.Generator().manual_seed(key)
        r = lambda *s: torch.randn(*s, generator=g)  # noqa
        kind = c["kind"]
        if kind in RANKING:
            n, k = c["n"], c["tgt"]
            perm = torch.stack([torch.randperm(n, generator=g)[:k] for _ in range(B)])
            best = torch.stack([torch.randperm(n, generator=g)[:k] for _ in range(B)])
            binary = (torch.rand(B, k, generator=g) < 0.5).float()
            return rlt.PreprocessedRankingInput.from_input(
                state=r(B, S), candidates=r(B, n, C), device=torch.device("cpu"), action=perm, optimal_action=best,
                logged_propensities=torch.rand(B, 1, generator=g) * 0.9 + 0.1, slate_reward=r(B, 1), position_reward=binary)
        if kind == "reward":
            y = torch.rand(B, 1, generator=g)
            if key % 2:
                return rlt.PreprocessedRankingInput.from_input(state=r(B, S), candidates=r(B, 2, C), device=torch.device("cpu"), slate_reward=y)
            one = torch.ones(B, 1)
            return rlt.DiscreteDqnInput(state=tc.f(r(B, S)), next_state=tc.f(r(B, S)), reward=y, time_diff=one, step=one, not_terminal=one,
                                        action=one, next_action=one, possible_actions_mask=one, possible_next_actions_mask=one,
                                        extras=rlt.ExtraData())
        A = c["A"]
        if kind == "imitator":
            one = torch.ones(B, 1)
            x = rlt.DiscreteDqnInput(state=tc.f(r(B, S)), next_state=tc.f(r(B, S)), reward=one, time_diff=one, step=one, not_terminal=one,
                                     action=F.one_hot(torch.randint(A, (B,), generator=g), A).float(), next_action=one,
                                     possible_actions_mask=one, possible_next_actions_mask=one, extras=rlt.ExtraData())

            class Wrapped:
                training_input = x

            return Wrapped()
        L = c["steps"] if kind in ("seq2reward", "compress") else 1 + key % 3
        act = F.one_hot(torch.randint(A, (L, B), generator=g), A).float() if c.get("discrete", True) else r(L, B, A)
        return rlt.MemoryNetworkInput(
            state=tc.f(r(L, B, S)), next_state=tc.f(r(L, B, S)), reward=r(L, B), time_diff=torch.ones(L, B), action=act,
            not_terminal=(torch.rand(L, B, generator=g) < 0.7).float(), step=None,
            valid_next_seq_len=torch.randint(1, L + 1, (B, 1), generator=g))

    # ------------------------------------------------------------ reference losses
    def logp(self, net, batch):
        """log-probability of the slate of the batch, symbol by symbol"""
        from reagent.model_utils.seq2slate_utils import Seq2SlateMode

        d = net(batch, mode=Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs
        seq = sum(d[:, i].gather(1, batch.tgt_out_idx[:, i:i + 1]) for i in range(batch.tgt_out_idx.shape[1]))
        return d, seq

    def ratio(self, c, r):
        if not c["clamp"]:
            return r
        how, m = c["clamp"]
        return torch.minimum(r, torch.tensor(m)) if how == "universal" else r * (r <= m).float()

    def mdn_losses(self, c, net, b):
        o = net(b.state, b_action(b))
        w = c["weights"]
        ns, nt, rw = b.next_state.float_features, b.not_terminal.float(), b.reward
        sl = slice(-1, None) if c["last"] else slice(None)
        mus, sig, lpi = o.mus[sl], o.sigmas[sl], o.logpi[sl]
        x = ns[sl].unsqueeze(2)
        lp = (-0.5 * ((x - mus) / sig) ** 2 - torch.log(sig) - 0.5 * math.log(2 * math.pi)).sum(3) + lpi
        gmm = -torch.logsumexp(lp, 2).mean() * w[0]
        z, y = o.not_terminal[sl], nt[sl]
        bce = (-(y * F.logsigmoid(z) + (1 - y) * F.logsigmoid(-z))).mean() * w[1]
        mse = ((o.reward[sl] - rw[sl]) ** 2).mean() * w[2]
        return {"gmm": gmm, "bce": bce, "mse": mse, "loss": gmm / (S + 2) + bce + mse}

    def s2r_loss(self, c, nets, b):
        n = b.valid_next_seq_len.flatten()
        B = len(n)
        ent = 0.0
        x = b.state.float_features[0]
        lg = torch.log_softmax(nets["step"](x), 1)
        ent = -sum(lg[i, int(n[i]) - 1] for i in range(B)) / B
        mse = 0.0
        for i in range(B):
            k = int(n[i])
            # only the steps of the sequence that are valid matter
            out = nets["net"](tc.f(b.state.float_features[:k, i:i + 1]), tc.f(b.action[:k, i:i + 1])).acc_reward
            target = sum(float(b.reward[j, i]) * c["gamma"] ** j for j in range(k))
            mse = mse + (out[0, 0] - target) ** 2
        return mse / B, ent

    def q_values(self, c, net, x):
        """the best reward of all plans that begin with each action"""
        A, L = c["A"], c["steps"]
        rows = []
        with torch.no_grad():
            for i in range(len(x)):
                best = [-float("inf")] * A
                plans = list(itertools.product(range(A), repeat=L))
                a = F.one_hot(torch.tensor(plans), A).float().transpose(0, 1)
                out = net(tc.f(x[i].reshape(1, 1, S).repeat(L, len(plans), 1)), tc.f(a)).acc_reward[:, 0]
                for p, v in zip(plans, out.tolist()):
                    best[p[0]] = max(best[p[0]], v)
                rows.append(best)
        return torch.tensor(rows)

    def reward_loss(self, c, pred, y, train):
        if c["loss"] == "MSE":
            e = (pred - y) ** 2
        elif c["loss"] == "L1Loss":
            e = (pred - y).abs()
        elif c["loss"] == "SmoothL1Loss":
            d = (pred - y).abs()
            e = torch.where(d < 1, 0.5 * d ** 2, d - 0.5)
        else:
            e = -(y * torch.log(pred) + (1 - y) * torch.log(1 - pred))
        if train and c["threshold"] is not None:
            keep = y <= c["threshold"]
            if not bool(keep.any()):
                return None
            e = e[keep]
        return e.mean()

    def expected(self, c, nets, b, n, reported):
        """[(network, loss, steps now)] in order, for the n-th batch; fills in the values the trainer reports"""
        kind = c["kind"]
        if kind in ("ips", "sim"):
            out = []
            base = torch.zeros_like(b.slate_reward)
            bl = torch.zeros(())
            if c["baseline"]:
                v = nets["baseline"](b)
                bl = ((v - b.slate_reward) ** 2).mean()
                out.append(("baseline", bl, True))
                base = v.detach()
            _, lp = self.logp(nets["net"], b)
            ratio = lp.exp() / b.tgt_out_probs
            cl = self.ratio(c, ratio)
            loss = (-cl * (b.slate_reward - base)).mean()
            if not c["baseline"] or n >= c["warmup"]:
                out.append(("net", loss, n % c["interval"] == 0))
            reported.update(train_ips_score=(-ratio * b.slate_reward).mean().reshape(1),
                            train_clamped_ips_score=(-cl * b.slate_reward).mean().reshape(1), train_baseline_loss=bl.reshape(1),
                            train_logged_slate_rank_probs=lp.exp(), train_ips_ratio=ratio, train_clamped_ips_ratio=cl)
            return out
        if kind == "tf":
            from reagent.model_utils.seq2slate_utils import Seq2SlateMode

            d = nets["net"](b, mode=Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs
            loss = -sum(d[:, i].gather(1, b.optim_tgt_out_idx[:, i:i + 1]).sum() for i in range(c["tgt"])) / len(d)
            reported["loss"] = loss
            return [("net", loss, n % c["interval"] == 0)]
        if kind == "dr":
            d, lp = self.logp(nets["net"], b)
            w = (lp - lp.detach()).exp() if c["on"] else self.ratio(c, lp.exp() / b.tgt_out_probs)
            per = sum(-d[:, i].gather(1, b.tgt_out_idx[:, i:i + 1]) * b.position_reward[:, i:i + 1] / math.log(i + 2)
                      for i in range(c["tgt"]))
            loss = (w * per).sum() / len(d)
            reported["loss"] = loss
            return [("net", loss, True)]
        if kind == "attn":
            loss = self.attn_loss(nets["net"], b)
            reported["loss"] = loss
            return [("net", loss, True)]
        if kind == "reward":
            y = b.slate_reward if hasattr(b, "slate_reward") else b.reward
            loss = self.reward_loss(c, nets["net"](b).predicted_reward, y, True)
            if loss is None:
                return None
            reported["loss"] = loss
            return [("net", loss, True)]
        if kind == "mdnrnn":
            ls = self.mdn_losses(c, nets["net"], b)
            reported.update(ls)
            return [("net", ls["loss"], True)]
        if kind == "cem":
            return [(k, self.mdn_losses(c, v, b)["loss"], True) for k, v in nets.items()]
        if kind == "seq2reward":
            mse, ent = self.s2r_loss(c, nets, b)
            reported.update(mse=mse, ent=ent)
            return [("net", mse, True), ("step", ent, True)]
        if kind == "compress":
            x = b.state.float_features[0]
            q = self.q_values(c, nets["s2r"], x)
            out = nets["net"](x)
            loss = ((out - q) ** 2).mean()
            reported.update(mse=loss, acc=(out.argmax(1) == q.argmax(1)).float().mean())
            return [("net", loss, True)]
        x = b.training_input
        lg = torch.log_softmax(nets["net"](x.state.float_features), 1)
        a = x.action.argmax(1)
        reported["acc"] = torch.tensor(round(int((lg.argmax(1) == a).sum()) / len(a), 3))
        return [("net", -lg[torch.arange(len(a)), a].mean() / c["per_step"], n % c["per_step"] == 0)]

    def attn_loss(self, net, b):
        from reagent.model_utils.seq2slate_utils import Seq2SlateMode

        rows = []
        for i in range(len(b.state.float_features)):
            one = rows_of(b, i)
            # one row at a time, twice, so that the row is a batch whatever its size
            rows.append(net(two(one), mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores.reshape(2, -1)[0])
        lp = torch.log_softmax(torch.stack(rows), 1)
        y = b.position_reward
        return (torch.where(y > 0, y * torch.log(y.clamp(min=1e-30)), torch.zeros(())) - y * lp).sum() / len(y)

    # ------------------------------------------------------------ execution
    def run(self, case, probe):
        d = tempfile.mkdtemp(prefix="t04-")
        STEPS.update(on=False, log=[], after={})
        try:
            World(self, copy.deepcopy(case), probe, d).run()
        finally:
            STEPS["on"] = False
            shutil.rmtree(d, ignore_errors=True)


def b_action(b):
    return tc.f(b.action)


def rows_of(b, i):
    return i, b


def two(pair):
    """row i of a ranking batch, twice"""
    import reagent.types as rlt

    i, b = pair
    idx = torch.tensor([i, i])
    return rlt.PreprocessedRankingInput.from_input(
        state=b.state.float_features[idx], candidates=b.src_seq.float_features[idx], device=torch.device("cpu"),
        action=b.tgt_out_idx[idx] - 2)


class Observer:
    def __init__(self, keys):
        self.keys, self.got = keys, {}

    def get_observing_keys(self):
        return self.keys

    def update(self, key, value):
        self.got.setdefault(key, []).append(value)


class World:
    def __init__(self, scn, case, probe, dirname):
        self.s, self.c, self.p, self.dir = scn, case, probe, dirname
        case.setdefault("drop", 0.0)
        self.seed = 11 + case["init"]
        if case["kind"] == "sim":
            for i in range(len(case["rewards"])):
                self.save_reward(i)
        self.start(self.seed)
        self.refnets = scn.make_nets(case, 7)
        self.calls = None
        self.best = None  # of the reward evaluator
        self.evaluator = None

    def reward_model(self, i):
        torch.manual_seed(1000 + i)
        return FakeReward(self.c["n"], self.c["tgt"])

    def save_reward(self, i):
        torch.jit.save(torch.jit.script(self.reward_model(i)), os.path.join(self.dir, "r%d.pt" % i))

    # -------------------------------------------------------- real side
    def start(self, seed):
        self.t, self.nets = self.s.build(self.c, seed, self.dir)
        for k, m in self.nets.items():
            m.register_forward_pre_hook(self.hook(k), with_kwargs=True)
        self.ids = {k: frozenset(id(p) for p in m.parameters()) for k, m in self.nets.items()}
        # batches counted so far (a failed one may or may not be) -> gradients waiting for a step
        self.hyp = [(0, {})]
        self.evaluator = None
        self.best = None
        if not hasattr(self, "chosen"):
            self.chosen = [0.0, 0.0]
        obs = self.t if self.c["kind"] == "ips" else getattr(self.t, "trainer", None) if self.c["kind"] == "sim" else None
        self.obs = None
        if obs is not None and hasattr(obs, "add_observer"):
            self.obs = Observer(["train_ips_score", "train_clamped_ips_score", "train_baseline_loss", "train_logged_slate_rank_probs",
                                 "train_ips_ratio", "train_clamped_ips_ratio"])
            obs.add_observer(self.obs)

    def hook(self, name):
        def pre(module, args, kwargs):
            st = self.calls
            if st is None:
                return
            st["n"] += 1
            if self.c["kind"] == "sim" and name == "net" and "sampled" not in st:
                m = kwargs.get("mode", args[1] if len(args) > 1 else None)
                if m is not None and m.value != "rank":
                    st["sampled"] = args[0] if args else kwargs["input"]
            f = st["fault"]
            if f and st["n"] == f[0] + 1:
                st["fired"] = True
                self.p.fault(("evaluation_" if st["eval"] else "") + "network_error" if f[1] == "error" else "interrupt")
                raise Interrupted("simulated") if f[1] == "error" else KeyboardInterrupt()

        return pre

    def sync(self):
        """the reference networks become the real ones as they are now"""
        for k, m in self.refnets.items():
            m.load_state_dict(self.nets[k].state_dict())
            m.zero_grad()
            m.train()
        return self.refnets

    def grads(self, name, loss):
        ps = list(self.refnets[name].parameters())
        gs = torch.autograd.grad(loss, ps, allow_unused=True, retain_graph=True)
        return [torch.zeros_like(p) if g is None else g for p, g in zip(ps, gs)]

    def snapshot(self):
        return {k: [p.detach().clone() for p in m.parameters()] for k, m in self.nets.items()}

    def modes(self):
        return {k: m.training for k, m in self.nets.items()}

    def call(self, f, fault, ev=False):
        self.calls = {"n": 0, "fault": fault, "fired": False, "eval": ev}
        STEPS.update(on=True, log=[], after={})
        err = res = None
        try:
            res = f()
        except (Exception, KeyboardInterrupt) as e:
            err = e
            if os.environ.get("DST_DEBUG"):
                import traceback
                traceback.print_exc()
        st, self.calls = self.calls, None
        STEPS["on"] = False
        return res, err, st

    def frozen(self, x):
        """tensors of a batch, to see whether it was modified"""
        out = {}

        def walk(o, path):
            if isinstance(o, torch.Tensor):
                out[path] = o.clone()
            elif hasattr(o, "__dict__"):
                for k, v in vars(o).items():
                    walk(v, path + "." + k)

        walk(getattr(x, "training_input", x), "")
        return out

    # -------------------------------------------------------- operations
    def run(self):
        for i, op in enumerate(self.c["ops"]):
            where = "op %d %s" % (i, op)
            if any(not bool((p.abs() < 50).all()) for m in self.nets.values() for p in m.parameters()):
                self.p.hit("diverged")  # numbers of no use for a comparison
                return
            self.p.event(i, op)
            getattr(self, "op_" + op[0])(where, *op[1:])

    def op_train(self, where, B, key, fault):
        c = self.c
        torch.manual_seed(key)
        b = self.s.batch(c, B, key)
        keep = self.frozen(b)
        before = self.snapshot()
        self.sync()
        if self.obs:
            self.obs.got = {}
        torch.manual_seed(key)
        res, err, st = self.call(lambda: self.t.train(b), fault)
        log = STEPS["log"]
        self.p.hit("batches")
        check(all(torch.equal(v, keep[k]) for k, v in self.frozen(b).items()), "batch-modified", where)
        if fault and st["fired"]:
            check(err is not None, "fault-unnoticed", "%s: a failed network call was swallowed" % where)
            check(isinstance(err, (Interrupted, KeyboardInterrupt)), "wrong-error", "%s: %r" % (where, err))
        tb = b
        if c["kind"] == "sim":
            if st.get("sampled") is None:
                check(err is not None, "no-simulated-batch", where)
                check(not log, "stepped-without-data", where)
                self.unchanged(where, before, log)
                self.advance_failed()
                return
            tb = st["sampled"]
            self.simulated(where, b, tb)
        rep = {}
        alts = []
        for n, acc in self.hyp:
            rep = {}
            torch.manual_seed(key)
            exp = self.s.expected(c, self.refnets, tb, n + 1, rep)
            alts.append((n, acc, exp, rep))
        if alts[0][2] is None:  # every reward is to be ignored
            check(err is not None and not log, "ignored-rewards", "%s: trained on a batch whose rewards are all ignored" % where)
            self.unchanged(where, before, log)
            return
        if err is not None and not st["fired"]:
            raise Violation("training-failed", "%s: %s: %s" % (where, type(err).__name__, str(err)[:300]))
        hyp, why = [], None
        for n, acc0, exp, rep in alts:
            events, acc = [], dict(acc0)
            for name, loss, now in exp:
                g = self.grads(name, loss)
                if name in acc:
                    g = [x + y for x, y in zip(acc[name], g)]
                if now:
                    events.append((name, g))
                    acc.pop(name, None)
                else:
                    acc[name] = g
            if err is not None:
                w = self.match(events[:len(log)], log) if len(log) <= len(events) else "more steps than the batch has"
                if w is None:
                    # the failed batch may or may not be counted; networks after the failure have no new gradients
                    done = {e[0] for e in events[:len(log)]}
                    old = {k: g for k, g in acc0.items() if k not in done}
                    hyp += [(n, old), (n + 1, old)]
                else:
                    why = w
            else:
                w = self.match(events, log)
                if w is None:
                    hyp.append((n + 1, acc))
                else:
                    why = why or w
        if not hyp:
            raise Violation("update", "%s: %s" % (where, why))
        self.hyp = hyp
        self.p.hit("steps", len(log))
        if err is not None:
            self.p.hit("failed_batches")
        self.unchanged(where, before, log)
        if err is None:
            self.results(where, res, alts[0][3], tb)
        self.p.event(len(log), type(err).__name__)
        self.p.state(c["kind"], len(log), len(self.hyp), bool(err), sorted(self.hyp[0][1]))

    def advance_failed(self):
        self.hyp = self.hyp + [(n + 1, acc) for n, acc in self.hyp]

    def name_of(self, step):
        for k, ids in self.ids.items():
            if step["ids"] <= ids:
                return k
        return None

    def match(self, events, log):
        got = [self.name_of(s) for s in log]
        want = [e[0] for e in events]
        if got != want:
            return "optimizer steps of %s, expected %s" % (got, want)
        for (name, g), s in zip(events, log):
            cfg = None
            if self.c["kind"] in RANKING + ["reward", "imitator"]:
                cfg = self.c["opt2"] if name == "baseline" else self.c["opt"]
                if s["name"] != cfg[0]:
                    return "%s is stepped by %s" % (name, s["name"])
            lr = cfg[1]["lr"] if cfg else self.c["lr"]
            if s["lr"] != lr:
                return "learning rate %s of %s, not %s" % (s["lr"], name, lr)
            ps = list(self.nets[name].parameters())
            big = max([float(x.abs().max()) for x in g if x.numel()] + [0.0])
            for i, (p, want_g) in enumerate(zip(ps, g)):
                got_g = s["grad"].get(id(p))
                if got_g is None:
                    if bool((want_g != 0).any()):
                        return "%s: parameter %d has no optimizer" % (name, i)
                    continue
                bad = ((got_g - want_g).abs() > 3e-4 * big + 1e-6)
                if bool(bad.any()) or bool((torch.isnan(got_g) != torch.isnan(want_g)).any()):
                    return "%s: gradient %s of parameter %d, expected %s" % (name, got_g.flatten()[:3].tolist(), i, want_g.flatten()[:3].tolist())
        return None

    def unchanged(self, where, before, log):
        """parameters change in optimizer steps only"""
        for k, m in self.nets.items():
            for i, p in enumerate(m.parameters()):
                want = STEPS["after"].get(id(p), before[k][i])
                check(same(p.detach(), want), "changed-outside-step", lambda: "%s: %s parameter %d" % (where, k, i))
        first = {}
        for s in log:
            for pid, v in s["value"].items():
                first.setdefault(pid, v)
        for k, m in self.nets.items():
            for i, p in enumerate(m.parameters()):
                if id(p) in first:
                    check(same(first[id(p)], before[k][i]), "changed-outside-step", lambda: "%s: %s parameter %d" % (where, k, i))

    def results(self, where, res, rep, b):
        kind = self.c["kind"]
        got = {}
        if kind in ("ips", "sim") and self.obs:
            for k in rep:
                v = self.obs.got.get(k)
                check(v is not None and len(v) == 1, "reported", lambda: "%s: %s reported %s times" % (where, k, len(v or [])))
                got[k] = v[0]
        elif kind == "tf":
            got = {"loss": res[1]}
        elif kind == "dr":
            got = {"loss": res["sl"]}
        elif kind == "attn":
            got = {"loss": res["cross_entropy_loss"]}
        elif kind == "reward":
            got = {"loss": res}
        elif kind == "mdnrnn":
            got = {k: res[k] for k in rep}
        elif kind == "seq2reward":
            got = {"mse": res[0], "ent": res[1]}
            if self.c["q"]:
                self.sync()
                q = self.s.q_values(self.c, self.refnets["net"], b.state.float_features[0]).mean(0)
                check(near(torch.tensor(res[2]), q), "reported", lambda: "%s: q values %s, expected %s" % (where, res[2], q.tolist()))
        elif kind == "compress":
            got = {"mse": res[0]}
        for k, v in got.items():
            w = rep[k].detach()
            check(near(torch.as_tensor(v).reshape(w.shape), w, 1e-3), "reported", lambda: "%s: %s is %s, expected %s" % (where, k, v, w))

    # -------------------------------------------------------- simulated slates
    def simulated(self, where, b, tb):
        c = self.c
        check(torch.equal(tb.state.float_features, b.state.float_features)
              and torch.equal(tb.src_seq.float_features, b.src_seq.float_features), "simulated-input", where)
        act = tb.tgt_out_idx - 2
        n, k = c["n"], c["tgt"]
        check(tuple(act.shape) == (len(b.state.float_features), k), "simulated-slate", lambda: "%s: shape %s" % (where, tuple(act.shape)))
        for row in act.tolist():
            check(len(set(row)) == k and all(0 <= x < n for x in row), "simulated-slate", lambda: "%s: %s" % (where, row))
        with torch.no_grad():
            d, lp = self.s.logp(self.refnets["net"], tb)
            # how often the likeliest symbol is chosen, against its probability
            p, top = d.exp().max(2)
            hit = (top == tb.tgt_out_idx).double()
            self.chosen[0] += float((hit - p).sum())
            self.chosen[1] += float((p * (1 - p)).sum())
            s, v = abs(self.chosen[0]), self.chosen[1]
            # Freedman's inequality: beyond this with probability below 1e-13
            check(s <= math.sqrt(2 * v * 31) + 21, "simulated-frequency",
                  lambda: "%s: the likeliest symbols were chosen %.1f times more or less often than their probabilities say (variance %.1f)" % (where, s, v))
        check(near(tb.tgt_out_probs, lp.exp(), 1e-3), "simulated-propensity",
              lambda: "%s: logged %s, the network gives %s" % (where, tb.tgt_out_probs.flatten().tolist(), lp.exp().flatten().tolist()))
        feats = torch.stack([b.src_seq.float_features[i][act[i]] for i in range(len(act))])
        total = torch.zeros(len(act), 1)
        for i, (w, power) in enumerate(c["rewards"]):
            with torch.no_grad():
                r = self.reward_model(i)(b.state.float_features, b.src_seq.float_features, feats, b.src_src_mask, act + 2)
            total = total + w * r ** power
        if c["rclamp"]:
            lo, hi = c["rclamp"]
            total = total if lo is None else torch.maximum(total, torch.tensor(lo))
            total = total if hi is None else torch.minimum(total, torch.tensor(hi))
        if c["penalty"]:
            m = n * (n - 1) / 2
            total = total + torch.tensor([[c["penalty"] * (m - bubble(row))] for row in act.tolist()])
        check(near(tb.slate_reward, total, 1e-4), "simulated-reward",
              lambda: "%s: %s, expected %s" % (where, tb.slate_reward.flatten().tolist(), total.flatten().tolist()))
        self.p.hit("simulated_slates", len(act))

    def op_missing(self, where, B, key):
        """a reward model cannot be read; a trainer that has not loaded it yet fails and works once the file is back"""
        path = os.path.join(self.dir, "r0.pt")
        os.rename(path, path + ".away")
        b = self.s.batch(self.c, B, key)
        before = self.snapshot()
        self.sync()
        torch.manual_seed(key)
        res, err, st = self.call(lambda: self.t.train(b), None)
        os.rename(path + ".away", path)
        self.p.fault("reward_model_missing")
        if err is not None:
            check(st.get("sampled") is None, "wrong-error", "%s: %r" % (where, err))
            check(not STEPS["log"], "stepped-without-data", where)
            self.unchanged(where, before, [])
            self.advance_failed()
            return
        # loaded before: the batch is trained as usual
        tb = st["sampled"]
        self.simulated(where, b, tb)
        ok = []
        for n, acc in self.hyp:
            acc, events = dict(acc), []
            for name, loss, now in self.s.expected(self.c, self.refnets, tb, n + 1, {}):
                g = self.grads(name, loss)
                g = [x + y for x, y in zip(acc[name], g)] if name in acc else g
                if now:
                    events.append((name, g))
                    acc.pop(name, None)
                else:
                    acc[name] = g
            if self.match(events, STEPS["log"]) is None:
                ok.append((n + 1, acc))
        check(ok, "update", where)
        self.hyp = ok
        self.unchanged(where, before, STEPS["log"])

    # -------------------------------------------------------- ranking
    def op_rank(self, where, B, key, greedy):
        """what the network ranks has the probability it reports, and the probabilities of all rankings add up to one"""
        from reagent.model_utils.seq2slate_utils import Seq2SlateMode
        import reagent.types as rlt

        c = self.c
        torch.manual_seed(key)
        b = self.s.batch(c, B, key)
        net = self.sync()["net"]
        n, k = c["n"], c["tgt"]
        with torch.no_grad():
            out = self.nets["net"](b, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=k, greedy=bool(greedy))
            act = out.ranked_tgt_out_idx - 2
            orders = list(itertools.permutations(range(n), k))
            for i in range(B):
                row = act[i].tolist()
                check(len(set(row)) == k and all(0 <= x < n for x in row), "ranking", lambda: "%s: %s" % (where, row))
                m = len(orders)
                alls = rlt.PreprocessedRankingInput.from_input(
                    state=b.state.float_features[i].repeat(m, 1), candidates=b.src_seq.float_features[i].repeat(m, 1, 1),
                    device=torch.device("cpu"), action=torch.tensor(orders))
                d, lp = self.s.logp(net, alls)
                pr = lp.exp().flatten()
                check(abs(float(pr.sum()) - 1) < 1e-3, "ranking-probabilities", lambda: "%s: all rankings add up to %s" % (where, float(pr.sum())))
                seq = torch.exp(net(alls, mode=Seq2SlateMode.PER_SEQ_LOG_PROB_MODE).log_probs).flatten()
                check(near(seq, pr, 1e-3), "ranking-probabilities", where)
                j = orders.index(tuple(row))
                if not greedy:
                    want = float(pr[j])
                    check(near(out.ranked_per_seq_probs[i], torch.tensor([want]), 1e-3), "ranking-probability",
                          lambda: "%s: %s has probability %s, reported %s" % (where, row, want, out.ranked_per_seq_probs[i].tolist()))
                else:
                    for t in range(k):
                        left = [x for x in range(n) if x not in row[:t]]
                        best = max(float(d[j, t, x + 2]) for x in left)
                        check(float(d[j, t, row[t] + 2]) >= best - 1e-4, "greedy-ranking", lambda: "%s: %s" % (where, row))
        self.p.hit("rankings", B)

    # -------------------------------------------------------- restart
    def op_restart(self, where):
        """a new process loads what the trainer saved; everything else starts as in a new trainer"""
        try:
            state = copy.deepcopy(self.t.state_dict())
        except NotImplementedError:
            return
        saved = set(state)
        old = {k: copy.deepcopy(m.state_dict()) for k, m in self.nets.items()}
        if not saved:
            return
        self.start(self.seed + 50)
        self.t.load_state_dict(state)
        trained = [k for k in old if k != "s2r"]
        for k in trained:
            now = self.nets[k].state_dict()
            check(all(same(now[x], v) for x, v in old[k].items()), "not-restored", lambda: "%s: %s is not what it was" % (where, k))
        if "s2r" in old:
            self.nets["s2r"].load_state_dict(old["s2r"])
        self.p.fault("restart")

    # -------------------------------------------------------- evaluation
    def op_eval(self, where, B, key, fault):
        c = self.c
        kind = c["kind"]
        f = getattr(self, "eval_" + kind, None)
        if f is None:
            return
        b = self.s.batch(c, B, key)
        keep = self.frozen(b)
        before, modes = self.snapshot(), self.modes()
        had = {k: [None if p.grad is None else p.grad.clone() for p in m.parameters()] for k, m in self.nets.items()}
        self.sync()
        torch.manual_seed(key)
        run, verify = f(where, b)
        res, err, st = self.call(run, fault, True)
        check(not STEPS["log"], "evaluation-trains", where)
        self.unchanged(where, before, [])
        check(all(torch.equal(v, keep[k]) for k, v in self.frozen(b).items()), "batch-modified", where)
        for k, m in self.nets.items():
            for p, g in zip(m.parameters(), had[k]):
                check((p.grad is None and g is None) or (p.grad is not None and g is not None and torch.equal(p.grad, g)),
                      "evaluation-changes-gradients", lambda: "%s: %s" % (where, k))
        if fault and st["fired"]:
            check(err is not None, "fault-unnoticed", "%s: a failed network call was swallowed" % where)
            self.evaluator = None
            self.best = None
            for k, m in self.nets.items():
                m.train(modes[k])
            return
        if err is not None:
            raise Violation("evaluation-failed", "%s: %s: %s" % (where, type(err).__name__, str(err)[:300]))
        check(self.modes() == modes, "mode-not-restored", where)
        with torch.no_grad():
            verify(res)
        self.p.hit("evaluations")

    def val(self, where, name, got, want, tol=1e-3):
        got, want = torch.as_tensor(got, dtype=torch.float64), torch.as_tensor(want, dtype=torch.float64)
        check(got.numel() == want.numel() and near(got.reshape(want.shape), want, tol), "evaluation-" + name,
              lambda: "%s: %s, expected %s" % (where, got.flatten()[:6].tolist(), want.flatten()[:6].tolist()))

    def eval_mdnrnn(self, where, b):
        from reagent.evaluation.world_model_evaluator import FeatureImportanceEvaluator, FeatureSensitivityEvaluator, LossEvaluator

        c = self.c
        which = b.state.float_features.shape[1] % 3
        net = self.refnets["net"]

        def loss(state, action):
            nb = copy.copy(b)
            nb.state, nb.action = tc.f(state), action
            return float(self.s.mdn_losses(c, net, nb)["loss"])

        if which == 0:
            def verify(res):
                want = self.s.mdn_losses(c, net, b)
                for k in want:
                    self.val(where, "loss", res[k], want[k])
            return (lambda: LossEvaluator(self.t, S).evaluate(b)), verify
        if which == 1:
            ev = FeatureImportanceEvaluator(self.t, c["discrete"], S, c["A"], list(range(c["A"])), list(range(S)))

            def verify(res):
                x, a = b.state.float_features, b.action
                base = loss(x, a)
                want = []
                for i in range(c["A"]):
                    v = a.clone()
                    if c["discrete"]:
                        v[:] = 0.0
                        v[:, :, i] = 1.0
                    else:
                        v[:, :, i] = a[:, :, i].mean()
                    want.append(loss(x, v) - base)
                for i in range(S):
                    v = x.clone()
                    v[:, :, i] = x[:, :, i].mean()
                    want.append(loss(v, a) - base)
                got = res["feature_loss_increase"]
                check(all(abs(float(g) - w) <= 1e-4 * (1 + abs(base)) for g, w in zip(got, want)) and len(got) == len(want),
                      "evaluation-importance", lambda: "%s: %s, expected %s" % (where, got, want))
            return (lambda: ev.evaluate(b)), verify
        ev = FeatureSensitivityEvaluator(self.t, S, list(range(S)))
        perms = []
        real = torch.randperm

        def run():
            def rec(*a, **kw):
                p = real(*a, **kw)
                perms.append(p)
                return p
            torch.randperm = rec
            try:
                return ev.evaluate(b)
            finally:
                torch.randperm = real

        def verify(res):
            if len(perms) != 1 or len(perms[0]) != b.action.shape[1]:
                return  # shuffled some other way
            o1 = net(b.state, tc.f(b.action)).mus
            o2 = net(b.state, tc.f(b.action[:, perms[0]])).mus
            self.val(where, "sensitivity", res["feature_sensitivity"], (o1 - o2).abs().mean((0, 1, 2)), 2e-3)
        return run, verify

    def eval_reward(self, where, b):
        from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator

        if self.evaluator is None:
            self.evaluator, self.best = RewardNetEvaluator(self.t), None
        c, ev = self.c, self.evaluator
        y = b.slate_reward if hasattr(b, "slate_reward") else b.reward

        def run():
            ev.evaluate(b)
            ev.evaluate(b)
            return ev.evaluate_post_training()

        def verify(res):
            net = self.refnets["net"].eval()
            pred = net(b).predicted_reward
            loss = float(self.s.reward_loss(c, pred, y, False))
            self.val(where, "loss", res["loss"], loss)
            self.val(where, "rewards", res["rewards"], torch.cat([y, y]).flatten())
            self.val(where, "predictions", res["pred_rewards"], torch.cat([pred, pred]).flatten())
            if self.best is None or loss < self.best[0]:
                self.best = (loss, copy.deepcopy(net.state_dict()))
            elif abs(loss - self.best[0]) < 1e-6:
                return
            kept = ev.best_model.state_dict()
            check(all(torch.equal(kept[k], v) for k, v in self.best[1].items()), "best-model",
                  lambda: "%s: the model kept is not the one with the lowest loss" % where)
        return run, verify

    def eval_seq2reward(self, where, b):
        from reagent.evaluation.seq2reward_evaluator import Seq2RewardEvaluator

        ev = Seq2RewardEvaluator(self.t)

        def verify(res):
            mse, ent = self.s.s2r_loss(self.c, self.refnets, b)
            self.val(where, "loss", res[0], mse)
            self.val(where, "loss", res[1], ent)
            q = self.s.q_values(self.c, self.refnets["net"], b.state.float_features[0])
            self.val(where, "q-values", res[2], q.mean(0))
            top = q.topk(2, 1).values
            if bool(((top[:, 0] - top[:, 1]) > 1e-4).all()):
                self.val(where, "actions", res[3], torch.bincount(q.argmax(1), minlength=self.c["A"]) / len(q))
        return (lambda: ev.evaluate(b)), verify

    def eval_compress(self, where, b):
        from reagent.evaluation.compress_model_evaluator import CompressModelEvaluator

        ev = CompressModelEvaluator(self.t)

        def verify(res):
            x = b.state.float_features[0]
            q = self.s.q_values(self.c, self.refnets["s2r"], x)
            out = self.refnets["net"](x)
            self.val(where, "loss", res[0], ((out - q) ** 2).mean())
            self.val(where, "q-values", res[1], q.mean(0))
            top = q.topk(2, 1).values
            otop = out.topk(2, 1).values
            if bool(((top[:, 0] - top[:, 1]) > 1e-4).all()):
                self.val(where, "actions", res[2], torch.bincount(q.argmax(1), minlength=self.c["A"]) / len(q))
                if bool(((otop[:, 0] - otop[:, 1]) > 1e-4).all()):
                    self.val(where, "accuracy", res[3], (out.argmax(1) == q.argmax(1)).float().mean())
        return (lambda: ev.evaluate(b)), verify

    def eval_attn(self, where, b):
        from reagent.evaluation.ranking_listwise_evaluator import RankingListwiseEvaluator

        c = self.c
        if c["tgt"] != c["n"]:
            c["tgt_note"] = "the listwise evaluation is of complete rankings"
        ev = RankingListwiseEvaluator(self.nets["net"], c["tgt"], calc_cpe=c["tgt"] == c["n"] and c["n"] > 1)
        ob = Observer(["cross_entropy_loss", "dcg", "ndcg", "mean_ap", "auc", "base_dcg", "base_ndcg", "base_map", "base_auc"])
        ev.add_observer(ob)

        def verify(_):
            self.val(where, "loss", ob.got["cross_entropy_loss"][0], self.s.attn_loss(self.refnets["net"], b))
            if not ev.calc_cpe:
                return
            from reagent.model_utils.seq2slate_utils import Seq2SlateMode

            rank = self.refnets["net"](b, mode=Seq2SlateMode.RANK_MODE, greedy=True).ranked_tgt_out_idx - 2
            logged = b.tgt_out_idx - 2
            y = b.position_reward
            got = {k: [] for k in ("dcg", "ndcg", "mean_ap", "auc", "base_dcg", "base_ndcg", "base_map", "base_auc")}
            for i in range(len(y)):
                good = {int(logged[i, j]) for j in range(c["tgt"]) if y[i, j] > 0}
                if not good or len(good) == c["tgt"]:
                    continue
                for pre, order in (("", rank[i].tolist()), ("base_", logged[i].tolist())):
                    hit = [1.0 if x in good else 0.0 for x in order]
                    dcg = sum(h / math.log2(j + 2) for j, h in enumerate(hit))
                    ideal = sum(1 / math.log2(j + 2) for j in range(len(good)))
                    got[pre + "dcg"].append(dcg)
                    got[pre + "ndcg"].append(dcg / ideal)
                    ap = sum(sum(hit[:j + 1]) / (j + 1) for j, h in enumerate(hit) if h) / len(good)
                    got["mean_ap" if not pre else "base_map"].append(ap)
                    pairs = [(j, m) for j, h in enumerate(hit) if h for m, g in enumerate(hit) if not g]
                    got[pre + "auc"].append(sum(1.0 for j, m in pairs if j < m) / len(pairs))
            for k, v in got.items():
                if v:
                    self.val(where, "ranking-metrics", ob.got[k][0], sum(v) / len(v), 1e-4)
        return (lambda: ev.evaluate(b)), verify

    def eval_ips(self, where, b):
        from reagent.evaluation.ranking_policy_gradient_evaluator import RankingPolicyGradientEvaluator
        from reagent.model_utils.seq2slate_utils import Seq2SlateMode

        c = self.c
        torch.manual_seed(77)
        rn = FakeReward(c["n"], c["tgt"])
        ev = RankingPolicyGradientEvaluator(self.t, True, rn)
        ob = Observer(["eval_baseline_loss", "eval_advantages", "logged_slate_rank_probs", "ranked_slate_rank_probs",
                       "eval_data_pages_g", "eval_data_pages_ng"])
        ev.add_observer(ob)

        def run():
            ev.evaluate(b)
            ev.evaluate(b)
            ev.evaluate_post_training()

        def verify(_):
            net = self.refnets["net"]
            _, lp = self.s.logp(net, b)
            rank = net(b, mode=Seq2SlateMode.RANK_MODE, greedy=True, tgt_seq_len=c["tgt"]).ranked_tgt_out_idx
            base = self.refnets["baseline"](b) if c["baseline"] else torch.zeros_like(b.slate_reward)
            for i in range(2):
                self.val(where, "advantage", ob.got["eval_advantages"][i], (b.slate_reward - base).flatten())
                self.val(where, "baseline", ob.got["eval_baseline_loss"][i], ((b.slate_reward - base) ** 2).mean() if c["baseline"] else 0.0)
                self.val(where, "propensity", ob.got["logged_slate_rank_probs"][i], lp.exp().flatten())
            feats = lambda idx: torch.stack([b.src_seq.float_features[i][idx[i] - 2] for i in range(len(idx))])  # noqa
            args = (b.state.float_features, b.src_seq.float_features)
            logged = rn(*args, feats(b.tgt_out_idx), b.src_src_mask, b.tgt_out_idx)
            best = rn(*args, feats(rank), b.src_src_mask, rank)
            same = (b.tgt_out_idx == rank).all(1, keepdim=True).float()
            for name, prop, mask in (("eval_data_pages_g", torch.ones_like(logged), same),
                                     ("eval_data_pages_ng", lp.exp(), torch.ones_like(logged))):
                page = ob.got[name][0]
                for k, v in (("model_propensities", prop), ("action_mask", mask), ("model_rewards", best),
                             ("model_rewards_for_logged_action", logged), ("logged_rewards", b.slate_reward),
                             ("logged_propensities", b.tgt_out_probs)):
                    self.val(where, "page", getattr(page, k), torch.cat([v, v]))
        return run, verify


SCENARIO = T04()
