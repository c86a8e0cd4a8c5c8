"""T03: on-policy training (REINFORCE, PPO) uses every trajectory exactly as often as published, also after failures."""
import copy

import torch

from dst.core import Scenario, Violation, check
from checks import train_common as tc

S = tc.S


class Interrupted(RuntimeError):
    pass


_real_randperm = torch.randperm


class T03(Scenario):
    id = "T03"
    runs = {"quick": 1500, "thorough": 80000}
    rule = ("a case is a REINFORCE or PPO trainer with its options and a list of trajectories, failures at drawn network or sampler "
            "calls and restarts from the saved state; non-trivial when at least two updates happened")
    components = {"real": ["Reinforce and PPO trainers", "SoftmaxActionSampler", "networks", "Optimizer wrappers", "Trainer.state_dict"],
                  "stub": ["environment: trajectories are drawn", "torch.randperm: records the orders it hands out"]}
    assumptions = ["losses pass through float32: parameters compared to 2e-5 relative", "plain SGD, so that no rounding is amplified"]

    def setup(self):
        tc.setup()

    def plan(self, rng, index, tier):
        ppo = rng.random() < 0.5
        value = rng.random() < 0.5
        freq = rng.choice([1, 1, 2, 3, 5])
        case = {
            "ppo": ppo, "A": rng.choice([2, 3]), "gamma": rng.choice([0.0, 0.5, 0.9, 1.0]), "freq": freq, "value": value,
            "clip": rng.choice([1e6, 0.5]), "normalize": False if value else rng.random() < 0.6, "submean": rng.random() < 0.6,
            "clampmin": rng.random() < 0.3, "temp": rng.choice([0.5, 1.0, 2.0]), "opt": ["SGD", {"lr": rng.choice([0.02, 0.1])}],
            "opt2": ["SGD", {"lr": rng.choice([0.02, 0.1]), "momentum": rng.choice([0.0, 0.5])}], "masked": rng.random() < 0.4,
        }
        if case["normalize"] and not case["submean"]:
            case["clip"] = 1e6  # clipped rewards may all be equal, which cannot be normalized
        if ppo:
            case.update(epochs=rng.choice([1, 2, 3]), batch=rng.choice([1, 2, 3, 10]), eps=rng.choice([0.0, 0.1, 0.2, 1.0]),
                        entropy=rng.choice([0.0, 0.0, 0.1, -0.2]))
        else:
            case.update(off=rng.random() < 0.5, cparam=rng.choice([1e6, 1.5, 0.8]))
        ops = []
        for _ in range(rng.randint(2, 4 * freq + 4)):
            if ops and rng.random() < 0.07:
                ops.append(["restart"])
                continue
            L = rng.choice([1, 2, 3, 3, 6])
            fault = None
            if rng.random() < 0.15:
                fault = [rng.randrange(0, 12 if ppo else 4), rng.choice(["error", "interrupt"])]
            ops.append(["train", L, fault])
        case["ops"] = ops
        return case

    def nontrivial(self, case, probe):
        return probe.hits["updates"] > 1

    def shrink(self, case):
        for i in range(len(case["ops"])):
            c = copy.deepcopy(case)
            del c["ops"][i]
            yield c
        for i, op in enumerate(case["ops"]):
            if op[0] == "train" and (op[2] or op[1] > 1):
                c = copy.deepcopy(case)
                c["ops"][i] = ["train", 1 if not op[2] else op[1], None]
                yield c
        for k in ("value", "normalize", "submean", "clampmin", "masked", "off", "entropy"):
            if case.get(k):
                c = copy.deepcopy(case)
                c[k] = 0.0 if k == "entropy" else False
                yield c
        for k, v in (("freq", 1), ("epochs", 1), ("clip", 1e6), ("gamma", 0.0)):
            if k in case and case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c

    # ------------------------------------------------------------ the real trainer
    def build(self, case, seed):
        from reagent.gym.policies.policy import Policy
        from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
        from reagent.training.ppo_trainer import PPOTrainer
        from reagent.training.reinforce import Reinforce, ReinforceParams

        scorer = tc.fc_dqn(seed, case["A"]).float()
        value = None
        if case["value"]:
            value = tc.fc_dqn(seed + 1, 1).float()
        sampler = SoftmaxActionSampler(temperature=case["temp"])
        policy = Policy(scorer=scorer, sampler=sampler)
        common = dict(gamma=case["gamma"], reward_clip=case["clip"], normalize=case["normalize"], subtract_mean=case["submean"],
                      offset_clamp_min=case["clampmin"], update_freq=case["freq"], optimizer=tc.opt_union(case["opt"]),
                      optimizer_value_net=tc.opt_union(case["opt2"]))
        if case["ppo"]:
            t = PPOTrainer(policy=policy, value_net=value, update_epochs=case["epochs"], ppo_batch_size=case["batch"],
                           ppo_epsilon=case["eps"], entropy_weight=case["entropy"], **common)
        else:
            t = Reinforce(policy, ReinforceParams(off_policy=case["off"], clip_param=case["cparam"], **common), value_net=value)
        return t, scorer, value, sampler

    def trajectory(self, case, key, L, dtype=torch.float32):
        import reagent.types as rlt

        g = tc.gen(key)
        A = case["A"]
        mask = tc.rmask(g, L, A) if case["masked"] else None
        act = tc.one_hot(g, L, A, mask if mask is not None else torch.ones(L, A))
        return rlt.PolicyGradientInput(
            state=tc.f(torch.randn(L, S, generator=g).to(dtype)), action=act,
            reward=torch.randn(L, generator=g).to(dtype), log_prob=-torch.rand(L, generator=g).to(dtype) * 2,
            possible_actions_mask=mask)

    # ------------------------------------------------------------ the reference
    def losses(self, case, nets, tr):
        """(policy loss, value loss) of one trajectory, step by step"""
        L = len(tr.reward)
        ret, R = [0.0] * L, 0.0
        for t in reversed(range(L)):
            r = min(float(tr.reward[t]), case["clip"])
            R = r + case["gamma"] * R
            ret[t] = R
        if case["normalize"] and L > 1:
            mean = sum(ret) / L
            std = (sum((x - mean) ** 2 for x in ret) / (L - 1)) ** 0.5
            ret = [(x - (mean if case["submean"] else 0.0)) / (std + 2.220446049250313e-16) for x in ret]
        elif case["normalize"] and case["submean"]:
            ret = [0.0]
        if case["clampmin"]:
            ret = [max(x, 0.0) for x in ret]
        ret = torch.tensor(ret, dtype=torch.float64)
        vloss = None
        if nets[1] is not None:
            v = nets[1](tr.state)[:, 0]
            vloss = ((v - ret) ** 2).mean()
            ret = ret - v.detach()
        sc = nets[0](tr.state)
        if tr.possible_actions_mask is not None:
            sc = torch.where(tr.possible_actions_mask > 0, sc, torch.full_like(sc, -1e30))
        logp = torch.log_softmax(sc / case["temp"], 1)
        lp = logp[torch.arange(L), tr.action.argmax(1)]
        if not case["ppo"]:
            if case["off"]:
                w = torch.minimum((lp - tr.log_prob).exp(), torch.tensor(case["cparam"], dtype=torch.float64))
            else:
                w = lp
            return -(ret * w).sum(), vloss
        w = (lp - tr.log_prob).exp()
        loss = -torch.minimum((ret * w).sum(), (ret * w.clamp(1 - case["eps"], 1 + case["eps"])).sum())
        if case["entropy"]:
            p = logp.exp()
            ent = -(p * torch.where(p > 0, logp, torch.zeros_like(logp))).sum(1).mean()
            loss = loss - case["entropy"] * ent
        return loss, vloss

    def step(self, case, nets, opts, trajs):
        ls = [self.losses(case, nets, t) for t in trajs]
        opts[0].step(sum(l for l, _ in ls) / len(ls))
        if nets[1] is not None:
            opts[1].step(sum(v for _, v in ls) / len(ls))

    @staticmethod
    def params(nets):
        return [p.detach().clone() for n in nets if n is not None for p in n.parameters()]

    @staticmethod
    def distance(a, b):
        d = 0.0
        for x, y in zip(a, b):
            x, y = x.double(), y.double()
            if not bool(torch.isfinite(x).all()):
                return float("inf")
            d = max(d, float(((x - y).abs() / (1 + y.abs())).max()))
        return d

    # ------------------------------------------------------------ run
    def run(self, case, probe):
        seed = case["seed"] % 100000
        st = {"left": None, "kind": None, "perms": [], "calls": 0}

        def trip(*a, **kw):
            st["calls"] += 1
            if st["left"] is None:
                return
            if st["left"] == 0:
                st["left"] = None
                probe.fault("network_error" if st["kind"] == "error" else "interrupt")
                raise (Interrupted if st["kind"] == "error" else KeyboardInterrupt)("simulated")
            st["left"] -= 1

        def randperm(n, *a, **kw):
            x = _real_randperm(n, *a, **kw)
            st["perms"].append(x.tolist())
            return x

        def wire(t, scorer, value, sampler):
            for n in (scorer, value):
                if n is not None:
                    n.register_forward_pre_hook(lambda *a: trip())
            real = sampler.log_prob

            def log_prob(*a, **kw):
                trip()
                return real(*a, **kw)

            sampler.log_prob = log_prob

        trainer, scorer, value, sampler = self.build(case, seed)
        nets = [copy.deepcopy(scorer).double(), copy.deepcopy(value).double() if value is not None else None]
        for n in nets:
            if n is not None:
                n._forward_pre_hooks.clear()

        def optimizers():
            return [tc.RefOpt(case["opt"], nets[0].parameters()), tc.RefOpt(case["opt2"], nets[1].parameters()) if nets[1] is not None else None]

        opts = optimizers()
        wire(trainer, scorer, value, sampler)
        pending = []  # trajectories waiting for their update
        torch.randperm = randperm
        try:
            for oi, op in enumerate(case["ops"]):
                torch.manual_seed(seed + oi)
                if op[0] == "restart":
                    saved = copy.deepcopy(trainer.state_dict())
                    trainer, scorer, value, sampler = self.build(case, seed + 77)
                    trainer.load_state_dict(saved)
                    d = self.distance(self.params([scorer, value]), self.params(nets))
                    check(d <= 2e-5, "restored-state", lambda: "op %d: restored networks differ by %.3g" % (oi, d))
                    wire(trainer, scorer, value, sampler)
                    opts, pending = optimizers(), []
                    self.adopt(nets, (scorer, value))
                    probe.fault("restart")
                    continue
                tr, keep = self.trajectory(case, (seed, oi), op[1]), self.trajectory(case, (seed, oi), op[1])
                ref = self.trajectory(case, (seed, oi), op[1], torch.float64)
                st.update(perms=[], left=op[2][0] if op[2] else None, kind=op[2][1] if op[2] else None)
                err = None
                try:
                    trainer.train(tr)
                except (Interrupted, KeyboardInterrupt) as e:
                    err = e
                except Exception as e:
                    raise Violation("training-failed", "trajectory %d: %s: %s" % (oi, type(e).__name__, str(e)[:300]))
                hit = op[2] is not None and st["left"] is None
                st["left"] = None
                check(hit == (err is not None), "fault-unnoticed", lambda: "trajectory %d: a failing network was not reported" % oi)
                bad = [k for k in ("action", "reward", "log_prob", "possible_actions_mask") if getattr(keep, k) is not None
                       and not torch.equal(getattr(tr, k), getattr(keep, k))]
                bad += [] if torch.equal(tr.state.float_features, keep.state.float_features) else ["state"]
                check(not bad, "trajectory-modified", lambda: "trajectory %d: %s" % (oi, bad))
                where = "%s trajectory %d" % ("PPO" if case["ppo"] else "REINFORCE", oi)
                now = self.params([scorer, value])
                if not case["ppo"]:
                    if not hit:
                        pending.append(ref)
                    # a failure while a trajectory is looked at leaves no trace of it
                    if not hit and len(pending) == case["freq"]:
                        self.step(case, nets, opts, pending)
                        probe.hit("updates")
                        pending = []
                    d = self.distance(now, self.params(nets))
                    check(d <= 2e-5, "differs-from-reference", lambda: "%s of length %d (%d pending of %d): parameters off by %.3g" % (
                        where, op[1], len(pending), case["freq"], d))
                else:
                    pending.append(ref)
                    if len(pending) == case["freq"]:
                        self.ppo_update(case, probe, nets, opts, pending, st["perms"], now, hit, where)
                        pending = []
                    else:
                        d = self.distance(now, self.params(nets))
                        check(d <= 2e-5, "early-update", lambda: "%s: parameters moved by %.3g with %d of %d trajectories" % (
                            where, d, len(pending), case["freq"]))
                self.adopt(nets, (scorer, value))
                probe.hit("trajectories")
                probe.event("trained", oi, hit, len(pending), [round(float(p.sum()), 5) for p in now])
                probe.state(case["ppo"], case["freq"], len(pending), hit, op[1], case["value"], case["normalize"])
        finally:
            torch.randperm = _real_randperm

    @staticmethod
    def adopt(nets, real):
        """follow the real parameters so that rounding does not add up"""
        with torch.no_grad():
            for n, r in zip(nets, real):
                if n is not None:
                    for a, b in zip(n.parameters(), r.parameters()):
                        a.copy_(b)

    def ppo_update(self, case, probe, nets, opts, trajs, perms, now, hit, where):
        n = len(trajs)
        if not hit:
            check(len(perms) == case["epochs"], "passes", lambda: "%s: %d random orders for %d epochs" % (where, len(perms), case["epochs"]))
        states = [self.snap(nets, opts)]
        for order in perms:
            check(sorted(order) == list(range(n)), "order", lambda: "%s: order %s of %d trajectories" % (where, order, n))
            for i in range(0, n, case["batch"]):
                self.step(case, nets, opts, [trajs[k] for k in order[i:i + case["batch"]]])
                states.append(self.snap(nets, opts))
        if not hit:
            d = self.distance(now, self.params(nets))
            check(d <= 2e-4, "differs-from-reference", lambda: "%s, update on %d: parameters off by %.3g" % (where, n, d))
            probe.hit("updates")
            return
        # the update stopped after some of its minibatches
        ds = [self.distance(now, s[0]) for s in states]
        k = min(range(len(ds)), key=lambda i: ds[i])
        check(ds[k] <= 2e-4, "torn-update", lambda: "%s: after a failed update the parameters match no number of minibatches (%.3g)" % (where, ds[k]))
        self.restore(nets, opts, states[k])
        probe.hit("failed_updates")

    def snap(self, nets, opts):
        return (self.params(nets), [copy.deepcopy(o.opt.state_dict()) if o else None for o in opts])

    def restore(self, nets, opts, s):
        ps = [p for n in nets if n is not None for p in n.parameters()]
        with torch.no_grad():
            for p, v in zip(ps, s[0]):
                p.copy_(v)
        for o, d in zip(opts, s[1]):
            if o:
                o.opt.load_state_dict(d)


SCENARIO = T03()
