"""T01: every algorithm applies exactly its published update to each network, once per batch, also after interruptions."""
import copy
import io
import contextlib

import torch

from dst.core import Scenario, Violation, check
from checks import train_common as tc


class Interrupted(RuntimeError):
    pass


class Batches:
    """the data loader of one session; it may fail while producing a batch"""

    def __init__(self, items, fault, probe):
        self.items, self.fault, self.probe = items, fault, probe

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        for i, b in enumerate(self.items):
            if self.fault and self.fault[0] == "data" and self.fault[1] == i:
                self.fault = None
                self.probe.fault("data_loader_error")
                raise Interrupted("simulated")
            yield b


def flat(x, out=None, pre=""):
    out = {} if out is None else out
    if isinstance(x, torch.Tensor):
        out[pre] = x
    elif isinstance(x, dict):
        for k in x:
            flat(x[k], out, pre + "." + str(k))
    elif hasattr(x, "__dataclass_fields__"):
        for k in x.__dataclass_fields__:
            flat(getattr(x, k), out, pre + "." + k)
    return out


class T01(Scenario):
    id = "T01"
    runs = {"quick": 1600, "thorough": 60000}
    rule = ("a case is an algorithm with its options and a list of training sessions over drawn batches, each ended by its data, a "
            "failure or an interrupt at a drawn forward pass; non-trivial when at least two batches were trained")
    components = {"real": ["ReAgentLightningModule", "DQN, QR-DQN, C51, parametric DQN, SAC, TD3, SlateQ, CRR trainers",
                           "RLTrainer/CPE code", "SoftUpdate, Optimizer wrappers", "pl.Trainer loop", "SummaryWriterContext"],
                  "stub": ["data loader: in memory", "random noise: a function of the batch"]}
    assumptions = ["float64 networks; compared to 2e-6 relative because discounts pass through float32"]

    def setup(self):
        tc.setup()

    def plan(self, rng, index, tier):
        case = tc.plan_algo(rng)
        # the shipped precision, in which masking must not swallow the differences between the allowed actions
        case["f32"] = case["algo"] in ("dqn", "qrdqn", "c51", "parametric") and not case.get("bcq") and rng.random() < 0.25
        if case["f32"]:
            case["opt"], case["opt2"] = ["SGD", {"lr": case["opt"][1]["lr"]}], ["SGD", {"lr": case["opt2"][1]["lr"]}]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            n = rng.choice([1, 2, 3, 5, 12 if rng.random() < 0.15 else 4])
            fault = None
            if rng.random() < 0.45:
                k = rng.randrange(n)
                fault = rng.choice([["data", k], ["forward", k, rng.randrange(0, 14), "error"],
                                    ["forward", k, rng.randrange(0, 14), "interrupt"]])
            ops.append([n, rng.choice([1, 1, 2]), fault])
        case["ops"] = ops
        return case

    def shrink(self, case):
        for i, op in enumerate(case["ops"]):
            for j, v in ((0, op[0] - 1), (1, 1), (2, None)):
                if op[j] != v and (j or op[0] > 1):
                    c = copy.deepcopy(case)
                    c["ops"][i][j] = v
                    yield c
        for k in ("cpe", "metrics", "double", "q2", "value", "alpha", "crr", "kld", "as_dict", "through", "uniform"):
            if case.get(k):
                c = copy.deepcopy(case)
                c[k] = type(case[k])() if not isinstance(case[k], (list, dict)) else None
                if k == "value":
                    c["crr"] = None
                if k == "cpe":
                    c["metrics"] = 0
                yield c
        if case["rl"]["boost"]:
            c = copy.deepcopy(case)
            c["rl"]["boost"] = None
            yield c
        if case["B"] > 2:
            c = copy.deepcopy(case)
            c["B"] = 2
            yield c

    def nontrivial(self, case, probe):
        return probe.hits["batches"] > 1

    def run(self, case, probe):
        import pytorch_lightning as pl
        from reagent.tensorboardX import SummaryWriterContext

        algo = tc.ALGOS[case["algo"]]
        seed = case["seed"] % 100000
        module = algo.build(case, seed)
        if case.get("f32"):
            module = module.float()
        nets = algo.tracked(module)
        torch.manual_seed(seed)
        SummaryWriterContext._reset_globals()
        w = {"steps": 0}
        for si, (n, epochs, fault) in enumerate(case["ops"]):
            data = [algo.batch(case, (seed, si, i)) for i in range(n)]
            keep = [algo.batch(case, (seed, si, i)) for i in range(n)]
            if case.get("f32"):
                data, keep = [tc.cast(b, torch.float32) for b in data], [tc.cast(b, torch.float32) for b in keep]
            ref = algo.Ref(case, nets)
            if case.get("f32"):
                for m in ref.n.values():
                    m.double()
            ref.optimizers()
            st = {"batch": -1, "fwd": 0, "fault": fault, "ended": 0, "in": False}

            def hook(*a):
                if not st["in"]:
                    return
                f = st["fault"]
                if f and f[0] == "forward" and f[1] == st["batch"]:
                    if st["fwd"] == f[2]:
                        st["fault"] = None
                        probe.fault("failure_in_batch" if f[3] == "error" else "interrupt_in_batch")
                        probe.event("interrupted", si, st["batch"], st["fwd"])
                        raise (Interrupted if f[3] == "error" else KeyboardInterrupt)("simulated")
                    st["fwd"] += 1

            class Watch(pl.Callback):
                def on_train_batch_start(self, trainer, pl_module, batch, batch_idx, dataloader_idx):
                    st["batch"] += 1
                    st["fwd"] = 0
                    st["in"] = True
                    tc.NOISE["key"] = (seed, si, st["batch"])

                def on_train_batch_end(self, trainer, pl_module, outputs, batch, batch_idx, dataloader_idx):
                    st["in"] = False
                    st["ended"] += 1
                    w["steps"] += 1
                    T01.compare(case, probe, algo, ref, nets, keep[batch_idx], batch_idx, (si, st["batch"]))
                    check(SummaryWriterContext._global_step == w["steps"], "global-step",
                          lambda: "%d batches trained, global step %s" % (w["steps"], SummaryWriterContext._global_step))

            handles = [m.register_forward_pre_hook(hook) for m in module.modules() if m is not module and not list(m.children())]
            trainer = pl.Trainer(logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None,
                                 max_epochs=epochs, callbacks=[Watch()])
            loader = Batches(data, list(fault) if fault else None, probe)
            stopped = False
            try:
                with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                    trainer.fit(module, loader)
            except Interrupted:
                stopped = True
            except Violation:
                raise
            except Exception as e:
                raise Violation("training-failed", "session %d batch %d: %s: %s" % (si, st["batch"], type(e).__name__, str(e)[:300]))
            finally:
                for h in handles:
                    h.remove()
            hit = stopped or (fault and fault[0] == "forward" and st["fault"] is None)
            if not hit:
                check(st["ended"] == n * epochs, "batches-trained", lambda: "%d of %d batches trained" % (st["ended"], n * epochs))
            for i in range(n):
                a, b = flat(data[i]), flat(keep[i])
                bad = [k for k in b if k not in a or a[k].shape != b[k].shape or not torch.equal(a[k], b[k])]
                check(not bad, "batch-modified", lambda: "training modified the batch in place: %s" % bad)
            probe.hit("batches", st["ended"])
            probe.hit("sessions_" + case["algo"])
            if hit:
                probe.hit("interrupted_" + case["algo"])
            probe.state(case["algo"], si, bool(hit), st["fwd"] if hit else None, case["cpe"], case.get("delay"), case.get("value"))

    @staticmethod
    def compare(case, probe, algo, ref, nets, batch, idx, where):
        import reagent.types as rlt

        cls = {"sac": rlt.PolicyNetworkInput, "td3": rlt.PolicyNetworkInput, "slateq": rlt.SlateQInput,
               "parametric": rlt.ParametricDqnInput}.get(case["algo"], rlt.DiscreteDqnInput)
        b = tc.as_obj(batch, cls)
        tol = 2e-6
        if case.get("f32"):
            b, tol = tc.cast(b, torch.float64), 5e-5
            tc.GAP[0] = 1e30
        ref.train(b, idx)
        exp = ref.params()
        if case.get("f32") and tc.GAP[0] < 1e-3:
            probe.hit("too_close_to_call")
            tol = float("inf")
        for k, m in nets.items():
            got = [p.detach() for p in (m.parameters() if isinstance(m, torch.nn.Module) else [m])]
            for a, e in zip(got, exp[k]):
                d = float((a - e).abs().max())
                check(d <= tol * (1 + float(e.abs().max())), "network-differs-from-reference",
                      lambda: "%s session %d batch %d: %s off by %.3g" % (case["algo"], where[0], where[1], k, d),
                      algo=case["algo"], net=k)
        if case.get("f32"):
            probe.hit("batches_in_float32")
            with torch.no_grad():
                for k, m in nets.items():
                    for p, q in zip(ref.n[k].parameters(), m.parameters()):
                        p.copy_(q)
        probe.event("batch", where, [round(float(e[0].sum()), 6) for e in exp.values()])


SCENARIO = T01()
