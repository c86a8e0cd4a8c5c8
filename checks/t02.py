"""T02: training in sessions, with crashes and restarts from checkpoints, equals uninterrupted training."""
import contextlib
import copy
import glob
import io
import os
import shutil
import sys
import tempfile

import torch

from dst.core import HarnessError, Scenario, SimCrash, Violation, check, sut
from checks import train_common as tc

W = {"w": None}


def norm(n, action=False):
    from reagent.parameters import NormalizationData, NormalizationParameters

    t = "CONTINUOUS_ACTION" if action else "CONTINUOUS"
    return NormalizationData(dense_normalization_parameters={
        i: NormalizationParameters(feature_type=t, mean=0.0, stddev=1.0, min_value=-1.0, max_value=1.0) for i in range(n)})


def f32(x):
    if isinstance(x, torch.Tensor):
        return x.float() if x.dtype == torch.float64 else x
    if isinstance(x, dict):
        return {k: f32(v) for k, v in x.items()}
    if hasattr(x, "__dataclass_fields__"):
        return type(x)(**{k: f32(getattr(x, k)) for k in x.__dataclass_fields__})
    return x


def manager(case):
    from reagent.net_builder import unions as u
    from reagent.net_builder.categorical_dqn.categorical import Categorical
    from reagent.net_builder.continuous_actor.fully_connected import FullyConnected as CA
    from reagent.net_builder.continuous_actor.gaussian_fully_connected import GaussianFullyConnected as GA
    from reagent.net_builder.discrete_actor.fully_connected import FullyConnected as DA
    from reagent.net_builder.discrete_dqn.fully_connected import FullyConnected as DQ
    from reagent.net_builder.parametric_dqn.fully_connected import FullyConnected as PQ
    from reagent.net_builder.quantile_dqn.quantile import Quantile
    from reagent.net_builder.value.fully_connected import FullyConnected as VF
    from reagent.parameters import EvaluationParameters
    from reagent.training import parameters as tp
    from reagent.workflow.model_managers.actor_critic.sac import SAC
    from reagent.workflow.model_managers.actor_critic.td3 import TD3
    from reagent.workflow.model_managers.discrete.discrete_c51dqn import DiscreteC51DQN
    from reagent.workflow.model_managers.discrete.discrete_crr import DiscreteCRR
    from reagent.workflow.model_managers.discrete.discrete_dqn import DiscreteDQN
    from reagent.workflow.model_managers.discrete.discrete_qrdqn import DiscreteQRDQN

    a = case["algo"]
    sz = dict(sizes=[3], activations=["tanh"])
    rl = tc.rl_params(case)
    acts = ["a%d" % i for i in range(case["A"])]
    ev = EvaluationParameters(calc_cpe_in_training=case["cpe"])
    o, o2 = tc.opt_union(case["opt"]), tc.opt_union(case["opt2"])
    dq = lambda: u.DiscreteDQNNetBuilder__Union(FullyConnected=DQ(**sz))  # noqa
    if a == "dqn":
        return DiscreteDQN(trainer_param=tp.DQNTrainerParameters(actions=acts, rl=rl, optimizer=o, double_q_learning=case["double"]),
                           net_builder=dq(), cpe_net_builder=dq(), eval_parameters=ev)
    if a == "qrdqn":
        return DiscreteQRDQN(
            trainer_param=tp.QRDQNTrainerParameters(actions=acts, rl=rl, optimizer=o, cpe_optimizer=o2, num_atoms=5,
                                                    double_q_learning=case["double"]),
            net_builder=u.QRDQNNetBuilder__Union(Quantile=Quantile(**sz)), cpe_net_builder=dq(), eval_parameters=ev)
    if a == "c51":
        return DiscreteC51DQN(
            trainer_param=tp.C51TrainerParameters(actions=acts, rl=rl, optimizer=o, num_atoms=5, qmin=-3, qmax=3,
                                                  double_q_learning=case["double"]),
            net_builder=u.CategoricalDQNNetBuilder__Union(Categorical=Categorical(**sz)), eval_parameters=EvaluationParameters(
                calc_cpe_in_training=False))
    if a == "crr":
        return DiscreteCRR(
            trainer_param=tp.CRRTrainerParameters(actions=acts, rl=rl, q_network_optimizer=o, actor_network_optimizer=o2,
                                                  double_q_learning=case["q2"], delayed_policy_update=case["delay"],
                                                  use_target_actor=case["tactor"]),
            actor_net_builder=u.DiscreteActorNetBuilder__Union(FullyConnected=DA(**sz)), critic_net_builder=dq(),
            cpe_net_builder=dq(), eval_parameters=ev)
    pq = u.ParametricDQNNetBuilder__Union(FullyConnected=PQ(**sz))
    feats = dict(state_float_features=[(i, "s%d" % i) for i in range(tc.S)],
                 action_float_features=[(i, "a%d" % i) for i in range(case["A"])],
                 eval_parameters=EvaluationParameters(calc_cpe_in_training=False))
    if a == "td3":
        return TD3(trainer_param=tp.TD3TrainerParameters(rl=rl, q_network_optimizer=o, actor_network_optimizer=o2,
                                                         noise_variance=case["noise"][0], noise_clip=case["noise"][1],
                                                         delayed_policy_update=case["delay"]),
                   actor_net_builder=u.ContinuousActorNetBuilder__Union(FullyConnected=CA(**sz)), critic_net_builder=pq,
                   use_2_q_functions=case["q2"], **feats)
    if a == "sac":
        return SAC(trainer_param=tp.SACTrainerParameters(
            rl=rl, q_network_optimizer=o, value_network_optimizer=o2, actor_network_optimizer=o,
            alpha_optimizer=o2 if case["alpha"] else None, entropy_temperature=case["temp0"], target_entropy=-0.5,
            logged_action_uniform_prior=case["uniform"], backprop_through_log_prob=case["through"]),
            actor_net_builder=u.ContinuousActorNetBuilder__Union(GaussianFullyConnected=GA(**sz)), critic_net_builder=pq,
            value_net_builder=u.ValueNetBuilder__Union(FullyConnected=VF(**sz)) if case["value"] else None,
            use_2_q_functions=case["q2"], **feats)
    raise HarnessError(a)


ALGOS = ["dqn", "qrdqn", "c51", "crr", "td3", "sac"]


class World:
    """one machine: its disk (scratch directory) survives, processes do not"""

    def __init__(self, case, probe, root, tag):
        self.case, self.probe = case, probe
        self.dir = os.path.join(root, tag)
        os.makedirs(self.dir)
        self.seed = case["seed"] % 100000
        self.dead = False
        self.crash = None
        self.trained = []  # (epoch, batch) of the current process
        self.ckpts = {}  # path -> epochs contained
        self.opens = None
        self.at_open = None
        self.autosaves = 0

    def die(self, what):
        self.dead = True
        self.crash = None
        self.probe.fault("crash_" + what)
        self.probe.event("crash", what)
        raise SimCrash()

    # called for every checkpoint Lightning writes
    def autosave(self, real, checkpoint, path):
        if self.dead:
            raise SimCrash()
        j, self.autosaves = self.autosaves, self.autosaves + 1
        c = self.crash
        if c and c[0] == "ckpt" and c[1] == j and c[2] == "before":
            self.die("before_checkpoint_write")
        if c and c[0] == "ckpt" and c[1] == j and c[2] == "torn":
            real(checkpoint, path)
            with open(path, "r+b") as f:
                f.truncate(os.path.getsize(path) * 2 // 3)
            self.die("torn_checkpoint_write")
        real(checkpoint, path)
        if self.opens is None:  # not the temporary copy of save_trainer
            self.ckpts[os.path.abspath(str(path))] = checkpoint["epoch"]
        if c and c[0] == "ckpt" and c[1] == j and c[2] == "after":
            self.die("after_checkpoint_write")

    def on_open(self):
        if self.opens is None:
            return
        n, self.opens = self.opens, self.opens + 1
        if self.at_open and self.at_open[0] == n:
            act, self.at_open = self.at_open[1], None
            act()


class Loader:
    def __init__(self, w, epoch):
        self.w, self.epoch = w, epoch

    def __len__(self):
        return self.w.case["batches"]

    def __iter__(self):
        w = self.w
        for k in range(w.case["batches"]):
            c = w.crash
            if c and c[0] == "batch" and c[1] == self.epoch - w.first and c[2] == k:
                w.die("while_training")
            yield f32(tc.ALGOS[w.case["algo"]].batch(w.case, (w.seed, self.epoch, k)))


def data_module(w):
    from reagent.workflow.data import ReAgentDataModule

    class DM(ReAgentDataModule):
        def get_normalization_data_map(self, keys):
            return {"state": norm(tc.S), "action": norm(w.case["A"], True)}

        def prepare_data(self, *a, **kw):
            pass

        def setup(self, stage=None):
            pass

        def train_dataloader(self):
            return Loader(w, self.trainer.current_epoch)

        def test_dataloader(self):
            return []

    return DM()


class Process:
    """a training process: a manager that trains, then saves"""

    def __init__(self, w, warm, seed):
        from reagent.workflow.types import RewardOptions

        from reagent.tensorboardX import SummaryWriterContext

        self.w = w
        SummaryWriterContext._reset_globals()  # a new process
        self.m = manager(w.case)
        torch.manual_seed(seed)
        self.dm = data_module(w)
        self.trainer = self.m.initialize_trainer(False, RewardOptions(), self.dm.get_normalization_data_map([]), warmstart_path=warm)
        mod = self.trainer

        def start(batch, batch_idx, dataloader_idx):
            tc.NOISE["key"] = (w.seed, mod.trainer.current_epoch, batch_idx)

        def end(outputs, batch, batch_idx, dataloader_idx):
            w.trained.append((mod.trainer.current_epoch, batch_idx))
            w.probe.event("trained", mod.trainer.current_epoch, batch_idx)
            if len(w.trained) > 400:
                raise Violation("epochs", "training does not stop: epoch %d" % mod.trainer.current_epoch)

        mod.on_train_batch_start, mod.on_train_batch_end = start, end

    def train(self, n, first):
        from reagent.workflow.types import ReaderOptions

        self.w.first = first
        self.w.trained = []
        self.w.autosaves = 0
        self.m.train(None, None, self.dm, n, ReaderOptions(), None)

    def save(self, path):
        self.m.save_trainer(path)


def same(a, b, where=""):
    """first difference between two checkpoint values, or None"""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        ok = isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor) and a.shape == b.shape and torch.equal(a, b)
        return None if ok else where
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return where + ": keys %s" % sorted(map(str, set(a) ^ set(b)))
        for k in a:
            d = same(a[k], b[k], "%s.%s" % (where, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return where + ": length"
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, "%s.%d" % (where, i))
            if d:
                return d
        return None
    if callable(a) and callable(b):
        return None
    return None if a == b else where


KEYS = ("state_dict", "optimizer_states", "epoch")


def load(path):
    try:
        c = torch.load(path, map_location="cpu")
    except Exception as e:
        raise Violation("saved-unreadable", "the saved trainer cannot be read: %s: %s" % (type(e).__name__, str(e)[:200]))
    return c


class T02(Scenario):
    id = "T02"
    runs = {"quick": 700, "thorough": 20000}
    rule = ("a case is an algorithm with its options, and sessions of training (epochs each) with process deaths at drawn batches, "
            "checkpoint writes and file accesses; non-trivial when something was resumed")
    components = {"real": ["model managers (DQN, QR-DQN, C51, CRR, TD3, SAC): initialize_trainer, train, save_trainer",
                           "train_eval_lightning, StoppingEpochCallback", "pl.Trainer and its checkpoints", "optimizers and schedules"],
                  "stub": ["data: in-memory batches, a function of the epoch", "noise: a function of the batch",
                           "disk: scratch directory", "TensorBoard event files: none"]}
    assumptions = ["a crash is a process death: no later code of that process runs; what was written stays"]

    def setup(self):
        tc.setup()
        from pytorch_lightning.trainer.connectors import checkpoint_connector as cc

        if getattr(self, "ready", False):
            return
        self.ready = True
        real = cc.atomic_save

        def save(checkpoint, path):
            w = W["w"]
            return w.autosave(real, checkpoint, path) if w is not None else real(checkpoint, path)

        cc.atomic_save = save

        def audit(ev, args):
            if ev == "open" and W["w"] is not None and W["w"].opens is not None:
                W["w"].on_open()

        sys.addaudithook(audit)
        from torch.utils.tensorboard import writer

        class NoFile:
            """TensorBoard's event files are not part of what is decided here"""

            def __init__(self, log_dir, *a, **kw):
                self.dir = str(log_dir)

            def get_logdir(self):
                return self.dir

            def __getattr__(self, k):
                return lambda *a, **kw: None

        writer.FileWriter = NoFile

    def plan(self, rng, index, tier):
        case = tc.plan_algo(rng, exact=True)
        while case["algo"] not in ALGOS:
            case = tc.plan_algo(rng, exact=True)
        case["bcq"] = None
        case["metrics"] = 0
        case["crr"] = None
        case["kld"] = 0
        if case["algo"] == "c51":
            case["cpe"] = False
        for k in ("opt", "opt2"):
            if rng.random() < 0.35:
                case[k] += rng.choice([["StepLR", {"step_size": rng.choice([2, 3, 5]), "gamma": 0.5}],
                                       ["ExponentialLR", {"gamma": 0.8}],
                                       ["CosineAnnealingLR", {"T_max": 7}],
                                       ["MultiStepLR", {"milestones": [2, 5, 9], "gamma": 0.3}]])
        case["batches"] = rng.choice([1, 2, 3])
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            n = rng.choice([1, 1, 2, 3])
            x = rng.random()
            crash = None
            if x < 0.3:
                crash = ["batch", rng.randrange(n), rng.randrange(case["batches"])]
            elif x < 0.5:
                crash = ["ckpt", rng.randrange(n), rng.choice(["before", "after", "torn"])]
            elif x < 0.6:
                crash = ["after_train"]
            elif x < 0.7:
                crash = ["save", rng.randrange(6)]
            race = rng.randrange(6) if crash is None and rng.random() < 0.2 else None
            ops.append([n, crash, race])
        case["ops"] = ops
        return case

    def shrink(self, case):
        for i, op in enumerate(case["ops"]):
            for j, v in ((0, op[0] - 1), (1, None), (2, None)):
                if op[j] != v and (j or op[0] > 1):
                    c = copy.deepcopy(case)
                    c["ops"][i][j] = v
                    yield c
        for k in ("cpe", "q2", "value", "alpha"):
            if case.get(k):
                c = copy.deepcopy(case)
                c[k] = False
                yield c
        for k in ("opt", "opt2"):
            for v in (["SGD", {"lr": 0.05}], case[k][:2]):
                if len(json_len(v)) < len(json_len(case[k])):
                    c = copy.deepcopy(case)
                    c[k] = v
                    yield c
        if case["batches"] > 1:
            c = copy.deepcopy(case)
            c["batches"] -= 1
            yield c

    def nontrivial(self, case, probe):
        return probe.hits["resumed"] > 0

    def run(self, case, probe):
        root = tempfile.mkdtemp(prefix="t02.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        old = os.getcwd()
        tempfile.tempdir = os.path.join(root, "tmp")
        os.makedirs(tempfile.tempdir)
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                self.simulate(case, probe, root)
        finally:
            W["w"] = None
            os.chdir(old)
            tempfile.tempdir = None
            shutil.rmtree(root, ignore_errors=True)

    def call(self, what, f, *a):
        try:
            return f(*a)
        except (SimCrash, Violation, HarnessError):
            raise
        except Exception as e:
            import traceback

            if os.environ.get("DST_DEBUG"):
                traceback.print_exc(file=open("/tmp/tb.txt", "w"))
            fr = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(what + "-failed", "%s: %s (%s:%s)" % (type(e).__name__, str(e)[:300], os.path.basename(fr.filename), fr.name))

    def simulate(self, case, probe, root):
        w = W["w"] = World(case, probe, root, "a")
        os.chdir(w.dir)
        saved = None  # the last trainer saved by a finished session
        done = 0
        for si, (n, crash, race) in enumerate(case["ops"]):
            target = done + n
            warm, first = saved, done
            w.crash = list(crash) if crash else None
            out = os.path.join(w.dir, "session_%d" % si)
            for attempt in range(4):
                w.dead = False
                known = set(w.ckpts)
                try:
                    p = self.call("initialize", Process, w, warm, w.seed + (1000 * (si + 1) + attempt if warm else 0))
                    self.call("training", p.train, n, first)
                    exp = [(e, k) for e in range(first, target) for k in range(case["batches"])]
                    check(w.trained == exp, "epochs", lambda: "session %d (%d epochs, warm start %s) trained %s, expected %s" % (
                        si, n, bool(warm), brief(w.trained), brief(exp)))
                    if warm:
                        probe.hit("resumed")
                        probe.hit("resumed_" + case["algo"])
                    if w.crash and w.crash[0] == "after_train":
                        w.die("before_saving")
                    self.save(w, p, out, race)
                    probe.state(case["algo"], n, str(crash), attempt, race, case["batches"], case["opt"][0], case["opt"][2:3])
                    break
                except SimCrash:
                    new = {f: e for f, e in w.ckpts.items() if f not in known and os.path.exists(f)}
                    if new:
                        # the newest checkpoint of the dead process that can be read
                        warm = max(new, key=lambda f: (new[f], os.path.getmtime(f)))
                        first = new[warm]
                        probe.hit("restarted_from_auto_checkpoint")
                        if first == target:
                            probe.hit("nothing_left_to_train")
                    probe.event("restart", si, attempt, bool(new), first)
                    w.opens = w.at_open = None
                    w.crash = None
            else:
                raise HarnessError("too many attempts")
            done, saved = target, out
        w.opens = None
        got = load(saved)
        ref = W["w"] = World(case, probe, root, "b")
        os.chdir(ref.dir)
        p = self.call("initialize", Process, ref, None, ref.seed)
        self.call("training", p.train, done, 0)
        self.call("saving", p.save, os.path.join(ref.dir, "all"))
        exp = load(os.path.join(ref.dir, "all"))
        for k in KEYS:
            check(k in got, "saved-incomplete", lambda: "the saved trainer has no %s" % k)
            d = same(exp[k], got[k], k)
            check(d is None, "resumed-differs", lambda: "%s after %d epochs: %s differs from training without interruption" % (
                case["algo"], done, d), algo=case["algo"])

    def save(self, w, p, out, race):
        mine = copy.deepcopy(p.trainer.state_dict())
        other = None
        if race is not None:
            w2 = World(w.case, w.probe, w.dir, "other" + os.path.basename(out))
            w2.first = 0
            W["w"] = w2
            here = os.getcwd()
            os.chdir(w2.dir)
            q = self.call("initialize", Process, w2, None, w.seed + 77)
            self.call("training", q.train, 1, 0)
            os.chdir(here)
            other = copy.deepcopy(q.trainer.state_dict())
            W["w"] = w

            def act():
                n, w.opens = w.opens, None
                w.probe.fault("other_process_saves")
                q.save(os.path.join(w2.dir, "out"))
                w.opens = n

            w.at_open = [race, act]
        elif w.crash and w.crash[0] == "save":
            w.at_open = [w.crash[1], lambda: w.die("while_saving")]
        w.opens = 0
        try:
            self.call("saving", p.save, out)
        finally:
            w.opens = None
        c = load(out)
        check(isinstance(c, dict) and "state_dict" in c, "saved-incomplete", "the saved trainer has no state_dict")
        mine = {k: v for k, v in mine.items() if k != "_cleanly_stopped"}
        d = same(mine, {k: v for k, v in c["state_dict"].items() if k != "_cleanly_stopped"}, "state_dict")
        check(d is None, "saved-other-model", lambda: "the saved trainer is not the one saved: %s" % d)
        if other is not None and w.at_open is None:
            c = load(os.path.join(w2.dir, "out"))
            d = same({k: v for k, v in other.items() if k != "_cleanly_stopped"},
                     {k: v for k, v in c["state_dict"].items() if k != "_cleanly_stopped"}, "state_dict")
            check(d is None, "saved-other-model", lambda: "the trainer saved by the other process is not its own: %s" % d)


def json_len(x):
    import json

    return json.dumps(x)


def brief(x):
    return "%d batches, epochs %s" % (len(x), sorted({e for e, _ in x})[:8])


SCENARIO = T02()
