"""O01: off-policy evaluation of bandits reports every experiment's estimate, across workers and faults."""
import copy
import gc
import io
import logging
import math
import os
import pickle
import random
import tempfile
import warnings

from dst.core import Scenario, Violation, check
from dst.simdisk import SimDisk

PROP = 1e-6
J = None  # the run's journal: what the scripted reward models were trained on


class Journal:
    def __init__(self, probe, fail):
        self.probe = probe
        self.trained = {}  # trainer uid -> list of (train rows, validation rows)
        self.calls = 0
        self.fail = fail


def q(x, k=64.0):
    return round(x * k) / k


# --------------------------------------------------------------------------- trainer
def fit_rows(rows):
    """the scripted reward model: a deterministic function of what it was trained on, whatever the order"""
    d = len(rows[0][0])
    n = float(len(rows))
    return [sum((y + 0.5) * x[j] for x, y in rows) / n + 0.03 * (j + 1) for j in range(d)]


def model_score(w, x):
    s = sum(a * b for a, b in zip(w, x))
    return s / (1.0 + abs(s)) * 1.5


def make_trainer_class():
    import torch
    from reagent.ope.estimators.types import PredictResults, Trainer

    class SimTrainer(Trainer):
        def __init__(self, uid):
            super().__init__()
            self.uid = uid

        @property
        def name(self):
            return "sim%d" % self.uid

        def train(self, data, iterations=1, num_samples=0):
            J.calls += 1
            if J.fail is not None and J.calls == J.fail:
                J.probe.fault("reward_model_training_fails")
                raise RuntimeError("simulated training failure")
            rows = [(tuple(a.tolist()), float(b)) for a, b in zip(data.train_x, data.train_y)]
            vali = [(tuple(a.tolist()), float(b)) for a, b in zip(data.validation_x, data.validation_y)]
            J.trained.setdefault(self.uid, []).append((rows, vali))
            J.probe.event("train", self.uid, rows, vali)
            self._model = fit_rows(rows + vali)

        def predict(self, x, device=None):
            return PredictResults(None, torch.tensor([model_score(self._model, r.tolist()) for r in x],
                                                     dtype=torch.float), None)

        def score(self, x, y, weight=None):
            return 0.0

    SimTrainer.__qualname__ = "SimTrainer"
    globals()["SimTrainer"] = SimTrainer
    return SimTrainer


# --------------------------------------------------------------------------- worker processes
class Rngs:
    """random state of one process"""

    @staticmethod
    def get():
        import numpy as np
        import torch

        return (random.getstate(), np.random.get_state(), torch.get_rng_state())

    @staticmethod
    def put(st):
        import numpy as np
        import torch

        random.setstate(st[0])
        np.random.set_state(st[1])
        torch.set_rng_state(st[2])


class SimPool:
    """multiprocessing.Pool in one process: pickled calls and answers, drawn order and placement"""

    world = None

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self.n = processes or 4
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.rngs = [Rngs.get() for _ in range(self.n)]
        self.open = True
        for w in range(self.n):
            if initializer is not None:
                self._in(w, initializer, initargs, {})

    def _in(self, w, f, args, kw):
        mine = Rngs.get()
        Rngs.put(self.rngs[w])
        try:
            return f(*args, **kw)
        finally:
            self.rngs[w] = Rngs.get()
            Rngs.put(mine)

    def _call(self, blob):
        w = self.world.rng.randrange(self.n)
        self.world.before_task()
        self.world.probe.event("worker", w)
        try:
            f, args, kw = pickle.loads(blob)
            return True, pickle.loads(pickle.dumps(self._in(w, f, args, kw)))
        except Exception as e:
            return False, e

    def _all(self, f, argss):
        if not self.open:
            raise ValueError("Pool not running")
        blobs = [pickle.dumps((f, tuple(a), {})) for a in argss]
        order = list(range(len(blobs)))
        self.world.rng.shuffle(order)
        out = [None] * len(blobs)
        done = []
        for i in order:
            out[i] = self._call(blobs[i])
            done.append(i)
        self.world.probe.state("order", tuple(order), self.n)
        if order != sorted(order):
            self.world.probe.hit("workers_finished_out_of_order")
        return out, done

    @staticmethod
    def _values(out, done):
        for i in done:
            if not out[i][0]:
                raise out[i][1]
        return [v for _, v in out]

    def map(self, f, it, chunksize=None):
        return self._values(*self._all(f, [(a,) for a in it]))

    def starmap(self, f, it, chunksize=None):
        return self._values(*self._all(f, list(it)))

    def imap(self, f, it, chunksize=1):
        out, _ = self._all(f, [(a,) for a in it])
        for ok, v in out:
            if not ok:
                raise v
            yield v

    def imap_unordered(self, f, it, chunksize=1):
        out, done = self._all(f, [(a,) for a in it])
        for i in done:
            if not out[i][0]:
                raise out[i][1]
            yield out[i][1]

    def apply_async(self, f, args=(), kwds=None, callback=None, error_callback=None):
        ok, v = self._call(pickle.dumps((f, tuple(args), dict(kwds or {}))))
        return SimResult(ok, v, callback, error_callback)

    def apply(self, f, args=(), kwds=None):
        return self.apply_async(f, args, kwds).get()

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        try:
            return SimResult(True, self.map(f, it), callback, error_callback)
        except Exception as e:
            return SimResult(False, e, callback, error_callback)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        try:
            return SimResult(True, self.starmap(f, it), callback, error_callback)
        except Exception as e:
            return SimResult(False, e, callback, error_callback)

    def close(self):
        self.open = False

    terminate = close

    def join(self):
        if self.open:
            raise ValueError("Pool is still running")

    def __enter__(self):
        return self

    def __exit__(self, *e):
        self.open = False


class SimResult:
    def __init__(self, ok, v, cb, ecb):
        self.ok, self.v = ok, v
        if ok and cb:
            cb(v)
        if not ok and ecb:
            ecb(v)

    def get(self, timeout=None):
        if not self.ok:
            raise self.v
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.ok


# --------------------------------------------------------------------------- references
def clamp(c, v):
    return max(c[0], min(c[1], v))


def mean(v):
    return sum(v) / len(v)


class Ref:
    """the textbook definitions over plain python numbers"""

    def __init__(self, spec, inp):
        self.spec = spec
        self.inp = inp

    def weight(self, s, a):
        lo = s["log_p"][a]
        return clamp(self.spec["clamp"], 0.0 if lo < PROP else s["tgt_p"][a] / lo)

    def scores(self, s, w):
        """reward model over all actions; w is None: logged model outputs"""
        if s["outputs"] is not None:
            return s["outputs"][1], s["outputs"][0]
        sc = [model_score(w, [float(a)] + s["feat"]) for a in range(self.inp["A"])]
        return sc, (sc[s["action"]] if s["action"] is not None else 0.0)

    def dm(self, s, w):
        return sum(a * b for a, b in zip(self.scores(s, w)[0], s["tgt_p"]))

    def estimates(self, samples, w, everything):
        """the set of estimates the definition allows (more than one only where a threshold is on a tie)"""
        k = self.spec["kind"]
        if k == "dm":
            return [mean([self.dm(s, w) for s in samples])]
        if k == "ips":
            ws = [self.weight(s, s["action"]) if s["action"] is not None else 0.0 for s in samples]
            tot = sum(x * s["reward"] for x, s in zip(ws, samples))
            if self.spec["weighted"]:
                return [tot / sum(ws)] if abs(sum(ws)) > 1e-9 else []
            return [tot / len(samples)]
        if k == "dr":
            out = []
            for s in samples:
                v = self.dm(s, w)
                if s["action"] is not None:
                    v += (s["reward"] - self.scores(s, w)[1]) * self.weight(s, s["action"])
                out.append(v)
            return [mean(out)]
        return self.switch(samples, w, everything, k == "switch_dr")

    def switch(self, samples, w, everything, dr):
        A = self.inp["A"]
        rmax = self.spec["rmax"]
        if rmax is None:
            rmax = max(max([s["reward"]] + self.scores(s, w)[0]) for s in everything)
        W = [[self.weight(s, a) for a in range(A)] for s in samples]
        flat = [x for r in W for x in r]
        lo, hi = min(flat), max(flat)
        taus = [lo - 1e-6] + [lo + 1.5 ** i / 1.5 ** 20 * (hi - lo) for i in range(21)]
        cand = []
        for i, t in enumerate(taus):
            near = any(abs(x - t) < 2e-5 for x in flat)
            for eps in ((-3e-5, 3e-5) if near and i else (0.0,)):
                if i == 0:
                    use = lambda x: False  # noqa: E731  (below every weight)
                else:
                    use = lambda x, t=t, e=eps: x <= t + e  # noqa: E731
                vals = []
                for s, ws in zip(samples, W):
                    sc, lg = self.scores(s, w)
                    rho = ws[s["action"]] if s["action"] is not None else 0.0
                    if dr:
                        v = sum(a * b for a, b in zip(sc, s["tgt_p"]))
                        if use(rho):
                            v += rho * (s["reward"] - lg)
                    else:
                        v = sum(a * b for a, b, x in zip(sc, s["tgt_p"], ws) if not use(x))
                        if use(rho):
                            v += rho * s["reward"]
                    vals.append(v)
                m = mean(vals)
                n = len(vals)
                var = sum((v - m) ** 2 for v in vals) / n ** 2
                bias = mean([sum(p * rmax for p, x in zip(s["tgt_p"], ws) if not use(x))
                             for s, ws in zip(samples, W)])
                cand.append((i, var + bias * bias, m))
        grid = [c for c in cand if c[0]]
        # every threshold whose loss may be the smallest, given rounding and ties
        best = min(max(c[1] for c in grid if c[0] == i) for i in set(c[0] for c in grid))
        tol = 1e-4 * abs(best) + 1e-7
        return [c[2] for c in grid if c[1] <= best + tol]


def close(a, b):
    return abs(a - b) <= 2e-4 * max(1.0, abs(a), abs(b))


# --------------------------------------------------------------------------- scenario
class World:
    def __init__(self, case, probe):
        self.probe = probe
        self.cfg = case["cfg"]
        self.rng = random.Random("o01|%d" % case["seed"])
        self.disk = None
        self.task_no = 0
        self.damaged = False
        self.broken = False

    def before_task(self):
        """at-rest damage to a task file before the worker opens it"""
        self.task_no += 1
        for kind, at in self.cfg["damage"]:
            if at != self.task_no:
                continue
            files = sorted(os.listdir(self.disk.root))
            if not files:
                continue
            p = os.path.join(self.disk.root, files[self.rng.randrange(len(files))])
            if kind == "remove":
                os.unlink(p)
            else:
                size = os.path.getsize(p)
                if size < 2:
                    continue
                with open(p, "r+b") as f:
                    f.truncate(0 if kind == "empty" else max(1, int(size * 0.7)))
            self.damaged = True
            self.probe.fault("task_file_%s" % kind)


class O01(Scenario):
    id = "O01"
    runs = {"quick": 500, "thorough": 40000}
    rule = ("a case is a list of experiments (bandit estimators x logged samples), a number of workers and a drawn "
            "schedule, with faults: a task file lost, emptied or torn before its worker reads it, a full disk or I/O "
            "error while the tasks are written, a reward model whose training fails; non-trivial when at least one "
            "reported estimate was compared with its definition")
    components = {"real": ["Evaluator", "run_evaluation", "DMEstimator", "IPSEstimator", "DoublyRobustEstimator",
                           "SwitchEstimator", "SwitchDREstimator", "EstimatorResults", "tempfile, pickle"],
                  "stub": ["multiprocessing.Pool: in-process workers with pickled calls and their own random state",
                           "disk: scratch files behind an event-numbered layer",
                           "reward model: a scripted deterministic regressor which records what it was trained on"]}
    assumptions = ["a worker killed by the system is not injected: CPython's Pool.map itself never returns then"]

    def setup(self):
        import reagent_compat  # noqa: F401
        import numpy  # noqa: F401
        import torch

        torch.set_num_threads(1)
        import reagent.ope.estimators.contextual_bandits_estimators  # noqa: F401
        import reagent.ope.estimators.estimator  # noqa: F401

        if "SimTrainer" not in globals():
            make_trainer_class()
        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")

    # ---------------------------------------------------------------- plan
    def plan(self, rng, index, tier):
        ests = []
        for i in range(rng.choice([1, 2, 3, 5])):
            kind = rng.choice(["dm", "ips", "ips", "dr", "switch", "switch_dr"])
            cl = rng.choice([None, None, [0.0, 2.0], [0.25, 1.5], [0.5, 1e9]])
            ests.append({"kind": kind, "uid": i, "weighted": rng.random() < 0.5,
                         "clamp": cl, "trainer": rng.random() < 0.85,
                         "rmax": rng.choice([None, None, 1.0, 3.0])})
        exps = []
        for k in range(rng.choice([1, 1, 2, 3, 5, 8])):
            mode = rng.choice(["outputs", "train", "train"])
            n = rng.choice([4, 5, 6, 9, 12, 25])
            if rng.random() < 0.15:
                n = rng.choice([1, 2, 3])
            exps.append(["exp", {
                "id": k, "mode": mode, "n": n, "A": rng.choice([1, 2, 3, 5]), "dim": rng.choice([1, 2]),
                "scale": rng.choice([1.0, 1.0, 5.0, 0.01]), "gt": rng.choice(["nan", "value", "some"]),
                "zero": rng.random() < 0.25, "none": rng.random() < 0.3, "neg": rng.random() < 0.4,
                "sharp": rng.choice([1.0, 3.0]), "seed": rng.randrange(10 ** 6)},
                sorted(rng.sample(range(len(ests)), rng.randint(1, len(ests))))])
        faulty = rng.random() < 0.45
        workers = rng.choice([0, 1, 2, 3, 5, 7])
        cfg = {"ests": ests, "workers": workers, "again": rng.random() < 0.2, "direct": rng.random() < 0.3,
               "iter": rng.choice(["list", "list", "tuple", "gen"]), "damage": [], "disk": None, "fail": None,
               "bufsize": rng.choice([64, 512, 8192]), "short": rng.choice([0, 0, 0, 2, 5])}
        if faulty:
            x = rng.random()
            if x < 0.4 and workers:
                cfg["damage"] = [[rng.choice(["remove", "truncate", "empty"]), rng.randint(1, workers)]
                                 for _ in range(rng.choice([1, 1, 2]))]
            elif x < 0.75 and workers:
                cfg["disk"] = [rng.choice(["enospc", "eio"]), rng.choice([rng.randrange(5), rng.randrange(60)]),
                               rng.choice([0.0, 0.5])]
            else:
                cfg["fail"] = rng.randint(1, 6)
        return {"cfg": cfg, "ops": exps}

    def shrink(self, case):
        cfg = case["cfg"]
        for k, v in (("damage", []), ("disk", None), ("fail", None), ("again", False), ("direct", False),
                     ("iter", "list"), ("short", 0), ("workers", 0), ("workers", 1), ("workers", 2)):
            if cfg[k] != v and not (k == "workers" and cfg[k] < (v or 0)):
                c = copy.deepcopy(case)
                c["cfg"][k] = v
                yield c
        for i, op in enumerate(case["ops"]):
            for k, v in (("n", 4), ("n", op[1]["n"] - 1), ("A", 1), ("A", 2), ("dim", 1), ("zero", False),
                         ("none", False), ("neg", False), ("mode", "outputs"), ("gt", "nan"), ("scale", 1.0)):
                if op[1][k] != v and not (k in "nA" and (v < 1 or v > op[1][k])):
                    c = copy.deepcopy(case)
                    c["ops"][i][1][k] = v
                    yield c
            for e in op[2]:
                if len(op[2]) > 1:
                    c = copy.deepcopy(case)
                    c["ops"][i][2] = [x for x in op[2] if x != e]
                    yield c

    def nontrivial(self, case, probe):
        return probe.hits["estimates_compared"] > 0

    # ---------------------------------------------------------------- data
    @staticmethod
    def draw_input(spec):
        """the same plain description for the code under test and for the reference"""
        r = random.Random("inp|%d" % spec["seed"])
        A, n = spec["A"], spec["n"]

        def dist(zero_ok):
            v = [r.random() ** spec["sharp"] + 0.02 for _ in range(A)]
            if zero_ok and A > 1 and r.random() < 0.4:
                v[r.randrange(A)] = 0.0
            t = sum(v)
            return [x / t for x in v]

        samples = []
        for i in range(n):
            log_p = dist(spec["zero"])
            tgt_p = dist(spec["zero"])
            action = r.choices(range(A), weights=[p + 0.01 * (spec["zero"]) for p in log_p])[0]
            if spec["mode"] == "outputs" and spec["none"] and r.random() < 0.3:
                action = None
            rew = q(r.random() * 2 - (0.7 if spec["neg"] else 0.0)) * spec["scale"]
            outputs = None
            if spec["mode"] == "outputs":
                sc = [q(r.random() * 2 - (0.5 if spec["neg"] else 0)) for _ in range(A)]
                outputs = (sc[action] if action is not None else 0.0, sc)
            feat = [(spec["id"] * 64 + i + 1) / 512.0] + [q(r.random()) for _ in range(spec["dim"])]
            gt = float("nan")
            if spec["gt"] == "value" or spec["gt"] == "some" and r.random() < 0.5:
                gt = q(r.random())
            samples.append({"log_p": log_p, "tgt_p": tgt_p, "action": action, "reward": rew, "outputs": outputs,
                            "feat": feat, "gt": gt})
        return {"A": A, "samples": samples, "mode": spec["mode"]}

    @staticmethod
    def real_input(inp):
        import torch
        from reagent.ope.estimators import contextual_bandits_estimators as cb
        from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace

        out = []
        for i, s in enumerate(inp["samples"]):
            out.append(cb.LogSample(
                context=i, log_action=Action(s["action"]), log_reward=s["reward"],
                log_action_probabilities=ActionDistribution(s["log_p"]),
                tgt_action_probabilities=ActionDistribution(torch.tensor(s["tgt_p"])),
                tgt_action=Action(0),
                model_outputs=None if s["outputs"] is None else cb.ModelOutputs(s["outputs"][0], s["outputs"][1]),
                ground_truth_reward=s["gt"],
                item_feature=torch.tensor(s["feat"], dtype=torch.float)))
        return cb.BanditsEstimatorInput(ActionSpace(inp["A"]), out, inp["mode"] == "outputs")

    @staticmethod
    def real_estimator(e):
        from reagent.ope.estimators import contextual_bandits_estimators as cb
        from reagent.ope.utils import Clamper

        tr = SimTrainer(e["uid"]) if e["trainer"] else None  # noqa: F821
        cl = None if e["clamp"] is None else Clamper(*e["clamp"])
        if e["kind"] == "dm":
            return cb.DMEstimator(tr)
        if e["kind"] == "ips":
            return cb.IPSEstimator(cl, e["weighted"])
        if e["kind"] == "dr":
            return cb.DoublyRobustEstimator(tr, cl)
        return (cb.SwitchEstimator if e["kind"] == "switch" else cb.SwitchDREstimator)(tr, cl, e["rmax"])

    # ---------------------------------------------------------------- run
    def run(self, case, probe):
        global J
        import multiprocessing.pool as mpp
        import numpy as np
        import torch
        from reagent.ope.estimators import estimator as em

        cfg = case["cfg"]
        w = World(case, probe)
        J = Journal(probe, cfg["fail"])
        random.seed(case["seed"])
        np.random.seed(case["seed"] % (2 ** 31))
        torch.manual_seed(case["seed"])
        inputs = [self.draw_input(op[1]) for op in case["ops"]]
        real_in = [self.real_input(i) for i in inputs]
        ests = [self.real_estimator(e) for e in cfg["ests"]]
        refs = [dict(e, clamp=e["clamp"] or [-math.inf, math.inf]) for e in cfg["ests"]]
        if cfg["direct"]:
            self.direct(w, case, inputs, real_in, ests, refs)
        exps = [([ests[e] for e in op[2]], real_in[k]) for k, op in enumerate(case["ops"])]
        w.disk = SimDisk(probe, "ope")
        w.disk.bufsize = cfg["bufsize"]
        w.disk.short_every = cfg["short"]
        SimPool.world = w
        saved = (mpp.Pool, getattr(em, "Pool", None), tempfile.tempdir)
        mpp.Pool = SimPool
        if saved[1] is not None:
            em.Pool = SimPool
        tempfile.tempdir = w.disk.root
        try:
            with w.disk:
                again = cfg["again"] and cfg["iter"] != "gen"
                ev = None
                for turn in range(1 + again):
                    J.trained.clear()
                    J.calls = 0
                    w.task_no = 0
                    w.damaged = False
                    if cfg["disk"] and not turn:
                        w.disk.arm(*cfg["disk"])
                    else:
                        w.disk.disarm()
                    results = error = None
                    try:
                        if ev is None:
                            ev = em.Evaluator({"list": list, "tuple": tuple, "gen": iter}[cfg["iter"]](exps),
                                              cfg["workers"])
                        results = ev.evaluate()
                    except Exception as e:
                        error = e
                    probe.event("evaluated", type(error).__name__, sorted(results) if results else None)
                    self.judge(w, case, inputs, ests, refs, results, error)
                    error = None
                    if os.environ.get("DST_DEBUG"):
                        print(results)
            results = ev = None
            gc.collect()
            left = os.listdir(w.disk.root)
            check(not left, "temp-left", lambda: "temporary task files stay behind: %r" % left[:5])
        finally:
            mpp.Pool = saved[0]
            if saved[1] is not None:
                em.Pool = saved[1]
            tempfile.tempdir = saved[2]
            w.disk.close()

    # ---------------------------------------------------------------- verdicts
    def folds(self, inp, uid, skip=0):
        """the two models this trainer learnt for the experiment, with the samples each was trained on"""
        ids = {s["feat"][0]: i for i, s in enumerate(inp["samples"])}
        out = []
        for rows, vali in J.trained.get(uid, []):
            own = [r for r in rows + vali if r[0][1] in ids]
            if not own:
                continue
            check(len(own) == len(rows + vali), "foreign-rows",
                  lambda: "a reward model was trained on samples of two experiments at once")
            seen = set()
            for x, y in own:
                i = ids[x[1]]
                s = inp["samples"][i]
                good = (abs(x[0] - s["action"]) < 1e-6 and abs(y - s["reward"]) < 1e-5
                        and all(abs(a - b) < 1e-5 for a, b in zip(x[1:], s["feat"])) and len(x) == 1 + len(s["feat"]))
                check(good, "wrong-row", lambda: "training row %r -> %r is not sample %d of the log: action %r, features "
                      "%r, reward %r" % (x, y, i, s["action"], s["feat"], s["reward"]))
                seen.add(i)
            out.append((seen, fit_rows(rows + vali)))
        return out

    def allowed(self, inp, spec, nth=0):
        """[(estimate, normalised)] the definition allows, or None: no estimate is defined"""
        ref = Ref(spec, inp)
        S = inp["samples"]
        kind = spec["kind"]
        if kind == "ips" or inp["mode"] == "outputs":
            log = mean([s["reward"] for s in S])
            return [(v, self.norm(v, log)) for v in ref.estimates(S, None, S)] or None
        if not spec["trainer"]:
            return None
        n = len(S)
        # an experiment evaluated twice in one turn is trained twice
        models = self.folds(inp, spec["uid"])[2 * nth: 2 * nth + 2]
        if len(models) < 2:
            return None
        (a, wa), (b, wb) = models
        check(not (a & b) and a | b == set(range(n)) and min(len(a), len(b)) == n // 2, "folds",
              lambda: "%s over %d samples: one model is trained on samples %s, the other on %s: not two complementary "
              "halves" % (kind, n, sorted(a), sorted(b)))
        sa, sb = [S[i] for i in sorted(a)], [S[i] for i in sorted(b)]
        out = []
        for vb in ref.estimates(sb, wa, S):
            for va in ref.estimates(sa, wb, S):
                na, nb = (self.norm(v, mean([s["reward"] for s in x])) for v, x in ((va, sa), (vb, sb)))
                out.append(((va + vb) / 2, None if na is None or nb is None else (na + nb) / 2))
        return out

    @staticmethod
    def norm(v, log):
        if abs(log - 1e-6) < 1e-5:
            return None
        return v / log if log >= 1e-6 else 0.0

    def expect_log(self, inp):
        S = inp["samples"]
        gts = [s["gt"] for s in S if not math.isnan(s["gt"])]
        return mean([s["reward"] for s in S]), (mean(gts) if gts else None)

    def one(self, w, inp, spec, res, what, exp):
        vals = self.allowed(inp, spec)
        if vals is None:
            return False
        log, gt = self.expect_log(inp)
        check(close(res.log_reward, log), "log-reward",
              lambda: "%s reports %r as the logged reward of experiment %d, whose mean is %r" % (
                  what, res.log_reward, exp, log))
        got = res.ground_truth_reward
        check(gt is None or got is not None and close(got, gt), "ground-truth",
              lambda: "%s reports %r as the ground truth of experiment %d, whose mean is %r" % (what, got, exp, gt))
        check(any(close(res.estimated_reward, v) for v, _ in vals), "estimate",
              lambda: "%s estimates %r for experiment %d; by its definition over the logged samples it is %s" % (
                  what, res.estimated_reward, exp, ", ".join("%.6f" % v for v, _ in vals[:4])))
        w.probe.hit("estimates_compared")
        w.probe.hit("compared_%s_%s" % (spec["kind"], inp["mode"]))
        return True

    def direct(self, w, case, inputs, real_in, ests, refs):
        """one estimator on one input, without the evaluator"""
        for k, op in enumerate(case["ops"][:2]):
            for e in op[2]:
                J.trained.clear()
                try:
                    res = ests[e].evaluate(real_in[k])
                except Exception as err:
                    self.excuse(case, inputs, refs, [(k, e)], err)
                    continue
                vals = self.allowed(inputs[k], refs[e])
                what = "%s%s" % (refs[e]["kind"], " (weighted)" if refs[e]["weighted"] else "")
                if res is None:
                    check(vals is None, "no-estimate", lambda: "%s gives no estimate for experiment %d" % (what, k))
                    continue
                if vals is None:
                    check(not math.isfinite(res.estimated_reward) or not self.undefined(inputs[k], refs[e]),
                          "made-up", lambda: "%s estimates %r for experiment %d although it has no reward model for it"
                          % (what, res.estimated_reward, k))
                    continue
                self.one(w, inputs[k], refs[e], res, what, k)
                if not (refs[e]["kind"] == "ips" and refs[e]["weighted"]):
                    got = res.estimated_reward_normalized
                    check(any(nv is None or got is not None and abs(got - nv) <= 1e-3 * max(1.0, abs(nv))
                              for v, nv in vals if close(v, res.estimated_reward)),
                          "normalised", lambda: "%s on experiment %d: %r normalised by the logged reward is reported as "
                          "%r, not %r" % (what, k, res.estimated_reward, got, [nv for _, nv in vals]))

    def undefined(self, inp, spec):
        """the estimator cannot have an estimate here"""
        if spec["kind"] == "ips":
            return False
        return inp["mode"] == "train" and (not spec["trainer"] or len(inp["samples"]) < 4)

    def may_fail(self, inp, spec):
        """the definition has no value here (no reward model, zero total weight), so failing is in order"""
        if spec["kind"] == "ips":
            if not spec["weighted"]:
                return False
            return not Ref(spec, inp).estimates(inp["samples"], None, inp["samples"])
        if spec["trainer"] and any(s["action"] is None for s in inp["samples"]):
            return True  # a sample without an action is no training sample
        return self.undefined(inp, spec)

    def excuse(self, case, inputs, refs, pairs, err):
        """an exception is in order only where an estimate is undefined or a fault was injected"""
        if J.fail is not None and J.calls >= J.fail:
            return
        if any(self.may_fail(inputs[k], refs[e]) for k, e in pairs):
            return
        raise Violation("raises", "evaluating raised %s: %s although every estimate is defined and nothing failed"
                        % (type(err).__name__, str(err)[:200]))

    def judge(self, w, case, inputs, ests, refs, results, error):
        cfg = case["cfg"]
        pairs = [(k, e) for k, op in enumerate(case["ops"]) for e in op[2]]
        io_fault = w.damaged or w.disk.fired
        if error is not None:
            w.probe.hit("evaluation_raised")
            if not io_fault:
                self.excuse(case, inputs, refs, pairs, error)
            return
        failed = J.fail is not None and J.calls >= J.fail
        # which experiments could have failed by the injected training failure: at most one call
        by = {}
        for k, e in pairs:
            by.setdefault(repr(ests[e]), []).append((k, e))
        extra = [n for n in results if n not in by]
        check(not extra, "unknown-estimator", lambda: "results for %r, which was not asked for" % extra)
        excused = 1 if failed else 0
        for name, want in sorted(by.items()):
            got = list(results[name].results) if name in results else []
            left = list(got)
            for k, e in want:
                vals = self.allowed(inputs[k], refs[e])
                if vals is None:
                    continue
                log, gt = self.expect_log(inputs[k])
                hit = [r for r in left if any(close(r.estimated_reward, v) for v, _ in vals)
                       and close(r.log_reward, log)
                       and (gt is None or r.ground_truth_reward is not None and close(r.ground_truth_reward, gt))]
                if not hit:
                    if self.may_fail(inputs[k], refs[e]):
                        continue
                    if excused and refs[e]["kind"] != "ips" and refs[e]["trainer"]:
                        excused -= 1
                        continue
                    near = [r for r in left if close(r.log_reward, log)]
                    if near:
                        self.one(w, inputs[k], refs[e], near[0], name, k)
                    raise Violation("lost", "%s has no result for experiment %d (estimate %s, logged reward %.6f): it "
                                    "reports %r" % (name, k, ", ".join("%.6f" % v for v, _ in vals[:3]), log,
                                                    [(r.estimated_reward, r.log_reward) for r in got]))
                left.remove(hit[0])
                w.probe.hit("estimates_compared")
                w.probe.hit("compared_%s_%s" % (refs[e]["kind"], inputs[k]["mode"]))
                w.probe.hit("parallel_estimates" if cfg["workers"] else "serial_estimates")
            # an estimate left over must belong to nothing but an undefined one: none is allowed
            if left:
                bad = left[0]
                raise Violation("made-up", "%s reports %r (logged reward %r), which is the estimate of no experiment" % (
                    name, bad.estimated_reward, bad.log_reward))
            # a defined estimate may be missing only when its models were never trained: because of the fault
            for k, e in want:
                if self.allowed(inputs[k], refs[e]) is None and not self.may_fail(inputs[k], refs[e]):
                    if excused:
                        excused -= 1
                        continue
                    raise Violation("untrained", "%s: experiment %d has a trainer and enough samples, but no two reward "
                                    "models were trained for it" % (name, k))
            if name in results and got:
                self.summary(w, name, results[name], got)

    def summary(self, w, name, res, got):
        lr, er, gr, dgt, dlog, wt = res.report()
        a = [r.estimated_reward for r in got]
        b = [r.log_reward for r in got]
        c = [r.ground_truth_reward for r in got]
        rep = {"log": (lr, mean(b)), "estimate": (er, mean(a))}
        if all(x is not None and math.isfinite(x) for x in c):
            d = [x - y for x, y in zip(a, c)]
            rep["ground truth"] = (gr, mean(c))
            rep["bias"] = (float(dgt.bias), mean(d))
            rep["rmse"] = (float(dgt.rmse), math.sqrt(mean([x * x for x in d])))
        d = [x - y for x, y in zip(a, b)]
        rep["bias to log"] = (float(dlog.bias), mean(d))
        rep["rmse to log"] = (float(dlog.rmse), math.sqrt(mean([x * x for x in d])))
        if len(d) > 1:
            m = mean(d)
            rep["variance to log"] = (float(dlog.variance), sum((x - m) ** 2 for x in d) / (len(d) - 1))
        for k, (x, y) in rep.items():
            check(close(x, y), "summary", lambda: "%s: the reported %s is %r, over its %d results it is %r" % (
                name, k, x, len(got), y))
        w.probe.hit("summaries")


SCENARIO = O01()
