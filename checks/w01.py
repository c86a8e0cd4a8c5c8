"""W01: the published-model store survives crashes, disk errors and concurrent publishers."""
import copy
import fcntl
import itertools
import os
import random
import shutil
import tempfile

from dst.core import HarnessError, Scenario, SimCrash, Violation, check
from dst.nodes import Sched
from dst.simdisk import SimDisk
from checks import train_common as tc

_flock = fcntl.flock
MODULES = ["default_model", "dqn", "actor_dqn"]


def managers():
    from reagent.core.configuration import make_config_class  # noqa: F401  (import order)
    from reagent.workflow.model_managers.discrete.discrete_crr import DiscreteCRR
    from reagent.workflow.model_managers.discrete.discrete_dqn import DiscreteDQN
    from reagent.training import parameters as tp
    from reagent.parameters import EvaluationParameters

    def dqn(n):
        return lambda: DiscreteDQN(trainer_param=tp.DQNTrainerParameters(actions=["a%d" % i for i in range(n)]))

    crr = lambda: DiscreteCRR(trainer_param=tp.CRRTrainerParameters(actions=["x", "y"]))  # noqa
    crr2 = lambda: DiscreteCRR(trainer_param=tp.CRRTrainerParameters(actions=["x", "y"]),  # noqa
                               eval_parameters=EvaluationParameters(calc_cpe_in_training=False))
    return [dqn(2), dqn(3), crr, crr2]


class Op:
    def __init__(self, key, kind, value, t0):
        self.key, self.kind, self.value, self.t0, self.t1, self.ok = key, kind, value, t0, None, None


def linearizable(ops, initial=None):
    """register history: writes of distinct values (t1 None: it may or may not ever happen), reads"""
    ops = [o for o in ops if o.kind == "w" or o.t1 is not None]
    seen = set()

    def go(done, value):
        if (done, value) in seen:
            return False
        seen.add((done, value))
        left = [i for i in range(len(ops)) if not done >> i & 1]
        if all(ops[i].kind == "w" and ops[i].t1 is None for i in left):
            return True
        horizon = min((ops[i].t1 for i in left if ops[i].t1 is not None), default=None)
        for i in left:
            o = ops[i]
            if horizon is not None and o.t0 > horizon:
                continue
            if o.kind == "r":
                if o.value == value and go(done | 1 << i, value):
                    return True
            elif go(done | 1 << i, o.value):
                return True
        return False

    return go(0, initial)


class W01(Scenario):
    id = "W01"
    runs = {"quick": 2200, "thorough": 80000}
    rule = ("a case is one to three processes publishing and looking up models of four managers through their own publisher objects "
            "under a drawn schedule, with a crash or disk error at a drawn access and publications of missing files; non-trivial when "
            "at least one lookup followed a publication")
    components = {"real": ["FileSystemPublisher, ModelPublisher.publish", "tinydb", "ModelManager configurations", "flock on real files"],
                  "stub": ["disk: simulated layer over a scratch directory", "processes: cooperative threads", "models: small files"]}
    assumptions = ["a process that dies keeps what it handed to the operating system (no power loss)"]

    def setup(self):
        tc.setup()
        import reagent.publishers.file_system_publisher  # noqa
        self.makers = managers()

    def plan(self, rng, index, tier):
        n = rng.choice([1, 1, 2, 2, 3])
        v = itertools.count(1)
        procs = []
        for p in range(n):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5] if n > 1 else [2, 4, 8])):
                x = rng.random()
                m = rng.randrange(4)
                if x < 0.55:
                    names = MODULES if m >= 2 else MODULES[:1]
                    names = names if rng.random() < 0.8 else rng.sample(names, rng.randrange(1, len(names) + 1))
                    ops.append(["publish", m, names, next(v), int(rng.random() < 0.1)])
                elif x < 0.9:
                    ops.append(["lookup", m, rng.choice(MODULES if m >= 2 else MODULES[:1])])
                else:
                    ops.append(["restart"])
            procs.append(ops)
        fault = None
        if rng.random() < 0.6:
            fault = [rng.choice(["crash", "crash", "crash", "enospc", "eio"]), rng.randrange(0, 60 if n > 1 else 40),
                     rng.choice([0.0, 0.3, 0.7, 1.0])]
        return {"ops": [[p, o] for p, os_ in enumerate(procs) for o in os_], "fault": fault, "buf": rng.choice([64, 256, 8192]),
                "procs": n}

    def shrink(self, case):
        if case["fault"]:
            c = copy.deepcopy(case)
            c["fault"] = None
            yield c
            for k in (0, case["fault"][1] // 2, case["fault"][1] - 1):
                if 0 <= k < case["fault"][1]:
                    c = copy.deepcopy(case)
                    c["fault"][1] = k
                    yield c

    def nontrivial(self, case, probe):
        return probe.hits["found"] > 0

    def run(self, case, probe):
        models = tempfile.mkdtemp(prefix="dst_models_")
        disk = SimDisk(probe, "w01")
        try:
            self.simulate(case, probe, disk, models)
        finally:
            fcntl.flock = _flock
            disk.close()
            shutil.rmtree(models, ignore_errors=True)

    def simulate(self, case, probe, disk, models):
        from reagent.publishers.file_system_publisher import FileSystemPublisher
        from reagent.workflow.types import RLTrainingOutput

        store = os.path.join(disk.root, "published")
        sched = Sched(random.Random(case["seed"]), probe)
        history = []
        clock = itertools.count()
        disk.bufsize = case["buf"]
        names = {}

        def current():
            return names.get(sched.current, 0)

        def before():
            if sched.current is not None:
                sched.pause()

        def flock(fd, op):
            if sched.current is None or not op & fcntl.LOCK_EX and not op & fcntl.LOCK_SH:
                return _flock(fd, op)
            sched.pause()
            while True:
                try:
                    return _flock(fd, op | fcntl.LOCK_NB)
                except BlockingIOError:
                    probe.hit("waited_for_lock")
                    sched.pause()

        disk.proc, disk.before = current, before
        fcntl.flock = flock

        def path(m, name, v):
            return os.path.join(models, "%d_%s_%d" % (m, name, v))

        def perform(pub, op):
            """one call of a client; records it in the history"""
            m = self.makers[op[1]]()
            if op[0] == "publish":
                paths = {}
                for name in op[2]:
                    paths[name] = path(op[1], name, op[3])
                    with open(paths[name], "w"):
                        pass
                if op[4]:
                    paths[op[2][-1]] = path(op[1], "missing", op[3])
                    probe.fault("missing_model_file")
                recs = []
                for name in op[2]:
                    r = Op((op[1], name), "w", paths[name], next(clock))
                    r.refused = bool(op[4])
                    recs.append(r)
                if not op[4]:
                    history.extend(recs)
                try:
                    res = pub.publish(m, RLTrainingOutput(output_paths=paths), {}, 1, None)
                except SimCrash:
                    probe.hit("crashed_publications")
                    raise
                except AssertionError:
                    check(op[4], "publish-failed", "publishing existing models was refused")
                    return
                except OSError as e:
                    check(disk.fired and disk.kind in ("enospc", "eio"), "publish-failed", "publishing raised %r" % e)
                    probe.hit("failed_publications")
                    return
                except Exception as e:
                    raise Violation("publish-failed", "publishing raised %s: %s" % (type(e).__name__, str(e)[:200]))
                check(not op[4], "missing-model-published", "a model file that does not exist was published")
                check(res.value.success, "publish-failed", "publication reported as unsuccessful")
                for r in recs:
                    r.t1 = next(clock)
                probe.event("published", op[1:4])
            else:
                r = Op((op[1], op[2]), "r", None, next(clock))
                try:
                    r.value = pub.get_latest_published_model(m, op[2])
                    probe.hit("found")
                except ValueError as e:
                    check("JSON" not in type(e).__name__, "store-unreadable", "the store cannot be read: %s" % e)
                    r.value = None
                except SimCrash:
                    raise
                except OSError as e:
                    check(disk.fired and disk.kind in ("enospc", "eio"), "lookup-failed", "lookup raised %r" % e)
                    return
                except Exception as e:
                    raise Violation("lookup-failed", "lookup raised %s: %s" % (type(e).__name__, str(e)[:200]))
                r.t1 = next(clock)
                history.append(r)
                probe.event("lookup", op[1:], bool(r.value))

        def process(p):
            def body():
                pub = None
                for q, op in case["ops"]:
                    if q != p:
                        continue
                    if pub is None or op[0] == "restart":
                        try:
                            pub = FileSystemPublisher(publishing_file=store)
                        except OSError:
                            check(disk.fired and disk.kind in ("enospc", "eio"), "open-failed", "opening the store failed")
                            continue
                    if op[0] != "restart":
                        perform(pub, op)
            return body

        with disk:
            if case["fault"]:
                disk.arm(*case["fault"])
            for p in range(case["procs"]):
                n = sched.spawn("p%d" % p, process(p))
                names[n] = p + 1
            sched.run()
            # after the fault: every store entry is readable and the store still works
            disk.restart()
            disk.killed.clear()
            disk.before = None
            pub = FileSystemPublisher(publishing_file=store)
            for m in range(4):
                for name in MODULES if m >= 2 else MODULES[:1]:
                    perform(pub, ["lookup", m, name])
            perform(pub, ["publish", 0, MODULES[:1], 9999, 0])
            perform(FileSystemPublisher(publishing_file=store), ["lookup", 0, MODULES[0]])
        for key in sorted({o.key for o in history}):
            ops = [o for o in history if o.key == key]
            vals = {o.value for o in ops if o.kind == "w"}
            for o in ops:
                check(o.kind == "w" or o.value is None or o.value in vals, "unknown-model",
                      lambda: "module %s resolves to %s, never published for it" % (key, o.value))
            if not linearizable(ops):
                raise Violation("publication-lost", "manager %d module %s: no order explains %s" % (key[0], key[1], [
                    (o.kind, o.value and os.path.basename(o.value), o.t0, o.t1) for o in ops]))
        probe.state(case["procs"], len(history), disk.events, tuple(o.kind for o in history)[:8])


SCENARIO = W01()
