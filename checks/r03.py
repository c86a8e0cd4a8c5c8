"""R03: replay-buffer checkpoints survive crashes, disk faults and restarts."""
import copy
import os
import warnings

from dst.core import Scenario, SimCrash, Violation, check, sut
from dst.simdisk import SimDisk
from checks import rb_common as rb
from checks.r01 import R01

KEEP = 4


class World:
    """one machine: the disk survives, the process (buffer) does not"""

    def __init__(self, cfg, probe):
        self.cfg = cfg
        self.probe = probe
        self.disk = SimDisk(probe, "rb")
        self.dir = os.path.join(self.disk.root, "ckpt")
        os.mkdir(self.dir)
        self.iters = {}  # iteration -> ("complete", model) | ("maybe", [models])
        self.fresh()

    def fresh(self):
        cfg = self.cfg
        with sut("construct", "constructing the buffer"):
            if cfg["prio"]:
                from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer

                self.buf = PrioritizedReplayBuffer(
                    stack_size=cfg["S"], replay_capacity=cfg["C"], batch_size=2,
                    update_horizon=cfg["n"], gamma=cfg["gamma"])
            else:
                self.buf = rb.new_buffer(cfg)
        self.model = rb.RBModel(cfg["C"], cfg["S"], cfg["n"], cfg["gamma"])
        self.prio = {}
        self.feed = rb.Feeder(cfg)


class R03(Scenario):
    id = "R03"
    runs = {"quick": 1500, "thorough": 40000}
    rule = ("a case is a buffer configuration plus a history of adds, checkpoint saves, crashes and I/O errors at a "
            "numbered disk event inside a save, at-rest damage, restarts and loads; non-trivial when at least one "
            "load was compared with the checkpointed history")
    components = {"real": ["ReplayBuffer.save/load", "PrioritizedReplayBuffer", "SumTree", "gzip, pickle, numpy"],
                  "stub": ["disk: real scratch files behind an event-numbered open/write/rename/remove layer"]}
    assumptions = ["a crash loses what the process had not handed to the operating system; what it had is durable",
                   "saving an iteration again may lose the older checkpoint of the same iteration when interrupted"]
    setup = R01.setup

    def plan(self, rng, index, tier):
        prio = rng.random() < 0.3
        cfg = rb.plan_config(rng)
        cfg["C"] = min(cfg["C"], 20)
        cfg["prio"] = prio
        if prio:
            cfg.update(everything=False, timeline=False,
                       extras=[e for e in cfg["extras"] if not e.startswith("ex_i") and not e.startswith("ex_sc")])
        cfg["bufsize"] = rng.choice([64, 512, 8192])
        faulty = rng.random() < 0.75
        nops = rng.choice([3, 6, 10, 16] if tier == "quick" else [6, 12, 24, 40])
        mean = rng.choice([1.5, 3, 8])
        it = rng.choice([0, 1, 7])
        ops = []
        for _ in range(nops):
            for _ in range(rng.choice([0, 1, 2, 5, 12])):
                ops.append(["add", int(rng.random() < 1.0 / mean)])
            x = rng.random()
            if x < 0.6:
                f = None
                if faulty and rng.random() < 0.55:
                    f = [rng.choice(["crash", "crash", "enospc", "eio"]),
                         rng.choice([rng.randrange(6), rng.randrange(40), rng.randrange(130)]),
                         rng.choice([0.0, 0.3, 0.9])]
                ops.append(["save", it, f])
                if f is None or rng.random() < 0.6:
                    it += rng.choice([1, 1, 1, 1, 2, 4])
            elif x < 0.72 and faulty:
                ops.append(["damage", rng.randrange(8), rng.choice(["remove", "truncate", "empty"]),
                            rng.randrange(40), rng.random()])
            elif x < 0.80:
                ops.append(["restart"])
            else:
                ops.append(["load", rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6]), rng.random() < 0.5])
        ops.append(["audit"])
        return {"cfg": cfg, "ops": ops}

    def shrink(self, case):
        yield from rb.shrink_config(case)
        for i, op in enumerate(case["ops"]):
            if op[0] == "save" and op[2]:
                for v in (None, [op[2][0], op[2][1] // 2, op[2][2]], [op[2][0], op[2][1] - 1, op[2][2]]):
                    if v is None or v[1] >= 0:
                        c = copy.deepcopy(case)
                        c["ops"][i][2] = v
                        yield c
        if case["cfg"]["prio"]:
            c = copy.deepcopy(case)
            c["cfg"]["prio"] = False
            yield c

    def nontrivial(self, case, probe):
        return probe.hits["loads_equal"] > 0

    # ------------------------------------------------------------------ run
    def run(self, case, probe):
        w = World(case["cfg"], probe)
        w.disk.bufsize = case["cfg"]["bufsize"]
        try:
            with w.disk, rb.DirtyMemory(case["seed"], probe):
                for op in case["ops"]:
                    getattr(self, "op_" + op[0])(w, *op[1:])
        finally:
            w.disk.close()

    def op_add(self, w, terminal):
        tr = w.feed.next(terminal)
        if w.cfg["prio"]:
            tr["priority"] = 0.5 + (w.feed.q % 5)
            before = w.model.total
        with sut("add-refused", "add"):
            w.buf.add(**tr)
        pr = tr.pop("priority", None)
        w.model.add(rb.model_value(tr))
        if w.cfg["prio"]:
            for k in range(before, w.model.total):
                w.prio[k % w.cfg["C"]] = pr if k == w.model.total - 1 else 0.0
        w.feed.accepted(terminal)
        w.probe.event("add", terminal)

    def snap(self, w):
        return (w.model.clone(), dict(w.prio), w.feed.q, w.feed.ep, w.feed.pos)

    def op_save(self, w, it, fault):
        if not w.model.total:
            w.probe.hit("saved_empty")
        snap = self.snap(w)
        old = w.iters.get(it)
        stale = it - KEEP
        if fault:
            w.disk.arm(fault[0], fault[1], fault[2])
        w.probe.event("save", it)
        try:
            w.buf.save(w.dir, it)
        except SimCrash:
            outcome = "crash"
        except OSError as e:
            if not w.disk.fired:
                raise Violation("save-failed", "save raised %r without a disk fault" % (e,))
            outcome = "error"
        else:
            outcome = "ok"
        fired = w.disk.fired
        w.disk.disarm()
        if outcome == "ok":
            w.iters[it] = ("complete", [snap])
            old_stale = w.iters.pop(stale, None)
            if not w.model.total:
                # an empty buffer has no arrays, so it does not know the names of the
                # array files of an older, non-empty checkpoint
                if old_stale:
                    w.iters[stale] = ("maybe", old_stale[1])
                return
            left = [f for f in sorted(os.listdir(w.dir)) if ".%d.gz" % stale in f] if stale >= 0 else []
            check(not left, "not-collected", lambda: "after checkpoint %d, files of checkpoint %d remain: %s" % (it, stale, left[:3]))
            w.probe.hit("saves_completed")
        else:
            assert fired
            cands = (old[1] if old else []) + [snap]
            w.iters[it] = ("maybe", cands)
            if stale in w.iters:
                w.iters[stale] = ("maybe", w.iters[stale][1])
            w.probe.hit("saves_interrupted")
        if outcome == "crash":
            self.op_restart(w)
        w.disk.fired = False
        w.probe.state(outcome, len(w.iters), sorted((i - it, s[0]) for i, s in w.iters.items()))

    def op_restart(self, w):
        w.disk.restart()
        w.fresh()
        w.probe.event("restart")
        w.probe.hit("restarts")

    def op_damage(self, w, back, how, which, frac):
        its = sorted(w.iters, reverse=True)
        if not its:
            return
        it = its[back % len(its)]
        files = sorted(f for f in os.listdir(w.dir) if f.endswith(".%d.gz" % it))
        if not files:
            return
        path = os.path.join(w.dir, files[which % len(files)])
        size = os.path.getsize(path)
        if how == "remove":
            os.remove(path)
        else:
            # cut well before the end, so that contents (not only the trailer) are lost
            os.truncate(path, 0 if how == "empty" else int(size * 0.8 * frac))
        w.iters[it] = ("damaged" if how == "remove" else "maybe", w.iters[it][1])
        if how == "remove" and files[which % len(files)].startswith("_"):
            w.iters[it] = ("maybe", w.iters[it][1])
        w.probe.fault("at_rest_" + how)
        w.probe.event("damage", it, how)

    def op_load(self, w, back, fresh):
        its = sorted(w.iters, reverse=True)
        if fresh:
            self.op_restart(w)
        it = its[back] if back < len(its) else 999
        self.do_load(w, it)

    def op_audit(self, w):
        for it in sorted(w.iters):
            self.op_restart(w)
            if self.do_load(w, it):
                for t in (0, 1, 0, 0):
                    self.op_add(w, t)
                self.same_as(w, w.model, w.prio, "after-load-adds", it)
        self.op_restart(w)
        self.do_load(w, 999)

    def do_load(self, w, it):
        status, cands = w.iters.get(it, ("absent", []))
        before = self.snap(w)
        w.probe.event("load", it, status)
        try:
            w.buf.load(w.dir, it)
        except Exception as e:
            check(status != "complete", "lost-checkpoint",
                  lambda: "checkpoint %d was saved completely but loading it raised %s: %s" % (it, type(e).__name__, str(e)[:200]))
            w.probe.hit("loads_refused")
            self.same_as(w, before[0], before[1], "partial-load", it)
            return False
        check(status != "absent", "loaded-nothing", "loading checkpoint %d, which was never saved, succeeded" % it)
        check(status != "damaged", "loaded-incomplete", "checkpoint %d lacks a file, and still loading it succeeded" % it)
        err = None
        for model, prio, q, ep, pos in reversed(cands):
            w.feed.q, w.feed.ep, w.feed.pos = q, ep, pos
            try:
                self.same_as(w, model, prio, "wrong-contents", it)
            except Violation as v:
                err = v
                continue
            w.model, w.prio = model.clone(), dict(prio)
            w.probe.hit("loads_equal")
            w.probe.state(w.cfg["C"], model.total % model.C, len(model.eligible_indices()))
            return True
        raise err

    def same_as(self, w, model, prio, cls, it):
        el = model.eligible_indices()
        with sut(cls, "reading the buffer after loading checkpoint %s" % it):
            got = [i for i in range(model.C) if bool(w.buf.is_valid_transition(i))]
            n = int(w.buf.add_count)
            size = int(w.buf.size)
        check(n == model.total, cls, lambda: "checkpoint %s: add count %d expected %d" % (it, n, model.total))
        check(got == el and size == len(el), cls, lambda: "checkpoint %s: eligible %s (size %d) expected %s" % (it, got, size, el))
        if not el:
            return
        with sut(cls, "reading all transitions after loading checkpoint %s" % it):
            b = w.buf.sample_all_valid_transitions()
        try:
            rb.compare_batch(b, model, w.cfg)
        except Violation as v:
            raise Violation(cls, "checkpoint %s: %s" % (it, v))
        if w.cfg["prio"]:
            import numpy as np

            pr = w.buf.get_priority(np.array(el, dtype=np.int32)).tolist()
            exp = [prio[i] for i in el]
            check(pr == exp, cls, lambda: "checkpoint %s: priorities %s expected %s" % (it, pr, exp))


SCENARIO = R03()
