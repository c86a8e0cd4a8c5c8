"""R04: prioritized replay draws every transition in proportion to its current priority."""
import copy
import math
import random as pyrandom
import warnings

from dst.core import Scenario, Violation, check, sut
from checks import rb_common as rb
from checks.r01 import R01

EDGE = [0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -60]


class RandomSeam:
    """the sum tree's randomness: seeded, with boundary quantiles mixed in"""

    def __init__(self, seed, edge, probe):
        self.rng = pyrandom.Random("tree%s" % seed)
        self.edge, self.probe = edge, probe

    def random(self):
        if self.edge and self.rng.random() < self.edge:
            self.probe.fault("boundary_quantile")
            return self.rng.choice(EDGE)
        return self.rng.random()

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def __getattr__(self, name):
        return getattr(pyrandom, name)

    def __enter__(self):
        from reagent.replay_memory import sum_tree as m

        self.m, self.old = m, m.__dict__.get("random")
        if self.old is pyrandom:
            m.random = self
        return self

    def __exit__(self, *a):
        if self.old is not None:
            self.m.random = self.old
        return False


def leaf_ok(prio, cap, lo, hi, leaf):
    """may `leaf` answer a query somewhere in [lo, hi] (fractions of the total)?"""
    total = math.fsum(prio.values())
    eps = 1e-9 * total
    before = math.fsum(v for i, v in prio.items() if i < leaf)
    return before <= hi * total + eps and before + prio.get(leaf, 0.0) >= lo * total - eps


class R04(Scenario):
    id = "R04"
    runs = {"quick": 3000, "thorough": 80000}
    rule = ("a case is a history of priority updates, adds, refused calls and draws against the sum tree or the "
            "prioritized buffer, with boundary random quantiles mixed in; non-trivial when at least one draw was "
            "compared with the reference distribution")
    components = {"real": ["SumTree", "PrioritizedReplayBuffer", "ReplayBuffer"],
                  "stub": ["random.random/uniform of the tree replaced by a seeded source with boundary values"]}
    assumptions = ["cumulative sums are compared up to 1e-9 of the total priority",
                   "frequencies are compared up to 6.5 standard deviations"]
    setup = R01.setup

    def plan(self, rng, index, tier):
        mode = rng.choice(["tree", "buffer", "buffer"])
        nops = rng.choice([5, 12, 30, 60] if tier == "quick" else [12, 60, 150, 400])
        scale = rng.choice(["unit", "mixed", "tenths", "zeros"])

        def pr():
            x = rng.random()
            if scale == "zeros" and x < 0.6:
                return 0.0
            if scale == "tenths":
                return rng.choice([0.1, 0.2, 0.3, 0.7, 0.0])
            if scale == "mixed":
                return rng.choice([0.0, 1e-12, 1e-3, 1.0, 1e6, rng.random(), 1e12 * rng.random()])
            return rng.random()

        def bad():
            return rng.choice([-rng.random() - 1e-6, "nan", "inf", "-inf"])

        faulty = rng.random() < 0.6
        ops = []
        if mode == "tree":
            cfg = {"mode": mode, "C": rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 33, 64, 100])}
            for _ in range(nops):
                x = rng.random()
                if x < 0.6:
                    ops.append(["set", rng.randrange(cfg["C"]), pr()])
                elif x < 0.66 and faulty:
                    ops.append(["set_bad", rng.randrange(cfg["C"]), bad()])
                elif x < 0.70:
                    ops.append(["clear"])
                elif x < 0.85:
                    ops.append(["query", rng.choice(EDGE + [1.0, rng.random(), rng.random(), rng.random()])])
                elif x < 0.92:
                    ops.append(["strat", rng.choice([1, 2, 3, 8, 32])])
                elif x < 0.96:
                    ops.append(["query_bad", rng.choice([-0.5, 1.5])])
                else:
                    ops.append(["freq"])
            ops += [["query", 0.0], ["query", 1.0], ["strat", 4], ["freq"]]
        else:
            cfg = rb.plan_config(rng, allow_sparse=False)
            cfg.update(mode=mode, everything=False, timeline=False)
            mean = rng.choice([1.3, 3, 8])
            for _ in range(nops):
                x = rng.random()
                if x < 0.6:
                    ops.append(["add", int(rng.random() < 1.0 / mean), pr()])
                elif x < 0.64 and faulty:
                    ops.append(["add_bad", int(rng.random() < 0.5), rng.choice(rb.BAD + ["negative", "nan", "inf"])])
                elif x < 0.68 and faulty:
                    k = rng.choice([1, 2, 5])
                    ops.append(["update_bad", [[rng.randrange(cfg["C"]), pr()] for _ in range(k)], rng.randrange(k), bad()])
                elif x < 0.82:
                    k = rng.choice([1, 2, 5])
                    ops.append(["update", [[rng.randrange(cfg["C"]), pr()] for _ in range(k)]])
                else:
                    ops.append(["sample", rng.choice([None, 1, 2, 4, 16])])
            ops.append(["sample", 8])
            ops.append(["bfreq"])
        cfg["edge"] = rng.choice([0.0, 0.3]) if faulty else 0.0
        return {"cfg": cfg, "ops": ops}

    def shrink(self, case):
        if case["cfg"]["mode"] == "buffer":
            yield from rb.shrink_config(case)
        elif case["cfg"]["C"] > 1:
            for d in (case["cfg"]["C"] // 2, case["cfg"]["C"] - 1):
                c = copy.deepcopy(case)
                c["cfg"]["C"] = d
                for o in c["ops"]:
                    if o[0].startswith("set"):
                        o[1] %= d
                yield c

    def nontrivial(self, case, probe):
        return probe.hits["draws_compared"] > 0

    def run(self, case, probe):
        cfg = case["cfg"]
        with RandomSeam(case["seed"], cfg["edge"], probe):
            if cfg["mode"] == "tree":
                self.run_tree(cfg, case["ops"], probe)
            else:
                with rb.DirtyMemory(case["seed"], probe):
                    self.run_buffer(cfg, case["ops"], probe)

    # ----------------------------------------------------------------- tree
    def run_tree(self, cfg, ops, probe):
        from reagent.replay_memory.sum_tree import SumTree

        with sut("construct", "SumTree"):
            t = SumTree(cfg["C"])
        prio = {}
        top = 1.0
        for op in ops:
            probe.event(*op)
            if op[0] == "set":
                with sut("set-failed", "set"):
                    t.set(op[1], op[2])
                prio[op[1]] = op[2]
                top = max(top, op[2])
            elif op[0] == "set_bad":
                self.refused(lambda: t.set(op[1], float(op[2])), "negative-accepted", "priority %s" % op[2])
                probe.fault("refused_priority_" + (op[2] if isinstance(op[2], str) else "negative"))
            elif op[0] == "clear":
                for i in sorted(prio):
                    with sut("set-failed", "set"):
                        t.set(i, 0.0)
                    prio[i] = 0.0
            elif op[0] == "query_bad":
                if sum(prio.values()) > 0:
                    self.refused(lambda: t.sample(op[1]), "bad-query", "a quantile outside [0, 1]")
            elif not math.fsum(prio.values()) > 0:
                self.refused(lambda: t.sample(), "empty-sample", "a tree without positive priority")
                self.refused(lambda: t.stratified_sample(2), "empty-sample", "a tree without positive priority")
                probe.hit("empty_sample_refused")
            elif op[0] == "query":
                with sut("sample-failed", "sample"):
                    leaf = t.sample(op[1])
                self.leaf(prio, cfg["C"], op[1], op[1], leaf, "query %r" % op[1])
                probe.hit("draws_compared")
            elif op[0] == "strat":
                with sut("sample-failed", "stratified_sample"):
                    got = t.stratified_sample(op[1])
                check(len(got) == op[1], "strata", "asked %d strata got %d" % (op[1], len(got)))
                for s, leaf in enumerate(got):
                    self.leaf(prio, cfg["C"], s / op[1], (s + 1) / op[1], leaf, "stratum %d/%d" % (s, op[1]))
                probe.hit("draws_compared")
            elif op[0] == "freq" and not cfg["edge"]:
                total = math.fsum(prio.values())
                n = 1500
                with sut("sample-failed", "sample"):
                    got = [t.sample() for _ in range(n)]
                for i in range(cfg["C"]):
                    p = prio.get(i, 0.0) / total
                    c = got.count(i)
                    sd = math.sqrt(n * p * (1 - p))
                    check(abs(c - n * p) <= 6.5 * sd + 6, "not-proportional",
                          lambda: "leaf %d with share %.4g drawn %d of %d" % (i, p, c, n))
                probe.hit("draws_compared")
            with sut("get-failed", "get"):
                vals = [float(t.get(i)) for i in range(cfg["C"])]
            check(vals == [prio.get(i, 0.0) for i in range(cfg["C"])], "stored-priority",
                  lambda: "priorities %s expected %s" % (vals, prio))
            check(float(t.max_recorded_priority) == top, "max-priority",
                  lambda: "max recorded %s expected %s" % (t.max_recorded_priority, top))
            probe.state(cfg["C"], tuple(v > 0 for v in vals[:16]))

    def leaf(self, prio, cap, lo, hi, leaf, what):
        leaf = int(leaf)
        check(0 <= leaf < cap and prio.get(leaf, 0.0) > 0, "zero-priority-drawn",
              lambda: "%s returned leaf %s of priority %s (priorities %s)" % (what, leaf, prio.get(leaf, 0.0), prio))
        check(leaf_ok(prio, cap, lo, hi, leaf), "wrong-leaf",
              lambda: "%s returned leaf %d which does not cover it (priorities %s)" % (what, leaf, prio))

    def refused(self, f, cls, what):
        try:
            f()
        except Exception:
            return
        raise Violation(cls, "%s was accepted" % what)

    # --------------------------------------------------------------- buffer
    def run_buffer(self, cfg, ops, probe):
        import numpy as np
        from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer

        with sut("construct", "PrioritizedReplayBuffer"):
            buf = PrioritizedReplayBuffer(stack_size=cfg["S"], replay_capacity=cfg["C"], batch_size=3,
                                          update_horizon=cfg["n"], gamma=cfg["gamma"])
        model = rb.RBModel(cfg["C"], cfg["S"], cfg["n"], cfg["gamma"])
        feed = rb.Feeder(cfg)
        prio = {}
        C = cfg["C"]
        for op in ops:
            probe.event(*op)
            if op[0] == "add":
                tr = feed.next(op[1])
                before = model.total
                with sut("add-refused", "add"):
                    buf.add(priority=op[2], **tr)
                model.add(rb.model_value(tr))
                feed.accepted(op[1])
                for k in range(before, model.total):
                    prio[k % C] = op[2] if k == model.total - 1 else 0.0
                if model.total > C:
                    probe.hit("wrapped")
            elif op[0] == "add_bad":
                if not model.total:
                    continue
                tr = feed.next(op[1])
                if op[2] in ("negative", "nan", "inf"):
                    pri = -1.0 if op[2] == "negative" else float(op[2])
                    self.refused(lambda: buf.add(priority=pri, **tr), "bad-add-accepted", "priority %s" % pri)
                else:
                    self.refused(lambda: buf.add(priority=1.0, **rb.corrupt(tr, op[2])), "bad-add-accepted", op[2])
                probe.fault("refused_add_" + op[2])
            elif op[0] == "update":
                # the learner's feedback, possibly long after the slot was overwritten
                with sut("update-failed", "set_priority"):
                    buf.set_priority(np.array([i for i, _ in op[1]], dtype=np.int32), [p for _, p in op[1]])
                for i, p in op[1]:
                    prio[i] = p
                probe.fault("delayed_priority_update", len(op[1]))
            elif op[0] == "update_bad":
                # the feedback of a diverged learner; what came before the bad value may have been taken
                rows = [(i, p if j != op[2] else float(op[3])) for j, (i, p) in enumerate(op[1])]
                self.refused(lambda: buf.set_priority(np.array([i for i, _ in rows], dtype=np.int32), [p for _, p in rows]),
                             "negative-accepted", "priority %s" % op[3])
                after = dict(prio)
                options = [prio]
                for i, p in rows[:op[2]]:
                    after = dict(after)
                    after[i] = p
                    options.append(after)
                got = buf.get_priority(np.arange(C, dtype=np.int32)).tolist()
                for o in options:
                    if got == [float(np.float32(o.get(i, 0.0))) for i in range(C)]:
                        prio = o
                probe.fault("refused_priority_" + (op[3] if isinstance(op[3], str) else "negative"))
            elif op[0] == "sample":
                self.draw(buf, model, prio, cfg, op[1], probe)
            elif op[0] == "bfreq" and not cfg["edge"]:
                self.freq(buf, model, prio, probe)
            got = buf.get_priority(np.arange(C, dtype=np.int32)).tolist()
            exp = [float(np.float32(prio.get(i, 0.0))) for i in range(C)]
            check(got == exp, "stored-priority", lambda: "after %s: priorities %s expected %s" % (op, got, exp))
            el = model.eligible_indices()
            valid = [i for i in range(C) if bool(buf.is_valid_transition(i))]
            check(valid == el and int(buf.size) == len(el), "eligible-set",
                  lambda: "after %s: eligible %s (size %d) expected %s" % (op, valid, buf.size, el))
            probe.state(C, cfg["S"], cfg["n"], model.total % C, tuple(prio.get(i, 0) > 0 for i in el))

    def freq(self, buf, model, prio, probe):
        el = model.eligible_indices()
        total = math.fsum(prio.values())
        valid = math.fsum(prio.get(i, 0.0) for i in el)
        if not total > 0 or valid / total < 0.2:
            return
        n = 400
        got = {}
        with sut("sample-failed", "sample_index_batch"):
            for _ in range(n):
                i = int(buf.sample_index_batch(1)[0])
                got[i] = got.get(i, 0) + 1
        for i in set(got) | set(el):
            p = prio.get(i, 0.0) / valid if i in el else 0.0
            c = got.get(i, 0)
            check(p > 0 or c == 0, "zero-priority-drawn", lambda: "index %d drawn, priority %s, eligible %s" % (i, prio.get(i), i in el))
            check(abs(c - n * p) <= 6.5 * math.sqrt(n * p * (1 - p)) + 6, "not-proportional",
                  lambda: "index %d with share %.4g of the sampleable priority drawn %d of %d" % (i, p, c, n))
        probe.hit("buffer_frequency_tests")

    def draw(self, buf, model, prio, cfg, B, probe):
        import numpy as np

        el = model.eligible_indices()
        if not model.total:
            return
        total = math.fsum(prio.values())
        valid = math.fsum(prio.get(i, 0.0) for i in el)
        n = B or 3
        try:
            b = buf.sample_transition_batch(B) if B else buf.sample_transition_batch()
        except Exception as e:
            # drawing may only be refused when there is next to nothing to draw
            check(not el or total <= 0 or valid / total < 0.05, "sample-failed",
                  lambda: "%d eligible transitions hold %.3g of the priority, yet sampling raised %r" % (len(el), valid / total, e))
            probe.hit("draws_refused")
            return
        check(total > 0 and valid > 0, "ineligible-sample", "sampling succeeded although no eligible transition has priority")
        idx = rb.compare_batch(b, model, cfg, probe=probe)
        check(len(idx) == n, "batch-size", "asked %d rows got %d" % (n, len(idx)))
        for s, i in enumerate(idx):
            check(prio.get(i, 0.0) > 0, "zero-priority-drawn",
                  lambda: "row %d is index %d whose priority is %s" % (s, i, prio.get(i)))
            if valid >= total * (1 - 1e-12):  # nothing was redrawn
                check(leaf_ok(prio, cfg["C"], s / n, (s + 1) / n, i), "wrong-leaf",
                      lambda: "row %d/%d is index %d, outside its stratum (%s)" % (s, n, i, prio))
        p = rb._np(b.sampling_probabilities).reshape(-1).tolist()
        exp = [float(np.float32(prio[i])) for i in idx]
        check(p == exp, "sampling-probabilities", lambda: "reported %s expected %s for %s" % (p, exp, idx))
        probe.hit("draws_compared")


SCENARIO = R04()
