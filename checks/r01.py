"""R01: every sampled transition is faithful to the collected history."""
import warnings

from dst.core import Scenario, Violation, check, sut
from checks import rb_common as rb


class R01(Scenario):
    id = "R01"
    runs = {"quick": 5000, "thorough": 150000}
    rule = ("a case is a buffer configuration plus an interleaving of collector steps (add, refused add) "
            "and learner steps (sample, read all, hold a batch across later adds); non-trivial when at least "
            "one sampled row was compared with the history")
    components = {"real": ["reagent.replay_memory.circular_replay_buffer.ReplayBuffer"],
                  "stub": ["collector and learner are simulated clients"]}
    assumptions = ["row contents past a terminal step are documented as undefined and not compared",
                   "sampling randomness comes from torch's generator seeded by the case"]

    def setup(self):
        warnings.simplefilter("ignore")
        import logging
        logging.disable(logging.CRITICAL)
        import reagent_compat  # noqa
        import reagent.replay_memory.circular_replay_buffer  # noqa

    def plan(self, rng, index, tier):
        cfg = rb.plan_config(rng)
        nops = rng.choice([4, 8, 16, 30, 60] if tier == "quick" else [8, 30, 60, 120, 250])
        mean = rng.choice([1.3, 2, 4, 8, 20])
        ops = []
        faulty = rng.random() < 0.5
        for _ in range(nops):
            x = rng.random()
            if x < 0.72:
                ops.append(["add", int(rng.random() < 1.0 / mean)])
            elif x < 0.80 and faulty:
                ops.append(["bad", rb.plan_bad(rng, cfg), int(rng.random() < 0.5)])
            elif x < 0.90:
                ops.append(["sample", rng.choice([1, 2, 5, 16])])
            elif x < 0.95:
                ops.append(["all"])
            else:
                ops.append(["hold", rng.choice([1, 3])])
        ops.append(["all"])
        if faulty and rng.random() < 0.3:
            ops.insert(0, ["bad", rng.choice(rb.BAD_FIRST), int(rng.random() < 0.5)])
        return {"cfg": cfg, "ops": ops, "reuse": rng.random() < 0.3}

    def shrink(self, case):
        if case.get("reuse"):
            yield dict(case, reuse=False)
        yield from rb.shrink_config(case)

    def nontrivial(self, case, probe):
        return probe.hits["rows_compared"] > 0

    def run(self, case, probe):
        with rb.DirtyMemory(case["seed"], probe):
            self.run_in(case, probe)

    def run_in(self, case, probe):
        cfg = case["cfg"]
        with sut("construct", "constructing the buffer"):
            buf = rb.new_buffer(cfg)
        model = rb.RBModel(cfg["C"], cfg["S"], cfg["n"], cfg["gamma"])
        feed = rb.Feeder(cfg)
        held = []
        for op in case["ops"]:
            if op[0] == "add":
                tr = feed.next(op[1])
                with sut("add-refused", "add of a well-formed transition"):
                    buf.add(**tr)
                model.add(rb.model_value(tr))
                if case.get("reuse"):
                    rb.reuse(tr)
                    probe.hit("objects_reused")
                feed.accepted(op[1])
                if model.total > model.C:
                    probe.hit("wrapped")
                probe.event("add", op[1])
            elif op[0] == "bad":
                if not rb.can_corrupt(cfg, op[1]):
                    continue
                if not model.total and op[1] not in rb.BAD_FIRST:
                    continue
                tr = rb.corrupt(feed.next(op[2]), op[1])
                try:
                    buf.add(**tr)
                except Exception:
                    probe.fault("refused_add_" + op[1])
                    probe.event("bad", op[1])
                else:
                    if op[1] in ("ids_key_missing", "scores_key_missing"):
                        # not refusing it is right if the missing list counts as empty
                        full = rb.model_value(tr)
                        if "b" not in full.get("ex_ids", {"b": 0}):
                            full["ex_ids"]["b"] = []
                        if "s" not in full.get("ex_scores", {"s": 0}):
                            full["ex_scores"]["s"] = ([], [])
                        model.add(full)
                        feed.accepted(op[2])
                        continue
                    raise Violation("bad-add-accepted", "add accepted a malformed transition (%s)" % op[1])
            elif op[0] in ("sample", "hold", "all"):
                n_el = len(model.eligible_indices())
                if n_el == 0:
                    probe.hit("nothing_to_sample")
                    continue
                with sut("sample-failed", "sampling with %d eligible transitions" % n_el):
                    if op[0] == "all":
                        b = buf.sample_all_valid_transitions()
                    else:
                        b = buf.sample_transition_batch(batch_size=op[1])
                idx = rb.compare_batch(b, model, cfg, probe=probe)
                if op[0] != "all":
                    check(len(idx) == op[1], "batch-size", "asked %d rows, got %d" % (op[1], len(idx)))
                probe.event(op[0], idx)
                probe.state(cfg["C"], cfg["S"], cfg["n"], model.total % model.C, n_el, model.total > model.C)
                if op[0] == "hold":
                    held.append((b, rb.freeze(b)))
                    probe.hit("held_batches")
        for b, frozen in held:
            check(rb.same(tuple(frozen), tuple(b)), "batch-changed-later",
                  "a batch returned earlier changed when more transitions were added")


SCENARIO = R01()
