"""R02: exactly the complete, still stored transitions can be sampled."""
import warnings

from dst.core import Scenario, Violation, check, sut
from checks import rb_common as rb
from checks.r01 import R01


class R02(Scenario):
    id = "R02"
    runs = {"quick": 5000, "thorough": 150000}
    rule = ("a case is a buffer configuration plus a history of adds, refused adds and reads; the eligible set, "
            "the size, bulk reads, the dataset export and the spread of random draws are compared with the "
            "reference after every step; non-trivial when some transition was eligible and some stored one was not")
    components = {"real": ["ReplayBuffer", "replay_memory.utils.replay_buffer_to_pre_timeline_df"],
                  "stub": ["collector and learner are simulated clients"]}
    assumptions = R01.assumptions
    setup = R01.setup

    def plan(self, rng, index, tier):
        cfg = rb.plan_config(rng, allow_sparse=False)
        export = rng.random() < 0.3
        if export:
            cfg.update(S=1, n=1, C=max(cfg["C"], 2), everything=False, timeline=False, obs=["float32", [3]],
                       extras=["mdp_id", "sequence_number", "log_prob"], action_vec=rng.random() < 0.5,
                       reward_int=False)
        cfg["export"] = export
        nops = rng.choice([6, 12, 25, 50] if tier == "quick" else [12, 50, 120, 300])
        mean = rng.choice([1.2, 2, 3, 6, 15])
        faulty = rng.random() < 0.6
        ops = []
        for _ in range(nops):
            x = rng.random()
            if faulty and x < 0.12:
                ops.append(["bad", rng.choice(rb.BAD), int(rng.random() < 0.5)])
            elif x < 0.14:
                ops.append(["export"] if export else ["draw"])
            else:
                ops.append(["add", int(rng.random() < 1.0 / mean)])
        ops.append(["export"] if export else ["draw"])
        return {"cfg": cfg, "ops": ops}

    def shrink(self, case):
        return rb.shrink_config(case) if not case["cfg"]["export"] else iter(())

    def nontrivial(self, case, probe):
        return probe.hits["mixed_eligibility"] > 0

    def run(self, case, probe):
        with rb.DirtyMemory(case["seed"], probe):
            self.run_in(case, probe)

    def run_in(self, case, probe):
        cfg = case["cfg"]
        with sut("construct", "constructing the buffer"):
            buf = rb.new_buffer(cfg)
        model = rb.RBModel(cfg["C"], cfg["S"], cfg["n"], cfg["gamma"])
        feed = rb.Feeder(cfg)
        self.compare(buf, model, probe, "at the start")
        for step, op in enumerate(case["ops"]):
            if op[0] == "add":
                tr = feed.next(op[1])
                with sut("add-refused", "add of a well-formed transition"):
                    buf.add(**tr)
                model.add(rb.model_value(tr))
                feed.accepted(op[1])
                probe.event("add", op[1])
            elif op[0] == "bad":
                tr = feed.next(op[2])
                if not model.total:
                    tr = rb.corrupt(tr, "missing")
                else:
                    tr = rb.corrupt(tr, op[1])
                try:
                    buf.add(**tr)
                except Exception:
                    probe.fault("refused_add_" + op[1])
                    probe.event("bad", op[1])
                else:
                    raise Violation("bad-add-accepted", "add accepted a malformed transition (%s)" % op[1])
            elif op[0] == "draw":
                self.draw(buf, model, probe)
            elif op[0] == "export":
                self.export(buf, model, cfg, probe)
            self.compare(buf, model, probe, "after step %d %s" % (step, op))

    def compare(self, buf, model, probe, when):
        el = model.eligible_indices()
        with sut("read-failed", "reading the buffer's size and validity"):
            got = [i for i in range(model.C) if bool(buf.is_valid_transition(i))]
            size = int(buf.size)
            full, empty = bool(buf.is_full()), bool(buf.is_empty())
        check(got == el, "eligible-set", lambda: "%s: eligible %s expected %s (cap %d stack %d horizon %d, %d slots written)" % (
            when, got, el, model.C, model.S, model.n, model.total))
        check(size == len(el), "size", lambda: "%s: size %d expected %d" % (when, size, len(el)))
        check(empty == (model.total == 0) and full == (model.total >= model.C), "occupancy",
              lambda: "%s: is_empty=%s is_full=%s with %d written of %d" % (when, empty, full, model.total, model.C))
        live = sum(1 for k in range(model.oldest(), model.total) if model.slots[k] is not rb.PAD)
        if el and live > len(el):
            probe.hit("mixed_eligibility")
        probe.state(model.C, model.S, model.n, model.total % model.C, len(el), live)
        if not el:
            try:
                buf.sample_index_batch(1)
            except RuntimeError:
                probe.hit("empty_sample_refused")
            except Exception as e:
                raise Violation("empty-sample", "sampling with nothing eligible raised %r" % (e,))
            else:
                raise Violation("empty-sample", "sampling succeeded with nothing eligible (%s)" % when)

    def draw(self, buf, model, probe):
        el = model.eligible_indices()
        if not el:
            return
        with sut("sample-failed", "sample_all_valid_transitions"):
            b = buf.sample_all_valid_transitions()
        ids = sorted(int(i) for i in rb._np(b.indices).reshape(-1).tolist())
        check(ids == el, "bulk-read", lambda: "bulk read returned %s expected %s" % (ids, el))
        if len(el) > 24:
            return
        per = 60
        with sut("sample-failed", "sample_index_batch"):
            got = [int(i) for i in buf.sample_index_batch(per * len(el)).tolist()]
        check(set(got) <= set(el), "ineligible-sample", lambda: "drew %s" % sorted(set(got) - set(el)))
        for i in el:
            c = got.count(i)
            # Poisson(60): outside [4, 200] has probability below 1e-18
            check(len(el) == 1 or 4 <= c <= 200, "not-uniform",
                  lambda: "index %d drawn %d times of %d (expected about %d)" % (i, c, len(got), per))
        probe.hit("uniformity_tests")
        probe.event("draw", len(got))

    def export(self, buf, model, cfg, probe):
        el = model.eligible_indices()
        if not el:
            return
        from reagent.replay_memory.utils import replay_buffer_to_pre_timeline_df

        with sut("export-failed", "replay_buffer_to_pre_timeline_df"):
            df = replay_buffer_to_pre_timeline_df(not cfg["action_vec"], buf)
        rows = []
        for _, r in df.iterrows():
            m = r["mdp_id"]
            m = m[0] if isinstance(m, (list, tuple)) else m
            st = r["state_features"]
            rows.append((int(m), int(r["sequence_number"]), round(float(r["reward"]), 3),
                         tuple(round(float(st[j]), 3) for j in range(3)),
                         round(float(r["action_probability"]), 4)))
        exp = []
        import math
        for i in el:
            ep, pos = model.slots[model.slot_of(i)]
            t = ep[pos]
            exp.append((int(t["mdp_id"]), int(t["sequence_number"]), round(float(t["reward"]), 3),
                        tuple(round(float(x), 3) for x in t["observation"]),
                        round(math.exp(float(t["log_prob"])), 4)))
        check(sorted(rows) == sorted(exp), "export",
              lambda: "exported %s expected %s" % (sorted(rows)[:6], sorted(exp)[:6]))
        probe.hit("exports")
        probe.event("export", len(rows))


SCENARIO = R02()
