"""M01: every reported training metric is counted once, in order, and written with its step to the active writer."""
import contextlib
import copy
import io

import torch

from dst.core import Scenario, Violation, check, sut
from checks import train_common as tc
from checks.t01 import Batches, Interrupted

REPORTERS = {
    "dqn": ("discrete_dqn_reporter", "DiscreteDQNReporter"), "qrdqn": ("discrete_dqn_reporter", "DiscreteDQNReporter"),
    "c51": ("discrete_dqn_reporter", "DiscreteDQNReporter"), "parametric": ("parametric_dqn_reporter", "ParametricDQNReporter"),
    "sac": ("sac_reporter", "SACReporter"), "td3": ("td3_reporter", "TD3Reporter"),
    "slateq": ("slate_q_reporter", "SlateQReporter"), "crr": ("discrete_crr_reporter", "DiscreteCRRReporter"),
    "ac": ("actor_critic_reporter", "ActorCriticReporter"),
}


def make_reporter(case):
    import importlib

    mod, cls = REPORTERS[case["algo"]]
    cls = getattr(importlib.import_module("reagent.workflow.reporters." + mod), cls)
    kw = {"report_interval": case["interval"]}
    if case["algo"] in ("dqn", "qrdqn", "c51", "crr"):
        kw["actions"] = ["a%d" % i for i in range(case["A"])]
    if case["algo"] in ("sac", "td3", "slateq", "ac", "parametric", "dqn", "qrdqn", "c51", "crr"):
        return cls(**kw)


class WriterDown(OSError):
    pass


class Ignorable(RuntimeError):
    pass


def writer_class():
    from torch.utils.tensorboard import SummaryWriter

    class Writer(SummaryWriter):
        """records what it is asked to write; its calls fail as the case says"""

        def __init__(self, w, name, ignore):
            self.w, self.name = w, name
            if ignore:
                self.exceptions_to_ignore = (Ignorable,)
            if ignore == 2:
                self.exception_logging_func = lambda e: w["told"].append((name, type(e)))

        def _call(self, kind, tag, value, global_step):
            w = self.w
            n = w["calls"]
            w["calls"] += 1
            why = w["fail"].pop(n, None) if w["armed"] else None
            if why and not (why == "histogram" and kind != "add_histogram"):
                w["probe"].fault("writer_" + why)
                w["probe"].event("writer", n, why)
                w["failed"].append((n, why, kind, tag))
                raise {"ignored": Ignorable, "down": WriterDown, "histogram": ValueError}[why]("simulated")
            v = torch.as_tensor(value).detach().double().clone()
            w["got"].append((self.name, kind, tag, v, global_step))

        def add_scalar(self, tag, value, global_step=None):
            self._call("add_scalar", tag, value, global_step)

        def add_histogram(self, tag, values, global_step=None):
            self._call("add_histogram", tag, values, global_step)

        def add_custom_scalars(self, layout):
            self.w["layout"] = copy.deepcopy(layout)

    return Writer


def observers(reporter, aggregating):
    """the observers a reporter was made with, by name"""
    from reagent.core.observers import IntervalAggregatingObserver

    for group in vars(reporter).values():
        if isinstance(group, dict) and group and all(isinstance(o, IntervalAggregatingObserver) == aggregating and hasattr(o, "update") for o in group.values()):
            return list(group.items())
    return []


class Ref:
    """what a reporter has to aggregate and write: per observer the pending values, cut every interval values and at an epoch end"""

    def __init__(self, case, reporter, w):
        from reagent.core import aggregators as agg

        self.w, self.obs, self.scalars = w, [], {}
        self.kinds = {agg.MeanAggregator: "mean", agg.FunctionsByActionAggregator: "fns", agg.ActionCountAggregator: "count",
                      agg.RecentValuesAggregator: "recent", agg.TensorBoardHistogramAndMeanAggregator: "tbmean",
                      agg.TensorBoardActionHistogramAndMeanAggregator: "tbaction", agg.TensorBoardActionCountAggregator: "tbcount"}
        for name, o in observers(reporter, True):
            a = o.aggregator
            self.obs.append({"name": name, "key": a.key, "agg": a, "kind": self.kinds[type(a)], "interval": o.interval,
                             "pending": [], "n": 0, "values": [], "parts": 0})
        for name, o in observers(reporter, False):
            key = o.get_observing_keys()[0]
            if hasattr(o, "logging_key"):
                self.scalars[key] = o.logging_key
        self.td_parts = 0

    def keys(self):
        return sorted({o["key"] for o in self.obs} | set(self.scalars))

    def log(self, kw):
        """-> the records expected on the writer, in order of keys (order across observers is free)"""
        out = []
        for key, v in kw.items():
            if v is None:
                continue
            v = torch.as_tensor(v).detach().clone()
            v = v.reshape(1) if v.dim() == 0 else v
            if key in self.scalars:
                out.append(("add_scalar", self.scalars[key], v.double()))
            for o in self.obs:
                if o["key"] == key:
                    o["pending"].append(v)
                    o["n"] += 1
                    if o["interval"] and o["n"] % o["interval"] == 0:
                        self.part(o, out)
        return out

    def flush(self):
        out = []
        for o in self.obs:
            o["n"] = 0
            if o["pending"]:
                self.part(o, out)
        return out

    def part(self, o, out):
        v = torch.cat(o["pending"], dim=0)
        o["pending"] = []
        o["parts"] += 1
        k, a = o["kind"], o["agg"]
        acts = getattr(a, "actions", None)
        if k == "mean":
            o["values"].append(float(v.mean()))
        elif k == "recent":
            o["values"] += [float(x) for x in v.flatten()]
            o["values"] = o["values"][-a.values.maxlen:]
        elif k == "count":
            o["values"].append([int((v == i).sum()) for i in range(len(acts))])
        elif k == "fns":
            o["values"].append({n: [float(x) for x in f(v, dim=0)] for n, f in (("mean", torch.mean), ("std", torch.std))})
        elif k == "tbmean":
            out.append(("add_histogram", a.log_key, v.double()))
            out.append(("add_scalar", a.log_key + "/mean", v.double().mean()))
        elif k == "tbaction":
            for i, n in enumerate(acts):
                out.append(("add_histogram", "%s/%s" % (a.log_key_prefix, n), v[:, i].double()))
                out.append(("add_scalar", "%s/%s/mean" % (a.log_key_prefix, n), v[:, i].double().mean()))
        elif k == "tbcount":
            for i, n in enumerate(acts):
                out.append(("add_scalar", "%s/%s" % (a.log_key, n), (v == i).sum().double()))

    def compare(self, where):
        def close(a, b):
            return a == b or (a != a and b != b) or abs(a - b) <= 1e-5 * (1 + abs(b))

        for o in self.obs:
            a, exp = o["agg"], o["values"]
            if o["kind"] in ("mean", "recent"):
                got = list(a.values)
                check(len(got) == len(exp) and all(close(x, y) for x, y in zip(got, exp)), "aggregate-differs",
                      lambda: "%s: %s has %s, expected %s" % (where, o["name"], got[-6:], exp[-6:]), metric=o["name"])
            elif o["kind"] == "count":
                got = [list(x) for x in zip(*[a.values[n] for n in a.actions])]
                check(got == exp, "aggregate-differs", lambda: "%s: %s counts %s, expected %s" % (where, o["name"], got, exp),
                      metric=o["name"])
                if exp and all(sum(x) for x in exp):
                    d, c = a.get_distributions(), a.get_cumulative_distributions()
                    tot = sum(map(sum, exp))
                    for i, n in enumerate(a.actions):
                        check(all(close(x, e[i] / sum(e)) for x, e in zip(d[n], exp)) and len(d[n]) == len(exp)
                              and close(c[n], sum(e[i] for e in exp) / tot), "distribution-differs",
                              lambda: "%s: %s distribution of %s: %s / %s for %s" % (where, o["name"], n, d[n], c[n], exp))
            elif o["kind"] == "fns":
                for f in ("mean", "std"):
                    for i, n in enumerate(a.actions):
                        got = a.values[f][n]
                        e = [x[f][i] for x in exp]
                        check(len(got) == len(e) and all(close(x, y) for x, y in zip(got, e)), "aggregate-differs",
                              lambda: "%s: %s %s of %s is %s, expected %s" % (where, o["name"], f, n, got, e), metric=o["name"])


class Spy:
    """forwards to the reporter, recording what each call reported and caused to be written"""

    def __init__(self, reporter, ref, w, rank0):
        self.__dict__.update(reporter=reporter, ref=ref, w=w, rank0=rank0, calls=[], flushes=[])

    def __getattr__(self, k):
        return getattr(self.reporter, k)

    def log(self, **kw):
        w = self.w
        keep = {k: (v.detach().clone() if isinstance(v, torch.Tensor) else v) for k, v in kw.items()}
        w["got"], w["failed"], w["told"] = [], [], []
        self.calls.append(sorted(k for k in kw if kw[k] is not None))
        err = self.guarded(lambda: self.reporter.log(**kw))
        self.judge("log(%s)" % ",".join(kw), self.ref.log(keep) if self.rank0 else [], err)

    def flush(self, epoch):
        w = self.w
        w["got"], w["failed"], w["told"] = [], [], []
        self.flushes.append(epoch)
        err = self.guarded(lambda: self.reporter.flush(epoch))
        self.judge("flush", self.ref.flush() if self.rank0 else [], err)

    def guarded(self, f):
        try:
            f()
        except WriterDown as e:
            return e
        except Violation:
            raise
        except Exception as e:
            raise Violation("report-refused", "reporting raised %s: %s" % (type(e).__name__, str(e)[:300]))

    def judge(self, what, expected, err):
        w = self.w
        probe = w["probe"]
        probe.event("report", what, len(expected), len(w["got"]))
        down = [f for f in w["failed"] if f[1] == "down"]
        check(bool(down) == (err is not None), "writer-error-lost",
              lambda: "%s: the writer failed %s but the call %s" % (what, down, "raised" if err else "returned"))
        if err is not None:
            raise err
        if not self.w["stack"]:
            check(not w["got"], "written-without-writer", lambda: "%s wrote %s with no writer active" % (what, w["got"]))
            return
        top = self.w["stack"][-1]
        lost = [(k, t) for _, _, k, t in w["failed"]]
        left = list(expected)
        for name, kind, tag, v, step in w["got"]:
            check(name == top, "wrong-writer", lambda: "%s: %s went to writer %s, the innermost is %s" % (what, tag, name, top))
            check(step == self.w["step"](), "wrong-step", lambda: "%s: %s written at step %s, expected %s" % (what, tag, step, self.w["step"]()))
            hit = next((i for i, (k, t, e) in enumerate(left) if k == kind and t == tag and v.numel() == e.numel() and torch.allclose(
                v.reshape(-1), e.reshape(-1), rtol=1e-5, atol=1e-6, equal_nan=True)), None)
            check(hit is not None, "unexpected-record", lambda: "%s wrote %s %s = %s; expected among %s" % (
                what, kind, tag, v.tolist(), [(k, t, e.tolist()) for k, t, e in left if t == tag]))
            left.pop(hit)
        for k, t in lost:
            hit = next((i for i, (a, b, _) in enumerate(left) if a == k and b == t), None)
            if hit is not None:
                left.pop(hit)
        check(not left, "record-missing", lambda: "%s did not write %s" % (what, [(k, t) for k, t, _ in left][:5]))
        ignored = [f for f in w["failed"] if f[1] == "ignored"]
        check(len(w["told"]) == (len(ignored) if w["tells"] else 0) and all(n == top for n, _ in w["told"]), "writer-not-told",
              lambda: "%s: the writer %s ignored %s and was told %s" % (what, top, ignored, w["told"]))
        w["told"] = []
        probe.hit("records", len(w["got"]))


class M01(Scenario):
    id = "M01"
    runs = {"quick": 2400, "thorough": 80000}
    rule = ("a case is either a client reporting drawn metrics (lone, joint, absent) to a shipped reporter across epochs and nested "
            "writers, or real training sessions with the algorithm's reporter; writers and data loaders fail at drawn points; "
            "non-trivial when at least two reports were judged")
    components = {"real": ["shipped reporters", "observers, aggregators, ObservableMixin/observable", "SummaryWriterContext",
                           "ReAgentLightningModule and trainers (training cases)"],
                  "stub": ["TensorBoard writer: records and fails", "the reporting client (client cases)", "data loader: in memory"]}
    assumptions = ["after an error of the writer that it does not ask to ignore the session is over, as in training"]

    def setup(self):
        tc.setup()
        import reagent.workflow.reporters.discrete_dqn_reporter  # noqa
        import torch.utils.tensorboard  # noqa

    def plan(self, rng, index, tier):
        fit = rng.random() < 0.35
        if fit:
            case = tc.plan_algo(rng)
            # the reporters' per-action metrics and the reported propensities need complete batches
            case["metrics"] = 0
        else:
            case = {"algo": rng.choice(sorted(REPORTERS)), "A": rng.choice([1, 2, 3])}
        case["fit"] = fit
        case["interval"] = rng.choice([1, 2, 3, 5, 100])
        burst = not fit and index % 40 == 7
        if burst:
            case["interval"] = rng.choice([101, 1000])
        case["ignore"] = rng.choice([0, 0, 1, 2])
        case["rank"] = int(rng.random() < 0.06)
        case["fail"] = {}
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 3])):
                case["fail"][str(rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 40, 80]))] = rng.choice(
                    ["histogram", "down"] + ["ignored"] * 3 * bool(case["ignore"]))
        ops = []
        if fit:
            case["writers"] = rng.choice([0, 1, 1, 2])
            for _ in range(rng.choice([1, 2, 2, 3])):
                n = rng.choice([1, 2, 3, 5])
                fault = ["data", rng.randrange(n)] if rng.random() < 0.3 else None
                ops.append([n, rng.choice([1, 2]), fault])
        else:
            depth = 0
            for _ in range(rng.choice([3, 8, 20, 50])):
                x = rng.random()
                if x < 0.62:
                    ops.append(["log", rng.getrandbits(20), rng.choice([1, 1, 2, 9]), rng.choice([1, 2, 4])])
                elif x < 0.74:
                    ops.append(["epoch"])
                elif x < 0.78:
                    ops.append(["epoch_end"])
                elif x < 0.86:
                    ops.append(["push", rng.random() < 0.15])
                elif x < 0.92:
                    ops.append(["pop", rng.random() < 0.3])
                elif x < 0.95:
                    ops.append(["unknown"])
                else:
                    ops.append(["step"])
            if rng.random() < 0.8:
                ops.insert(0, ["push", False])
            if burst:
                ops.insert(rng.randrange(len(ops) + 1), ["burst", rng.getrandbits(20), rng.choice([99, 101, 130]), rng.choice([1, 2])])
            ops.append(["epoch"])
        case["ops"] = ops
        return case

    def shrink(self, case):
        for k in list(case["fail"]):
            c = copy.deepcopy(case)
            del c["fail"][k]
            yield c
        for i, op in enumerate(case["ops"]):
            if case["fit"]:
                for j, v in ((0, op[0] - 1), (1, 1), (2, None)):
                    if op[j] != v and (j or op[0] > 1):
                        c = copy.deepcopy(case)
                        c["ops"][i][j] = v
                        yield c
            elif op[0] == "log" and (op[2] > 1 or op[3] > 1):
                c = copy.deepcopy(case)
                c["ops"][i] = ["log", op[1], 1, 1]
                yield c

    def nontrivial(self, case, probe):
        return probe.hits["reports"] > 1

    def run(self, case, probe):
        from pytorch_lightning.utilities import rank_zero_only
        from reagent.tensorboardX import SummaryWriterContext

        SummaryWriterContext._reset_globals()
        SummaryWriterContext._writer_stacks.clear()
        saved = getattr(rank_zero_only, "rank", 0)
        rank_zero_only.rank = case["rank"]
        w = {"probe": probe, "calls": 0, "fail": {int(k): v for k, v in case["fail"].items()}, "armed": True, "failed": [],
             "got": [], "told": [], "stack": [], "step": lambda: 0, "layout": None, "tells": case["ignore"] == 2}
        try:
            (self.fit if case["fit"] else self.client)(case, probe, w)
        finally:
            rank_zero_only.rank = saved
            SummaryWriterContext._writer_stacks.clear()
            SummaryWriterContext._reset_globals()

    # ------------------------------------------------------------ client
    @staticmethod
    def value(case, key, seed, rows):
        g = torch.Generator().manual_seed(seed)
        A = case["A"]
        if key in ("logged_actions", "model_action_idxs"):
            v = torch.randint(0, A, (rows, 1), generator=g)
            return v if case["seed"] % 2 else v.reshape(-1)
        if key in ("model_values", "model_propensities", "model_rewards"):
            return torch.randn(rows, A, generator=g)
        if key in ("td_loss", "reward_loss", "actor_loss", "q1_loss", "q2_loss", "kld", "entropy_temperature"):
            x = torch.randn((), generator=g)
            return [x, float(x), x.reshape(1), x.clone().requires_grad_()][seed % 4]
        return torch.randn(rows, 1, generator=g) if hash_even(key) else torch.randn(rows, generator=g)

    def client(self, case, probe, w):
        from reagent.tensorboardX import SummaryWriterContext, summary_writer_context

        W = writer_class()
        steps = [0]
        w["step"] = lambda: steps[0]
        with sut("construct", "constructing the reporter"):
            reporter = make_reporter(case)
        rank0 = not case["rank"]
        ref = Ref(case, reporter, w)
        spy = Spy(reporter, ref, w, rank0)
        ctxs = []
        ended = False
        try:
            for n, op in enumerate(case["ops"]):
                if op[0] == "log":
                    keys = ref.keys()
                    ks = [keys[(op[1] + 7 * i) % len(keys)] for i in range(op[2])]
                    kw = {}
                    for i, k in enumerate(dict.fromkeys(ks)):
                        kw[k] = None if (op[1] + i) % 11 == 0 else self.value(case, k, op[1] + i, op[3])
                    spy.log(**kw)
                    probe.hit("reports")
                elif op[0] == "burst":
                    keys = ref.keys()
                    k = keys[op[1] % len(keys)]
                    for j in range(op[2]):
                        spy.log(**{k: self.value(case, k, op[1] + j, op[3])})
                    probe.hit("bursts")
                elif op[0] == "epoch":
                    self.epoch(spy, ref, reporter, n, lambda: spy.flush(n), probe, rank0)
                elif op[0] == "epoch_end":
                    def go():
                        w["got"], w["failed"], w["told"] = [], [], []
                        err = spy.guarded(lambda: reporter.log(epoch_end=n))
                        spy.judge("epoch_end", ref.flush() if rank0 else [], err)
                    self.epoch(spy, ref, reporter, n, go, probe, rank0)
                elif op[0] == "push":
                    wr = None if op[1] else W(w, "w%d" % n, case["ignore"])
                    c = summary_writer_context(wr)
                    c.__enter__()
                    ctxs.append((c, wr))
                    if wr is not None:
                        w["stack"].append(wr.name)
                elif op[0] == "pop" and ctxs:
                    self.leave(ctxs, w, op[1], probe)
                elif op[0] == "step":
                    SummaryWriterContext.increase_global_step()
                    steps[0] += 1
                elif op[0] == "unknown" and rank0:
                    try:
                        reporter.log(no_such_metric=torch.zeros(1))
                    except AssertionError:
                        probe.fault("unknown_metric")
                    else:
                        raise Violation("unknown-metric-accepted", "an unknown metric was accepted silently")
                if rank0 or op[0] == "epoch":
                    ref.compare("after op %d" % n)
                probe.state(case["algo"], case["interval"], len(w["stack"]), op[0], min(sum(o["parts"] for o in ref.obs), 40))
        except WriterDown:
            ended = True
            probe.hit("writer_error_ends_session")
        except BaseException:
            while ctxs:
                ctxs.pop()[0].__exit__(None, None, None)
            raise
        while ctxs:
            self.leave(ctxs, w, ended, probe)
        check(not SummaryWriterContext._writer_stacks, "writer-left-behind", "a writer stays active after its context ended")
        if ended:
            # the next session starts clean
            w["armed"] = False
            r2 = make_reporter_fresh(case)
            ref2 = Ref(case, r2, w)
            s2 = Spy(r2, ref2, w, rank0)
            with summary_writer_context(W(w, "next", False)):
                w["stack"] = ["next"]
                for i in range(3):
                    k = ref2.keys()[i % len(ref2.keys())]
                    s2.log(**{k: self.value(case, k, i, 2)})
                s2.flush(0)
            w["stack"] = []
            if rank0:
                ref2.compare("in the session after a writer error")

    @staticmethod
    def epoch(spy, ref, reporter, n, go, probe, rank0):
        before = {o["name"]: o["parts"] for o in ref.obs}
        go()
        probe.hit("epochs")
        if rank0 and hasattr(reporter, "num_data_points_per_epoch"):
            td = next(o for o in ref.obs if o["name"] == "td_loss")
            exp = td["parts"] - ref.td_parts
            ref.td_parts = td["parts"]
            check(reporter.num_data_points_per_epoch == exp, "data-points-per-epoch",
                  lambda: "epoch has %d aggregated losses, reported %s" % (exp, reporter.num_data_points_per_epoch))

    @staticmethod
    def leave(ctxs, w, failing, probe):
        c, wr = ctxs.pop()
        e = Interrupted("simulated")
        if failing:
            probe.fault("failure_in_context")
            swallowed = True
            try:
                swallowed = c.__exit__(Interrupted, e, None)
            except Interrupted:
                swallowed = False
            check(not swallowed, "failure-swallowed", "the writer context swallowed an exception")
        else:
            c.__exit__(None, None, None)
        if wr is not None:
            w["stack"].pop()

    # --------------------------------------------------------------- fit
    def fit(self, case, probe, w):
        import pytorch_lightning as pl
        from reagent.tensorboardX import SummaryWriterContext, summary_writer_context

        algo = tc.ALGOS[case["algo"]]
        seed = case["seed"] % 100000
        module = algo.build(case, seed)
        torch.manual_seed(seed)
        W = writer_class()
        with sut("construct", "constructing the reporter"):
            reporter = make_reporter(case)
        rank0 = not case["rank"]
        ref = Ref(case, reporter, w)
        spy = Spy(reporter, ref, w, rank0)
        module.set_reporter(spy)
        st = {"done": 0, "fresh": 0, "td": 0}
        w["step"] = lambda: st["done"]

        class Watch(pl.Callback):
            def on_train_batch_start(self, trainer, pl_module, batch, batch_idx, dataloader_idx):
                tc.NOISE["key"] = (seed, st["done"])
                st["fresh"] = len(spy.calls)

            def on_train_batch_end(self, trainer, pl_module, outputs, batch, batch_idx, dataloader_idx):
                st["done"] += 1
                said = [k for c in spy.calls[st["fresh"]:] for k in c]
                for k in set(said):
                    check(said.count(k) == 1, "reported-twice", lambda: "%s reported %s %d times for one batch" % (
                        case["algo"], k, said.count(k)))
                own = "q1_loss" if case["algo"] == "td3" else "td_loss"
                need = trainer.log_every_n_steps if case["algo"] in ("c51", "td3") else 1
                check((own in said) == (batch_idx % need == 0), "loss-not-reported",
                      lambda: "%s reported %s for batch %d" % (case["algo"], said, batch_idx))
                probe.hit("reports")

        for si, (n, epochs, fault) in enumerate(case["ops"]):
            data = [algo.batch(case, (seed, si, i)) for i in range(n)]
            trainer = pl.Trainer(logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None,
                                 max_epochs=epochs, log_every_n_steps=2, callbacks=[Watch()])
            before = len(spy.flushes)
            ended = None
            with contextlib.ExitStack() as es:
                es.enter_context(contextlib.redirect_stderr(io.StringIO()))
                es.enter_context(contextlib.redirect_stdout(io.StringIO()))
                try:
                    with contextlib.ExitStack() as inner:
                        for j in range(case["writers"]):
                            inner.enter_context(summary_writer_context(W(w, "s%dw%d" % (si, j), case["ignore"])))
                            w["stack"].append("s%dw%d" % (si, j))
                        trainer.fit(module, Batches(data, list(fault) if fault else None, probe))
                except (Interrupted, WriterDown) as e:
                    ended = e
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("training-failed", "session %d: %s: %s" % (si, type(e).__name__, str(e)[:300]))
                finally:
                    w["stack"] = []
            check(not SummaryWriterContext._writer_stacks, "writer-left-behind", "a writer stays active after training ended")
            fl = spy.flushes[before:]
            if ended is None:
                check(fl == list(range(epochs)), "epoch-flush", lambda: "%d epochs, reporter flushed for %s" % (epochs, fl))
            if isinstance(ended, WriterDown):
                probe.hit("writer_error_ends_session")
                return
            if rank0:
                ref.compare("after session %d" % si)
            probe.state(case["algo"], case["interval"], si, bool(ended), st["done"])
            probe.hit("sessions_" + case["algo"])


def make_reporter_fresh(case):
    from reagent.tensorboardX import SummaryWriterContext

    SummaryWriterContext._custom_scalars = {}
    return make_reporter(case)


def hash_even(key):
    return sum(map(ord, key)) % 2 == 0


SCENARIO = M01()
