"""W02: a training workflow trains on exactly the data asked for and publishes exactly the models it trained."""
import contextlib
import copy
import hashlib
import io
import os
import pickle
import random
import shutil
import tempfile
import types

import torch

from dst.core import HarnessError, Scenario, SimCrash, Violation, check
from checks import t02
from checks import train_common as tc

CUR = {"p": None}  # the simulated process that is running
ALGOS = ["dqn", "qrdqn", "c51", "crr", "td3", "sac"]
DISCRETE = ("dqn", "qrdqn", "c51", "crr")


class SimError(OSError):
    pass


class Warehouse:
    """tables, materialised query results, feature identification; shared by all processes"""

    def __init__(self, case, probe):
        self.case, self.probe = case, probe
        self.rng = random.Random(case["seed"])
        self.tables = {}
        self.urls = {}
        self.code = 0
        self.idents = 0
        self.norms = {}

    def add_rows(self, table, n):
        rows = self.tables.setdefault(table, [])
        for _ in range(n):
            self.code += 1
            # buckets at the ends of ranges that are asked for, too
            b = self.rng.choice([0.0, 10.0, 50.0, 60.0, 80.0, 99.99, None, None, None])
            rows.append((self.code, self.rng.random() * 100 if b is None else b))

    def features(self, code, part, n):
        r = random.Random("%d.%s" % (code, part))
        return [round(r.uniform(-2, 2), 3) for _ in range(n)]

    def row(self, code, spec):
        r = random.Random("%d.row" % code)
        A = spec["A"]
        d = {"mdp_id": r.randrange(3), "sequence_number": code, "time_diff": 1, "step": 1, "reward": torch.tensor(float(code) + spec["bonus"]),
             "action_probability": torch.tensor(0.5)}
        for p in ("", "next_"):
            d[p + "state_features"] = torch.tensor(self.features(code, p + "state", tc.S))
            d[p + "state_features_presence"] = torch.tensor([r.random() < 0.85 for _ in range(tc.S)], dtype=torch.uint8)
        terminal = r.random() < 0.25
        if spec["discrete"]:
            a = r.randrange(A)
            m = [int(r.random() < 0.7 or i == a) for i in range(A)]
            nm = [0] * A if terminal else [int(r.random() < 0.7) for i in range(A)]
            if not terminal and not any(nm):
                nm[r.randrange(A)] = 1
            na = A if terminal else r.choice([i for i in range(A) if nm[i]])
            d.update(action=a, next_action=na, possible_actions_mask=torch.tensor(m, dtype=torch.uint8),
                     possible_next_actions_mask=torch.tensor(nm, dtype=torch.uint8))
        else:
            for p in ("", "next_"):
                d[p + "action"] = torch.tensor(self.features(code, p + "action", A))
                d[p + "action_presence"] = torch.ones(A, dtype=torch.uint8)
            d["not_terminal"] = torch.tensor(0.0 if terminal else 1.0)
        return d

    # seam: reagent.workflow.data_fetcher.query_data
    def query(self, **kw):
        p = CUR["p"]
        p.stage("query")
        lo, hi = kw["sample_range"] or (0.0, 100.0)
        spec = dict(discrete=kw["discrete_action"], A=p.kind["A"], bonus=0.5 if kw.get("custom_reward_expression") else 0.0)
        if spec["discrete"]:
            check(list(kw["actions"]) == ["a%d" % i for i in range(spec["A"])], "query", "queried for actions %s" % (kw["actions"],))
            check(kw["include_possible_actions"] is True, "query", "possible actions were not asked for")
            check(kw.get("gamma") == p.kind["rl"]["gamma"] and kw.get("multi_steps") == (
                3 if p.kind["rl"]["time"] == "steps" else None), "query",
                  "queried with gamma %s and %s steps" % (kw.get("gamma"), kw.get("multi_steps")))
        check(kw.get("custom_reward_expression") == p.reward_expr, "query", "queried with another reward expression")
        codes = [c for c, b in self.tables[kw["input_table_spec"].table_name] if lo <= b < hi]
        url = "wh://%d" % len(self.urls)
        self.urls[url] = (codes, spec)
        p.queried.append((kw["input_table_spec"].table_name, lo, hi))
        from reagent.workflow.types import Dataset

        return Dataset(parquet_url=url)

    # seam: identify_normalization_parameters
    def identify(self, table, column, options):
        from reagent.parameters import NormalizationParameters

        p = CUR["p"]
        p.stage("identify")
        name = getattr(column, "value", column)
        action = name == "action"
        n = p.kind["A"] if action else tc.S
        check(list(options.whitelist_features or []) == list(range(n)), "identify", "identified %s of features %s" % (name, options.whitelist_features))
        self.idents += 1
        p.identified.append(name)
        out = {}
        for i in range(n):
            r = random.Random("%d.%d.%d" % (self.case["seed"], self.idents, i))
            lo = r.uniform(-3, -2.5)
            out[i] = NormalizationParameters(feature_type="CONTINUOUS_ACTION" if action else "CONTINUOUS", mean=r.uniform(-1, 1),
                                             stddev=r.uniform(1.0, 2.0), min_value=lo, max_value=r.uniform(2.5, 3))
        return out

    # seams: make_batch_reader and DataLoader
    def reader(self, url, num_epochs=None, reader_pool_type=None):
        p = CUR["p"]
        check(num_epochs == 1, "reader", "the reader repeats the data %s times" % (num_epochs,))
        check(reader_pool_type == p.options.petastorm_reader_pool_type, "options", "the reader uses pool %s, asked for %s" % (
            reader_pool_type, p.options.petastorm_reader_pool_type))
        return Reader(self, p, url)


class Reader:
    def __init__(self, wh, p, url):
        self.wh, self.p, self.url = wh, p, url
        self.n = len(p.readers)
        self.closed = False
        codes, self.spec = wh.urls[url]
        self.codes = list(codes)
        if wh.case["shuffle"]:
            random.Random("%d.%d" % (p.seed, self.n)).shuffle(self.codes)
        self.given = []
        p.readers.append(self)


class Loader:
    def __init__(self, reader, batch_size=1, collate_fn=None):
        self.r, self.size, self.collate = reader, batch_size, collate_fn
        p = reader.p
        check(batch_size == p.options.minibatch_size, "options", "batches of %s rows, asked for %d" % (batch_size, p.options.minibatch_size))

    def __iter__(self):
        r = self.r
        check(not r.closed and not r.given, "reader", "a reader that is used up or closed is read")
        for k in range(0, len(r.codes), self.size):
            r.p.stage("read", r.n, k // self.size)
            codes = r.codes[k:k + self.size]
            r.given.append(codes)
            yield self.collate([r.wh.row(c, r.spec) for c in codes])

    def __exit__(self, *a):
        self.r.closed = True


class Machine:
    """one directory, several training processes; the database of published models is in it"""

    def __init__(self, case, probe, root):
        self.case, self.probe, self.root = case, probe, root
        self.wh = Warehouse(case, probe)
        self.now = 1000000000.25
        self.published = {}  # (kind, module) -> [Result that may be found]
        self.saved = {}  # kind -> checkpoint path
        self.files = {}  # path -> digest of every file of a finished run
        self.runs = 0
        for t in range(case["tables"]):
            self.wh.add_rows("t%d" % t, case["rows"])

    def digest(self, path):
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()


class Process:
    def __init__(self, m, op):
        self.m, self.op = m, op
        self.kind = m.case["kinds"][op["kind"]]
        self.seed = m.case["seed"] * 100 + m.runs
        m.runs += 1
        self.queried, self.identified, self.readers = [], [], []
        self.trained, self.tested, self.pages = [], [], []
        self.nested = None
        self.fault = op.get("fault")
        self.counts = {}
        self.dead = False
        self.norm = None

    def stage(self, name, *at):
        """a point at which the process can die or a call can fail"""
        n = self.counts[name] = self.counts.get(name, -1) + 1
        f = self.fault
        if self.dead:
            raise SimCrash()
        if f and f["at"] == name and f["n"] == n:
            self.fault = None
            self.fail(f["kind"], name)

    def fail(self, kind, name):
        self.m.probe.fault("%s_at_%s" % (kind, name))
        self.m.probe.event(kind, name)
        if kind == "crash":
            self.dead = True
            raise SimCrash()
        raise SimError("simulated failure of " + name)


def x_state(norm, row, part):
    x, pr = row[part + "state_features"], row[part + "state_features_presence"]
    mean = torch.tensor([norm[i].mean for i in range(len(norm))])
    std = torch.tensor([norm[i].stddev for i in range(len(norm))])
    return (x - mean) / std * pr.float()


def x_action(norm, x):
    lo = torch.tensor([norm[i].min_value for i in range(len(norm))])
    hi = torch.tensor([norm[i].max_value for i in range(len(norm))])
    return (x - lo) / (hi - lo) * 2 - 1


def near(a, b):
    return a.shape == b.shape and torch.allclose(a.float(), b.float(), rtol=1e-4, atol=2e-5)


class W02(Scenario):
    id = "W02"
    runs = {"quick": 400, "thorough": 12000}
    rule = ("a case is tables of uniquely rewarded rows and a series of workflow runs (algorithm, sample ranges, options, how normalization is "
            "obtained, warm start, validator, publisher) with failures or process death at drawn stages, overlapping runs and clock jumps; "
            "non-trivial when a run finished after another one")
    components = {"real": ["identify_and_train_network, query_and_train, run_validator, run_publisher", "ModelManager.train_workflow and 6 managers",
                           "ManualDataModule, PetastormLightningDataModule, train_eval_lightning", "batch preprocessors, predictor wrappers, TorchScript",
                           "pl.Trainer", "EvaluationDataPage", "FileSystemPublisher on TinyDB"],
                  "stub": ["query_data and identify_normalization_parameters: in-memory tables (no Spark)", "petastorm reader and loader: in memory",
                           "clock of output names", "off-policy estimators: not run", "TensorBoard event files: none"]}
    assumptions = ["a crash is a process death: what was written stays", "overlapping runs are interleaved at the saving of a model"]

    def setup(self):
        if getattr(self, "ready", False):
            return
        self.ready = True
        t02.T02.setup(self_t02())
        import reagent.workflow.data.manual_data_module as mdm
        import reagent.workflow.model_managers.actor_critic_base as acb
        import reagent.workflow.model_managers.discrete_dqn_base as ddb
        import reagent.workflow.model_managers.model_manager as mm
        import reagent.workflow.utils as wu
        from reagent.training import ReAgentLightningModule
        from reagent.training.dqn_trainer_base import DQNTrainerBaseLightning

        for mod in (ddb, acb):
            mod.query_data = lambda **kw: CUR["p"].m.wh.query(**kw)
            mod.identify_normalization_parameters = lambda *a: CUR["p"].m.wh.identify(*a)
        for mod in (mdm, wu):
            mod.make_batch_reader = lambda *a, **kw: CUR["p"].m.wh.reader(*a, **kw)
            mod.DataLoader = Loader
            mod.decimal_friendly_collate = torch.utils.data.default_collate

        class Time:
            def __getattr__(self, k):
                import time

                return getattr(time, k)

            def time(self):
                return CUR["p"].m.now if CUR["p"] is not None else __import__("time").time()

        mm.time = Time()
        real_save = torch.jit.save

        def save(module, path, *a, **kw):
            p = CUR["p"]
            if p is None or not isinstance(path, str):
                return real_save(module, path, *a, **kw)
            f = p.fault
            n = p.counts.get("save_model", -1) + 1
            if p.nested and p.nested[0] == n:
                go, p.nested = p.nested[1], None
                go()
            if f and f["at"] == "save_model" and f["n"] == n and f.get("torn"):
                p.counts["save_model"] = n
                p.fault = None
                real_save(module, path, *a, **kw)
                with open(path, "r+b") as g:
                    g.truncate(os.path.getsize(path) * 2 // 3)
                p.fail(f["kind"], "torn_save_model")
            p.stage("save_model")
            real_save(module, path, *a, **kw)

        torch.jit.save = save
        real_step = ReAgentLightningModule.training_step

        def training_step(self, batch, batch_idx, optimizer_idx):
            p = CUR["p"]
            if p is not None and optimizer_idx == 0:
                tc.NOISE["key"] = (p.seed, len(p.trained))
                p.trained.append((self.trainer.current_epoch, batch))
            return real_step(self, batch, batch_idx, optimizer_idx)

        ReAgentLightningModule.training_step = training_step
        real_test = DQNTrainerBaseLightning.test_step

        def test_step(self, batch, batch_idx):
            p = CUR["p"]
            if p is not None:
                p.tested.append(batch)
            return real_test(self, batch, batch_idx)

        DQNTrainerBaseLightning.test_step = test_step
        from reagent.evaluation.cpe import CpeDetails
        from reagent.evaluation.evaluator import Evaluator

        real_eval = Evaluator.evaluate_post_training

        def evaluate(self, edp):
            p = CUR["p"]
            if p is None:
                return real_eval(self, edp)
            p.pages.append(edp)
            return CpeDetails()

        Evaluator.evaluate_post_training = evaluate

    def plan(self, rng, index, tier):
        kinds = []
        for _ in range(rng.choice([1, 1, 2])):
            k = tc.plan_algo(rng, exact=True)
            while k["algo"] not in ALGOS:
                k = tc.plan_algo(rng, exact=True)
            k.update(bcq=None, metrics=0, crr=None, kld=0)
            if k["algo"] == "c51":
                k["cpe"] = False
            elif k["algo"] in ("td3", "sac"):
                k["cpe"] = rng.random() < 0.5  # only queried; these trainers evaluate nothing
            k["reader"] = [rng.choice([1, 2, 3, 4]), rng.choice(["thread", "process", "dummy"])] if rng.random() < 0.4 else None
            k["fmt"] = rng.random() < 0.5
            kinds.append(k)
        ops = []
        for _ in range(rng.choice([1, 2, 3, 3, 4])):
            ops.append(self.plan_op(rng, kinds, 0))
        return dict(kinds=kinds, ops=ops, tables=rng.choice([1, 2]), rows=rng.choice([1, 3, 6, 9]), shuffle=rng.random() < 0.7,
                    seed=rng.randrange(1 << 30))

    def plan_op(self, rng, kinds, depth):
        k = rng.randrange(len(kinds))
        disc = kinds[k]["algo"] in DISCRETE
        ev = rng.choice([10.0, 20.0, 40.0, 50.0])
        ts = rng.choice([100.0 - ev, 50.0, 60.0])
        if not kinds[k]["cpe"]:
            ts = rng.choice([None, 100.0, ts])
        op = dict(kind=k, table=rng.randrange(2), epochs=rng.choice([1, 1, 2]), sample=min(ts, 100.0 - ev) if kinds[k]["cpe"] else ts,
                  eval=ev if kinds[k]["cpe"] or rng.random() < 0.5 else None,
                  mode=rng.choice(["identify", "identify", "setup", "saved"] if disc else ["identify", "identify", "norm"]),
                  reward=rng.random() < 0.3, reader=[rng.choice([1, 2, 3, 5]), rng.choice(["thread", "process"])],
                  validator=rng.choice([None, "ok", "no"]) if rng.random() < 0.6 else None, publish=rng.random() < 0.8,
                  warm=rng.random() < 0.3, save=rng.random() < 0.4, tick=rng.choice([0, 0, 0.3, 7, -4]), grow=rng.choice([0, 0, 2]), fault=None)
        x = rng.random()
        if x < 0.35:
            at = rng.choice(["query", "identify", "read", "read", "save_model", "save_model", "validate"])
            op["fault"] = dict(at=at, n=rng.randrange(5 if at == "read" else 2), kind=rng.choice(["crash", "error"]), torn=rng.random() < 0.5)
        elif depth == 0 and x < 0.55:
            op["nested"] = [rng.choice([0, 0, 1]), self.plan_op(rng, kinds, 1)]
        return op

    def shrink(self, case):
        for i in range(len(case["ops"])):
            c = copy.deepcopy(case)
            del c["ops"][i]
            yield c
        for i, op in enumerate(case["ops"]):
            for k, v in (("nested", None), ("fault", None), ("warm", False), ("save", False), ("validator", None), ("grow", 0), ("epochs", 1),
                         ("reward", False), ("mode", "identify"), ("eval", None)):
                if op.get(k) not in (v, None) and not (k == "eval" and case["kinds"][op["kind"]]["cpe"]):
                    c = copy.deepcopy(case)
                    c["ops"][i][k] = v
                    yield c
        for i, kd in enumerate(case["kinds"]):
            for k in ("cpe", "q2", "value", "alpha", "reader"):
                if kd.get(k):
                    c = copy.deepcopy(case)
                    c["kinds"][i][k] = None if k == "reader" else False
                    yield c
        for k, v in (("rows", case["rows"] - 1), ("tables", 1), ("shuffle", False)):
            if case[k] != v and v > 0 or v is False and case[k]:
                c = copy.deepcopy(case)
                c[k] = v
                yield c

    def nontrivial(self, case, probe):
        return probe.hits["finished"] > 1

    def run(self, case, probe):
        root = tempfile.mkdtemp(prefix="w02.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        old = os.getcwd()
        tempfile.tempdir = os.path.join(root, "tmp")
        os.makedirs(tempfile.tempdir)
        os.makedirs(os.path.join(root, "job"))
        os.chdir(os.path.join(root, "job"))
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                m = Machine(case, probe, root)
                for op in case["ops"]:
                    self.one(m, op)
                    self.audit(m)
        finally:
            CUR["p"] = None
            os.chdir(old)
            tempfile.tempdir = None
            shutil.rmtree(root, ignore_errors=True)

    def manager(self, kind):
        from reagent.models.model_feature_config_provider import RawModelFeatureConfigProvider
        from reagent.parameters import EvaluationParameters
        from reagent.types import FloatFeatureInfo
        from reagent.workflow.types import ModelFeatureConfigProvider__Union, ReaderOptions

        mgr = t02.manager(kind)
        if kind["algo"] in DISCRETE:
            infos = [FloatFeatureInfo(feature_id=i, name="s%d" % i) for i in range(tc.S)]
            mgr.state_feature_config_provider = ModelFeatureConfigProvider__Union(raw=RawModelFeatureConfigProvider(float_feature_infos=infos))
        if kind["algo"] not in DISCRETE and kind["cpe"]:
            mgr.eval_parameters = EvaluationParameters(calc_cpe_in_training=True)
        if kind["reader"]:
            mgr.reader_options = ReaderOptions(*kind["reader"])
        return mgr

    def union(self, mgr):
        from reagent.workflow.model_managers.union import ModelManager__Union

        return ModelManager__Union.make_union_instance(mgr, type(mgr))

    def publisher(self, m):
        from reagent.publishers.file_system_publisher import FileSystemPublisher

        return FileSystemPublisher(publishing_file=os.path.join(m.root, "published"))

    def one(self, m, op):
        from reagent.tensorboardX import SummaryWriterContext

        outer = CUR["p"]
        ctx = {k: v for k, v in vars(SummaryWriterContext).items() if k.startswith("_") and not k.startswith("__")
               and not callable(v) and not isinstance(v, (classmethod, staticmethod))}
        SummaryWriterContext._reset_globals()
        p = CUR["p"] = Process(m, op)
        m.probe.event("start", p.kind["algo"], op["mode"], op["epochs"], op["warm"])
        try:
            self.process(m, p, op)
        finally:
            CUR["p"] = outer
            for k, v in ctx.items():
                setattr(SummaryWriterContext, k, v)

    def process(self, m, p, op):
        from reagent.core.result_types import NoValidationResults
        from reagent.publishers.union import ModelPublisher__Union
        from reagent.validators.model_validator import ModelValidator
        from reagent.workflow import training
        from reagent.workflow.types import ReaderOptions, RewardOptions, TableSpec

        probe, kind, case = m.probe, p.kind, m.case
        table = "t%d" % (op["table"] % case["tables"])
        m.now += op["tick"]
        if op["tick"] < 0:
            probe.fault("clock_back")
        elif not op["tick"]:
            probe.fault("clock_same")
        opts = ReaderOptions(*op["reader"])
        p.options = ReaderOptions(*kind["reader"]) if kind["reader"] else opts
        p.reward_expr = "reward + 0.5" if op["reward"] else None
        spec = TableSpec(table_name=table, table_sample=op["sample"], eval_table_sample=op["eval"])
        reward = RewardOptions(custom_reward_expression=p.reward_expr) if op["reward"] else None
        torch.manual_seed(p.seed)
        kw = dict(use_gpu=False, reward_options=reward, reader_options=opts, warmstart_path=m.saved.get(op["kind"]) if op["warm"] else None)
        if kw["warmstart_path"]:
            probe.hit("warm_start")
        if op["validator"]:
            class V:
                def validate(self, out):
                    p.stage("validate")
                    check(out.output_paths and all(os.path.getsize(x) for x in out.output_paths.values()), "validate",
                          "there is no model to validate")
                    return ModelValidator.validate(self, out)

                def do_validate(self, out) -> NoValidationResults:
                    return NoValidationResults(should_publish=op["validator"] == "ok")

            kw["validator"] = types.SimpleNamespace(value=V())
        if op["publish"]:
            pub = self.publisher(m)
            kw["publisher"] = ModelPublisher__Union.make_union_instance(pub, type(pub))
        if op.get("nested"):
            n, sub = op["nested"]

            def go():
                probe.hit("overlapping_runs")
                probe.fault("overlap")
                self.one(m, sub)

            p.nested = [n, go]
        mgr = self.manager(kind)
        before = {k: self.visible(m, k) for k in m.published}
        out = None
        hist = None
        try:
            if op["mode"] == "identify":
                f = lambda: training.identify_and_train_network(spec, self.union(mgr), op["epochs"], **kw)  # noqa
            elif op["mode"] == "norm":
                norm = self.manager(kind).run_feature_identification(spec)
                f = lambda: training.query_and_train(spec, self.union(mgr), op["epochs"], normalization_data_map=norm, **kw)  # noqa
            else:
                prep = self.manager(kind).get_data_module(input_table_spec=spec, reward_options=reward or RewardOptions(), reader_options=opts)
                data = prep.prepare_data()
                hist = self.rows_at(m, table, op, kind)
                kw.pop("use_gpu")
                if op["mode"] == "setup":
                    data = pickle.loads(pickle.dumps(data))  # through the other process
                    f = lambda: training.query_and_train(spec, self.union(mgr), op["epochs"], False, setup_data=data, **kw)  # noqa
                else:
                    saved = {k: v for k, v in data.items() if k == "normalization_data_map"}
                    hist = None
                    f = lambda: training.query_and_train(spec, self.union(mgr), op["epochs"], False, saved_setup_data=saved, **kw)  # noqa
            if op["grow"] and op["mode"] in ("setup", "saved", "norm"):
                m.wh.add_rows(table, op["grow"])
                probe.hit("table_grew")
            hist = hist or self.rows_at(m, table, op, kind)
            probe.hit("runs")
            if op["mode"] != "identify":
                p.queried_before, p.queried = p.queried, []
            if op["mode"] == "norm":
                kw.pop("use_gpu")
                f = lambda: training.query_and_train(spec, self.union(mgr), op["epochs"], False, normalization_data_map=norm, **kw)  # noqa
            out = f()
        except SimCrash:
            probe.hit("died")
        except SimError:
            probe.hit("failed")
        except (Violation, HarnessError):
            raise
        except Exception as e:
            import traceback

            if hist and not hist[0]:
                probe.hit("nothing_to_train")  # refused
                return
            if os.environ.get("DST_DEBUG"):
                traceback.print_exc(file=open("/tmp/tb.txt", "w"))
            fr = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("workflow-failed", "%s: %s (%s:%s)" % (type(e).__name__, str(e)[:300], os.path.basename(fr.filename), fr.name))
        if out is None:
            if not op.get("nested"):
                for k, v in before.items():
                    check(self.visible(m, k) == v, "published-by-failed-run", "a run that did not finish changed what %s is published as" % (k,))
            return
        check(not p.fault or p.fault["at"] in ("identify", "query", "read", "save_model", "validate"), "fault", "unknown")
        probe.hit("finished")
        probe.event("finished", len(p.trained), len(p.tested))
        probe.hit("finished_" + kind["algo"])
        self.judge(m, p, op, mgr, out, hist)
        if op["save"]:
            path = os.path.join(m.root, "trainer_%d" % p.seed)
            mgr.save_trainer(path)
            m.saved[op["kind"]] = path

    def rows_at(self, m, table, op, kind):
        rows = m.wh.tables[table]
        s = 100.0 if op["sample"] is None else op["sample"]
        train = [c for c, b in rows if b < s]
        ev = [c for c, b in rows if b >= 100.0 - op["eval"]] if kind["cpe"] else []
        return train, ev

    def batch_ok(self, m, p, b, code, i, norm, spec):
        """row i of a training batch is what the row of the table says"""
        row = m.wh.row(code, spec)
        ok = near(b.state.float_features[i], x_state(norm["state"], row, "")) and near(
            b.next_state.float_features[i], x_state(norm["state"], row, "next_"))
        check(ok, "features", "row %d is trained with features %s, the normalized row is %s" % (
            code, b.state.float_features[i].tolist(), x_state(norm["state"], row, "").tolist()))
        A = p.kind["A"]
        if spec["discrete"]:
            a, na = b.action[i].tolist(), b.next_action[i].tolist()
            check([int(v) for v in a] == [int(j == row["action"]) for j in range(A)], "action", "row %d is trained with another action" % code)
            check([int(v) for v in na] == [int(j == row["next_action"]) for j in range(A)], "action", "row %d: another next action" % code)
            check(b.possible_actions_mask[i].tolist() == row["possible_actions_mask"].tolist() and
                  b.possible_next_actions_mask[i].tolist() == row["possible_next_actions_mask"].tolist(), "action", "row %d: another mask" % code)
            nt = float(max(row["possible_next_actions_mask"].tolist()))
        else:
            ok = near(b.action.float_features[i], x_action(norm["action"], row["action"])) and near(
                b.next_action.float_features[i], x_action(norm["action"], row["next_action"]))
            check(ok, "action", "row %d is trained with another action" % code)
            nt = float(row["not_terminal"])
        check(float(b.not_terminal[i]) == nt, "terminal", "row %d: not_terminal is %s" % (code, float(b.not_terminal[i])))
        check(int(b.extras.mdp_id[i]) == row["mdp_id"] and int(b.extras.sequence_number[i]) == code, "ids", "row %d: other ids" % code)

    def judge(self, m, p, op, mgr, out, hist):
        probe, kind = m.probe, p.kind
        spec = dict(discrete=kind["algo"] in DISCRETE, A=kind["A"], bonus=0.5 if op["reward"] else 0.0)
        train, ev = hist
        disc = spec["discrete"]
        # normalization: one identification, used everywhere
        cols = ["state_features"] if disc else ["state_features", "action"]
        check(p.identified == cols, "identify", "identified %s, expected %s once" % (p.identified, cols))
        lo = 0.0
        want = [("t%d" % (op["table"] % m.case["tables"]), lo, 100.0 if op["sample"] is None else op["sample"])]
        if kind["cpe"]:
            want.append((want[0][0], 100.0 - op["eval"], 100.0))
        if op["mode"] == "setup":
            check(p.queried == [], "query", "prepared data was queried again")
        else:
            check(p.queried == want, "query", "queried %s, expected %s" % (p.queried, want))
        norm = {"state": mgr.state_normalization_data.dense_normalization_parameters}
        if not disc:
            norm["action"] = mgr.action_normalization_data.dense_normalization_parameters
        # training: every epoch is exactly the rows of the sample, in the order of its reader
        epochs = {}
        for e, b in p.trained:
            epochs.setdefault(e, []).append(b)
        readers = list(p.readers)
        if ev or (kind["cpe"]):
            check(readers, "reader", "no data was read")
        tests = []
        trains = []
        for r in readers:
            (trains if len(trains) < op["epochs"] else tests).append(r)
        if train:
            check(len(epochs) == op["epochs"], "epochs", "%d epochs were trained instead of %d" % (len(epochs), op["epochs"]))
        size = p.options.minibatch_size
        check(len(trains) == op["epochs"], "reader", "the training data was read %d times in %d epochs" % (len(trains), op["epochs"]))
        for (e, bs), r in zip(sorted(epochs.items()), trains):
            check(sorted(r.codes) == sorted(train), "rows", "epoch %d reads rows %s, the sample is %s" % (e, sorted(r.codes), train))
            got = [[round(float(v) - spec["bonus"], 3) for v in b.reward[:, 0]] for b in bs]
            exp = [[float(c) for c in r.codes[k:k + size]] for k in range(0, len(r.codes), size)]
            check(got == exp, "rows", "epoch %d trained rows %s, its reader gave %s" % (e, got, exp))
            for b, codes in zip(bs, exp):
                for i, c in enumerate(codes):
                    self.batch_ok(m, p, b, int(c), i, norm, spec)
        got = sorted(round(float(v) - spec["bonus"], 3) for b in p.tested for v in b.reward[:, 0])
        if not disc:
            ev = []
        check(got == sorted(float(c) for c in ev), "eval-rows", "evaluated on rows %s, the evaluation sample is %s" % (got, ev))
        for b in p.tested:
            for i in range(b.reward.shape[0]):
                self.batch_ok(m, p, b, int(round(float(b.reward[i, 0]) - spec["bonus"])), i, norm, spec)
        check(all(r.closed for r in readers), "reader", "a reader was left open after the run")
        if p.tested:
            probe.hit("evaluated")
            check(len(p.pages) == 1, "eval-rows", "the evaluation ran %d times" % len(p.pages))
            got = sorted(int(v) for v in p.pages[0].sequence_number.flatten())
            check(got == sorted(ev), "eval-rows", "rows %s were evaluated, the evaluation sample is %s" % (got, ev))
        # the models
        names = sorted(mgr.serving_module_names())
        check(sorted(out.output_paths) == names, "models", "models %s were saved, expected %s" % (sorted(out.output_paths), names))
        check(len({os.path.realpath(x) for x in out.output_paths.values()}) == len(names), "models", "two models of a run share a file")
        ref = self.references(m, p, mgr, norm)
        for name, path in out.output_paths.items():
            path = os.path.realpath(path)
            self.loads_as(path, ref[name], name)
            check(path not in m.files, "overwritten", "%s of an earlier run was overwritten" % os.path.basename(path))
            m.files[path] = m.digest(path)
        refused = op["validator"] == "no"
        check((out.validation_result is not None) == bool(op["validator"]), "validation", "the validation result is missing or unasked for")
        if op["validator"]:
            check(out.validation_result.value.should_publish == (not refused), "validation", "another validation result")
        done = op["publish"] and not refused
        check((out.publishing_result is not None) == bool(done), "publish", "the model was %s" % (
            "published although validation rejected it" if refused and out.publishing_result else "not published"))
        check(out.training_report is not None, "report", "there is no training report")
        if refused and op["publish"]:
            probe.hit("rejected")
        if done:
            probe.hit("published")
            for name, path in out.output_paths.items():
                m.published[(op["kind"], name)] = (os.path.realpath(path), ref[name])
                check(self.visible(m, (op["kind"], name)) == os.path.realpath(path), "publish", "%s was published but is not found" % name)

    def references(self, m, p, mgr, norm):
        """name -> (inputs, expected output), computed from the networks that were trained"""
        r = random.Random(p.seed)
        x = torch.tensor([[r.uniform(-2, 2) for _ in range(tc.S)] for _ in range(4)])
        pr = torch.tensor([[r.random() < 0.8 for _ in range(tc.S)] for _ in range(4)], dtype=torch.uint8)
        s = tc.f(torch.stack([x_state(norm["state"], {"state_features": a, "state_features_presence": b}, "") for a, b in zip(x, pr)]))
        t, a = mgr.trainer, p.kind["algo"]
        with torch.no_grad():
            if a in ("dqn", "c51"):
                if a == "dqn":
                    out = {"default_model": t.q_network(s)}
                else:
                    out = {"default_model": (t.q_network.log_dist(s).exp() * t.support).sum(2)}
            elif a == "qrdqn":
                out = {"default_model": t.q_network(s).mean(2)}
            elif a == "crr":
                sc = t.actor_network(s).action
                out = {"default_model": sc, "dqn": t.q1_network(s), "actor_dqn": sc}
            else:
                y = t.actor_network(s)
                y = y.squashed_mean if a == "sac" else y.action
                n = norm["action"]
                lo = torch.tensor([n[i].min_value for i in range(len(n))])
                hi = torch.tensor([n[i].max_value for i in range(len(n))])
                out = {"default_model": (y + 1) / 2 * (hi - lo) + lo}
        disc = {k for k in out if a in ("dqn", "c51", "qrdqn") or k in ("dqn", "actor_dqn")}
        acts = ["a%d" % i for i in range(p.kind["A"])]
        return {k: (x, pr, v.detach().clone(), acts if k in disc else None) for k, v in out.items()}

    def loads_as(self, path, ref, name):
        import reagent.types as rlt

        x, pr, want, acts = ref
        try:
            mod = torch.jit.load(path)
        except Exception as e:
            raise Violation("model-unreadable", "the published %s cannot be loaded: %s" % (name, str(e)[:200]))
        with torch.no_grad():
            if acts is not None:
                names, got = mod(rlt.ServingFeatureData(float_features_with_presence=(x, pr), id_list_features={}, id_score_list_features={}))
                check(list(names) == acts, "model", "%s names the actions %s" % (name, names))
            else:
                got = mod((x, pr))
        check(near(got, want), "model", "%s computes %s, the trained network gives %s" % (name, got.tolist(), want.tolist()))

    def visible(self, m, key):
        mgr = self.manager(m.case["kinds"][key[0]])
        try:
            return os.path.realpath(self.publisher(m).get_latest_published_model(mgr, key[1]))
        except ValueError:
            return None

    def audit(self, m):
        same = {}  # two kinds of the same configuration share their publications
        for path, d in m.files.items():
            check(os.path.exists(path) and m.digest(path) == d, "overwritten", "%s was changed after its run" % os.path.basename(path))
        for key in m.published:
            same.setdefault((str(self.manager(m.case["kinds"][key[0]])), key[1]), []).append(m.published[key])
        for key, (path, ref) in m.published.items():
            got = self.visible(m, key)
            poss = same[(str(self.manager(m.case["kinds"][key[0]])), key[1])]
            hit = [r for q, r in poss if q == got]
            check(hit, "publish", "%s is found as %s, published was %s" % (key[1], got, [q for q, _ in poss]))
            self.loads_as(got, hit[0], key[1])
            m.probe.state((key[1], len(m.published), len(m.files)))


_T02 = []


def self_t02():
    if not _T02:
        _T02.append(t02.SCENARIO)
    return _T02[0]


SCENARIO = W02()
