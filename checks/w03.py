"""W03: the offline Gym workflow collects what happened, hands it on unchanged and judges the model that was published last."""
import copy
import io
import math
import numbers
import os
import random
import shutil
import tempfile

import numpy as np
import torch

from dst.core import Scenario, SimCrash, Violation, check, sut
from dst.simdisk import SimDisk
from checks import g02
from checks import gym_common as gc
from checks import train_common as tc

MODULES = ["default_model", "dqn", "actor_dqn"]
NETS = {}
D = 3


def num(x, where):
    """a plain number of a table"""
    check(isinstance(x, (numbers.Real, np.number)) and not isinstance(x, (bool, np.bool_)), "not-a-number", lambda: "%s: %r" % (where, x))
    return float(x)


class Net:
    """a published model: its file and the network it was made of"""

    def __init__(self, kind, n, seed):
        import reagent.types as rlt
        from reagent.models.actor import FullyConnectedActor
        from reagent.models.dqn import FullyConnectedDQN
        from reagent.prediction import predictor_wrapper as pw
        from reagent.preprocessing.normalization import NormalizationParameters
        from reagent.preprocessing.preprocessor import Preprocessor

        torch.manual_seed(seed)
        self.kind, self.n = kind, n
        self.mean, self.std = [10.0 * (seed % 5) + j for j in range(D)], [20.0 + 7 * j for j in range(D)]
        pre = Preprocessor({j: NormalizationParameters(feature_type="CONTINUOUS", mean=self.mean[j], stddev=self.std[j])
                            for j in range(D)}, use_gpu=False).eval()
        if kind == "discrete":
            self.net = FullyConnectedDQN(state_dim=D, action_dim=n, sizes=[8], activations=["tanh"]).eval()
            with torch.no_grad():
                for p in self.net.parameters():
                    p.mul_(1.5)
            cfg = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name="f%d" % j, feature_id=j) for j in range(D)])
            mod = pw.DiscreteDqnPredictorWrapper(pw.DiscreteDqnWithPreprocessor(self.net, pre, cfg), ["a%d" % j for j in range(n)], cfg)
        else:
            self.net = FullyConnectedActor(state_dim=D, action_dim=n, sizes=[8], activations=["tanh"]).eval()
            mod = pw.ActorPredictorWrapper(pw.ActorWithPreprocessor(self.net, pre))
        buf = io.BytesIO()
        torch.jit.save(mod, buf)
        self.blob = buf.getvalue()

    def out(self, obs):
        import reagent.types as rlt

        x = torch.tensor([[(float(obs[j]) - self.mean[j]) / self.std[j] for j in range(D)]], dtype=torch.float32)
        with torch.no_grad():
            o = self.net(rlt.FeatureData(x.clamp(-6.0, 6.0)))
        return (o if self.kind == "discrete" else o.action)[0]


class Quiet:
    """a probe for the rehearsal of an evaluation"""

    def fault(self, *a):
        pass

    event = hit = state = fault


def current_log():
    return gc.CURRENT["log"]


class Log(gc.EnvLog):
    def __reduce__(self):  # also copies of the environment are recorded
        return current_log, ()

    def seeded(self, seed):
        if self.spec.get("rng") == "own":
            self.rng = random.Random("seed%s" % seed)


class GlobalRng:
    """of an environment that draws from the generators of the process"""

    def random(self):
        return (np.random.rand() + random.random()) % 1.0

    def randrange(self, *a):
        lo, hi = a if len(a) == 2 else (0, a[0])
        return min(lo + int(self.random() * (hi - lo)), hi - 1)

    def randint(self, lo, hi):
        return self.randrange(lo, hi + 1)

    def uniform(self, lo, hi):
        return lo + (hi - lo) * self.random()

    def choice(self, xs):
        return xs[self.randrange(len(xs))]


class Silent:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def update(self, *a, **kw):
        pass


class Spark:
    def __init__(self):
        self.frames, self.views, self.calls = [], [], []

    def createDataFrame(self, df):
        self.frames.append(df)
        spark, me = self, df

        class Frame:
            def createTempView(self, name):
                spark.views.append((name, me))

            createOrReplaceTempView = createGlobalTempView = createTempView
        return Frame()


class W03(Scenario):
    id = "W03"
    runs = {"quick": 1500, "thorough": 60000}
    rule = ("a case is a sequence of offline collections, hand-overs to Spark, publications and evaluations over a scripted environment, "
            "with environment failures, disk errors and deaths at drawn points; non-trivial when a table was collected or a model judged")
    components = {"real": ["gym_batch_rl.offline_gym, timeline_operator, evaluate_gym", "fill_replay_buffer, ReplayBuffer, random policies",
                           "replay_buffer_to_pre_timeline_df, pandas pickles", "FileSystemPublisher, TorchScript models, predictor policies",
                           "evaluate_for_n_episodes"],
                  "stub": ["environment: scripted", "disk: simulated layer over a scratch directory", "Spark: records what it is given",
                           "process pool: simulated, with real pickling"]}
    assumptions = ["max_steps bounds an episode to that many steps or one more, as run_episode counts",
                   "the possible actions of an episode's last step may be left empty"]

    def setup(self):
        g02.SCENARIO.setup()
        tc.setup()
        gc.setup()
        import reagent.gym.utils as gu

        gu.tqdm = lambda *a, **kw: Silent()
        import reagent.publishers.file_system_publisher  # noqa
        import reagent.workflow.gym_batch_rl  # noqa
        from checks.w01 import managers
        from reagent.workflow.model_managers.actor_critic.td3 import TD3

        self.makers = managers()[:2] + managers()[2:] + [lambda: TD3()]
        for k in range(4):
            for n in (2, 3):
                NETS["discrete", n, k] = Net("discrete", n, 10 * k + n)
            NETS["box", 2, k] = Net("box", 2, 10 * k + 5)

    def env_spec(self, rng, kind, n):
        p = rng.choice([0.02, 0.1, 0.3, 0.7, 1.0])
        return {"seed": rng.randrange(10 ** 9), "obs_dim": D, "actions": [kind, n], "p_end": p, "masks": kind == "discrete" and rng.random() < 0.3,
                "int_reward": rng.random() < 0.5, "max_episode_steps": rng.choice([1, 4, 15]) if p < 0.05 or rng.random() < 0.3 else None,
                "np_bool": rng.random() < 0.3}

    def plan(self, rng, index, tier):
        kind = rng.choice(["discrete", "discrete", "box"])
        n = rng.choice([2, 3]) if kind == "discrete" else 2
        ops, known = [], []
        for _ in range(rng.choice([1, 2, 4, 6, 9])):
            x = rng.random()
            if not known and 0.65 <= x < 0.95:
                x = 0.5
            if x < 0.3:
                spec = self.env_spec(rng, kind, n)
                spec["rng"] = rng.choice(["script", "global", "own"])
                fault = None
                if rng.random() < 0.35:
                    fault = rng.choice([["env", rng.randrange(1, 30)], ["crash", rng.randrange(0, 5)], ["enospc", rng.randrange(0, 5)],
                                        ["eio", rng.randrange(0, 5)]]) + [rng.choice([0.0, 0.4, 0.9, 1.0])]
                ops.append(["collect", spec, rng.choice([2, 3, 5, 8, 20, 50]), rng.choice([None, 0, 1, 7, 123456]), fault,
                            rng.randrange(2), rng.random() < 0.3])
            elif x < 0.4:
                ops.append(["timeline", rng.randrange(2), rng.choice(["t", "my_table", "x_pre"])])
            elif x < 0.65:
                m = rng.randrange(4) if kind == "discrete" else 4
                if known and rng.random() < 0.4:
                    m = rng.choice(known)[0]
                names = ["default_model"] if m in (0, 1, 4) else rng.sample(MODULES, rng.randrange(1, 4))
                ops.append(["publish", m, {k: rng.randrange(4) for k in sorted(names)}])
                known += [[m, k] for k in sorted(names) if [m, k] not in known]
            else:
                m = rng.randrange(4) if kind == "discrete" else 4
                module = rng.choice(["default_model"] * 3 + MODULES + ["no_such_module"])
                if known and rng.random() < 0.9:
                    m, module = rng.choice(known)
                spec = self.env_spec(rng, kind, n)
                if rng.random() < 0.15:
                    spec["fail_at"] = rng.randrange(1, 20)
                ms = rng.choice([None, None, 1, 3, 10])
                if ms is None and spec["p_end"] < 0.05:
                    spec["p_end"] = 0.2
                ops.append(["evaluate", m, module, spec,
                            rng.choice([1, 2, 3, 5, 8]), ms, rng.choice([-1.0, -0.01, 0.0, 0.01, 1.0, 0.3, -0.3])])
        return {"kind": kind, "n": n, "ops": ops, "seed": rng.randrange(10 ** 9)}

    def shrink(self, case):
        for i, op in enumerate(case["ops"]):
            if op[0] == "collect":
                for k, v in ((2, 2), (3, None), (4, None), (6, False)):
                    if op[k] != v:
                        c = copy.deepcopy(case)
                        c["ops"][i][k] = v
                        yield c
            si = {"collect": 1, "evaluate": 3}.get(op[0])
            if si:
                for k, v in (("masks", False), ("max_episode_steps", None), ("np_bool", False), ("p_end", 1.0)):
                    if op[si][k] != v:
                        c = copy.deepcopy(case)
                        c["ops"][i][si][k] = v
                        yield c
            if op[0] == "evaluate":
                for k, v in ((4, 1), (5, None)):
                    if op[k] != v:
                        c = copy.deepcopy(case)
                        c["ops"][i][k] = v
                        yield c

    def nontrivial(self, case, probe):
        return probe.hits["tables"] + probe.hits["verdicts"] > 0

    # ------------------------------------------------------------------ running
    def run(self, case, probe):
        from reagent.workflow import gym_batch_rl as g

        self.c, self.p, self.g = case, probe, g
        disk = self.disk = SimDisk(probe, "w03")
        models = self.models = tempfile.mkdtemp(prefix="dst_w03models_")
        saved = g.get_spark_session, g.call_spark_class
        self.tables, self.published, self.files, self.made = {}, {}, 0, 0
        try:
            torch.manual_seed(case["seed"])
            np.random.seed(case["seed"] % 2 ** 32)
            random.seed(case["seed"])
            for op in case["ops"]:
                getattr(self, op[0])(*op[1:])
        finally:
            g.get_spark_session, g.call_spark_class = saved
            disk.close()
            shutil.rmtree(models, ignore_errors=True)
            gc.CURRENT.clear()

    def env(self, spec, probe):
        gc.CURRENT.clear()
        gc.CURRENT["log"] = Log(spec, probe)
        gc.CURRENT["on_env"] = None
        return gc.CURRENT["log"]

    def randomness(self, log):
        """where an environment gets its randomness from: a script, the generators of the process, its own generator"""
        kind = log.spec.get("rng")
        if kind == "global":
            log.rng = GlobalRng()
        elif kind == "own":
            self.made += 1
            log.rng = random.Random("entropy%d" % self.made)

    def pkl(self, slot):
        return os.path.join(self.disk.root, "table%d.pkl" % slot)

    def collect(self, spec, n, seed, fault, slot, again):
        where = "offline_gym of %d steps" % n
        spec = dict(spec)
        if fault and fault[0] == "env":
            spec["fail_at"] = fault[1]
        log = self.env(spec, self.p)
        self.randomness(log)
        disk, path = self.disk, self.pkl(slot)
        crashed = False
        self.tables.pop(slot, None)
        with disk:
            if fault and fault[0] != "env":
                disk.arm(fault[0], fault[1], fault[2])
            try:
                self.g.offline_gym(env_name="DstScript-v0", pkl_path=path, num_train_transitions=n, max_steps=None, seed=seed)
                err = None
            except SimCrash:
                crashed, err = True, None
            except gc.EnvFault as e:
                err = e
            except OSError as e:
                err = e
                check(disk.fired, "collection-failed", lambda: "%s: %r" % (where, e))
            except Exception as e:
                raise Violation("collection-failed", "%s: %s: %s" % (where, type(e).__name__, str(e)[:300]))
            fired = disk.fired
            disk.restart()
        if crashed:
            return
        if spec.get("fail_at") and log.fail_at is None:
            check(err is not None, "failure-hidden", "%s: the environment failed, but the collection reported success" % where)
        if err is not None:
            self.p.hit("failed_visibly")
            return
        if fired and not os.path.exists(path):
            raise Violation("failure-hidden", "%s: nothing was written, but the collection reported success" % where)
        df = self.read(path, where)
        self.judge_table(where, spec, log, n, df)
        self.tables[slot] = df
        self.p.hit("tables")
        self.p.event("table", len(df), [str(a) for a in df["action"].tolist()][:20])
        if again and seed is not None and not fault:
            torch.rand(3)
            np.random.rand(2)
            random.random()
            log = self.env(spec, self.p)
            self.randomness(log)
            with disk:
                with sut("collection-failed", where):
                    self.g.offline_gym(env_name="DstScript-v0", pkl_path=path, num_train_transitions=n, max_steps=None, seed=seed)
            df2 = self.read(path, where)
            check(df.to_dict("list") == df2.to_dict("list"), "seed-ignored", "%s: the same seed gave another table" % where)
            self.tables[slot] = df2
            self.p.hit("repeated_seeds")

    def read(self, path, where):
        import pandas as pd

        with sut("table-unreadable", where):
            return pd.read_pickle(path)

    def judge_table(self, where, spec, log, n, df):
        kind, k = spec["actions"]
        check(len(df) == n, "number-of-rows", lambda: "%s: the table has %d rows" % (where, len(df)))
        check(len(log.steps) == n, "number-of-steps", lambda: "%s: the environment made %d steps" % (where, len(log.steps)))
        need = {"ds", "state_features", "action", "mdp_id", "sequence_number", "action_probability", "reward", "metrics"}
        if kind == "discrete":
            need |= {"possible_actions", "possible_actions_mask"}
        check(need <= set(df.columns), "columns", lambda: "%s: columns %s" % (where, list(df.columns)))

        def flat(v):
            while isinstance(v, (list, tuple, np.ndarray)):
                v = v[0]
            return v

        rows = {}
        for r in df.to_dict("records"):
            key = (int(num(flat(r["mdp_id"]), where)), int(num(flat(r["sequence_number"]), where)))
            check(key not in rows, "row-twice", lambda: "%s: two rows for step %s" % (where, key))
            rows[key] = r
        eps = sorted({m for m, _ in rows})
        check(len(eps) == log.resets, "episodes", lambda: "%s: %d episodes in the table, %d played" % (where, len(eps), log.resets))
        last = {s["ep"]: s["t"] for s in log.steps}
        order = {}
        for s in log.steps:
            key = (eps[s["ep"]], s["t"])
            check(key in rows, "step-missing", lambda: "%s: no row for step %s" % (where, key))
            r = rows[key]
            at = "%s, step %s" % (where, key)
            order.setdefault(s["ep"], []).append(key)
            st = {int(f): num(v, at) for f, v in r["state_features"].items()}
            check(st == {j: float(s["obs"][j]) for j in range(D)}, "state", lambda: "%s: %s, the state was %s" % (at, st, s["obs"]))
            check(abs(num(r["reward"], at) - s["reward"]) <= 1e-5, "reward", lambda: "%s: %s, was %s" % (at, r["reward"], s["reward"]))
            check({a: num(b, at) for a, b in r["metrics"].items()} == {"reward": num(r["reward"], at)}, "metrics", lambda: "%s: %s" % (at, r["metrics"]))
            check(isinstance(r["ds"], str) and r["ds"], "ds", at)
            p = num(r["action_probability"], at)
            if kind == "discrete":
                a = r["action"]
                check(isinstance(a, str) and a == str(int(s["action"])), "action", lambda: "%s: %r, taken was %s" % (at, a, s["action"]))
                mask = s["mask"]
                allowed = [j for j in range(k) if mask is None or mask[j]]
                check(int(s["action"]) in allowed, "forbidden-action", lambda: "%s: %s of %s" % (at, s["action"], allowed))
                check(abs(p - 1.0 / len(allowed)) <= 1e-5, "probability", lambda: "%s: %s, %d actions were allowed" % (at, p, len(allowed)))
                pa, pm = list(r["possible_actions"]), list(r["possible_actions_mask"])
                check(len(pa) == len(pm) and len(set(pa)) == len(pa), "possible-actions", lambda: "%s: %s, mask %s" % (at, pa, pm))
                check(all(isinstance(x, str) and x in [str(j) for j in range(k)] for x in pa), "possible-actions", lambda: "%s: %s" % (at, pa))
                if pa or s["t"] != last[s["ep"]]:
                    check(a in pa and pm[pa.index(a)] == 1, "action-not-possible", lambda: "%s: %s not among %s %s" % (at, a, pa, pm))
                    if len(allowed) == k:  # then every action seen elsewhere is possible here
                        check(all(x in pa and pm[pa.index(x)] == 1 for x in df["action"]), "action-not-possible",
                              lambda: "%s: the table has actions %s, possible are only %s %s" % (at, sorted(set(df["action"])), pa, pm))
                self.p.state(k, len(allowed), len(pa))
            else:
                got = {int(f): num(v, at) for f, v in r["action"].items()}
                want = [float(x) for x in np.asarray(s["action"]).reshape(-1)]
                check(sorted(got) == list(range(k)) and all(abs(got[j] - want[j]) <= 1e-5 for j in range(k)), "action",
                      lambda: "%s: %s, taken was %s" % (at, got, want))
                check(all(-2.0 - j - 1e-5 <= want[j] <= 3.0 + j + 1e-5 for j in range(k)), "forbidden-action", lambda: "%s: %s" % (at, want))
                dens = [0.5 ** k, math.prod(1.0 / (5 + 2 * j) for j in range(k))]
                check(any(abs(p - q) <= 1e-3 * q for q in dens), "probability", lambda: "%s: %s, expected %s" % (at, p, dens[0]))

    def timeline(self, slot, table):
        import json

        from reagent.workflow.types import TableSpec

        spark = Spark()
        self.g.get_spark_session = lambda *a, **kw: spark
        self.g.call_spark_class = lambda session, class_name, args: spark.calls.append((session is spark, class_name, args))
        where = "timeline_operator"
        path = self.pkl(slot)
        df = self.tables.get(slot)
        try:
            self.g.timeline_operator(pkl_path=path, input_table_spec=TableSpec(table_name=table, table_sample=90.0))
        except Exception as e:
            check(df is None, "hand-over-failed", lambda: "%s: %s: %s" % (where, type(e).__name__, str(e)[:200]))
            check(not spark.calls, "torn-table-used", "%s: failed after the operator had been started" % where)
            return
        if df is None:
            if os.path.exists(path):  # it survived a death or an error of its collection
                df = self.read(path, where)
            else:
                raise Violation("failure-hidden", "%s: there is no table, but it reported success" % where)
        check(len(spark.frames) == 1 and len(spark.views) == 1 and len(spark.calls) == 1, "hand-over", "%s: %d frames, %d views, %d calls" % (
            where, len(spark.frames), len(spark.views), len(spark.calls)))
        check(spark.frames[0].to_dict("list") == df.to_dict("list"), "hand-over", "%s: the table was changed" % where)
        same, cls, args = spark.calls[0]
        a = json.loads(args)
        check(same and cls == "Timeline", "hand-over", lambda: "%s: class %s" % (where, cls))
        check(a["inputTableName"] == spark.views[0][0] and a["outputTableName"] == table and a["inputTableName"] != table, "table-names",
              lambda: "%s: view %s, arguments %s, asked for %s" % (where, spark.views[0][0], a, table))
        check(a["includePossibleActions"] == ("possible_actions" in df), "table-names", lambda: "%s: %s" % (where, a))
        check(a["addTerminalStateRow"] is True and set(a["rewardColumns"]) == {"reward", "metrics"} and a["startDs"] <= df["ds"][0] <= a["endDs"],
              "table-names", lambda: "%s: %s" % (where, a))
        self.p.hit("hand_overs")

    def publisher(self):
        from reagent.publishers.union import FileSystemPublisher, ModelPublisher__Union

        return ModelPublisher__Union(FileSystemPublisher=FileSystemPublisher(publishing_file=os.path.join(self.models, "published")))

    def publish(self, m, which):
        from reagent.workflow.types import RLTrainingOutput

        paths = {}
        for name, k in which.items():
            self.files += 1
            paths[name] = os.path.join(self.models, "model%d.pt" % self.files)
            with open(paths[name], "wb") as f:
                f.write(NETS[self.c["kind"], self.c["n"], k].blob)
        with sut("publish-failed", "publish"):
            self.publisher().value.publish(self.makers[m](), RLTrainingOutput(output_paths=paths), {}, 1, None)
        for name, k in which.items():
            self.published[m, name] = NETS[self.c["kind"], self.c["n"], k]
        self.p.event("published", m, sorted(which.items()))

    def rehearse(self, spec, n, limit):
        """the rewards of the coming episodes: they do not depend on the actions"""
        log = self.env({k: v for k, v in spec.items() if k != "fail_at"}, Quiet())
        env = gc.make_env()
        total = 0.0
        for _ in range(n):
            env.reset()
            t, done = 0, False
            while not done:
                _, r, done, _ = env.step(0)
                total += r
                done = done or limit is not None and t >= limit
                t += 1
        return total / n

    def evaluate(self, m, module, spec, n, max_steps, delta):
        from reagent.workflow.model_managers.union import ModelManager__Union

        where = "evaluate_gym of %s, %d episodes" % (module, n)
        spec = dict(spec, max_episode_steps=None)  # the scripted limit is only announced, not enforced
        bar = self.rehearse(spec, n, max_steps) - delta
        if not spec["int_reward"] and delta == 0.0:
            bar -= 1e-6
        log = self.env(spec, self.p)
        mgr = self.makers[m]()
        union = ModelManager__Union(**{type(mgr).__name__: mgr})
        g02.NOW["w"] = g02.World({"seed": self.c["seed"], "p_end": 1.0, "int_reward": False}, self.p)
        err = None
        try:
            self.g.evaluate_gym(env_name="DstScript-v0", model=union, publisher=self.publisher(), num_eval_episodes=n, passing_score_bar=bar,
                                module_name=module, max_steps=max_steps)
        except Violation:
            raise
        except Exception as e:
            err = e
        net = self.published.get((m, module))
        if net is None:
            check(err is not None and not log.steps, "unpublished-model-judged", lambda: "%s was never published, but was evaluated" % module)
            self.p.hit("unpublished")
            return
        eps = []
        for s in log.steps:
            if s["t"] == 0:
                eps.append([])
            eps[-1].append(s)
            if net.kind == "discrete":
                q = net.out(s["obs"])
                ok = [j for j in range(net.n) if s["mask"] is None or s["mask"][j]]
                best = max(float(q[j]) for j in ok)
                a = int(s["action"])
                check(a in ok and float(q[a]) >= best - 1e-4, "action-of-another-model",
                      lambda: "%s: action %d in state %s; values %s, allowed %s" % (where, a, s["obs"].tolist(), q.tolist(), ok))
            else:
                want = net.out(s["obs"])
                got = torch.as_tensor(np.asarray(s["action"]).reshape(-1))
                check(got.numel() == net.n and bool((got - want).abs().max() <= 1e-4), "action-of-another-model",
                      lambda: "%s: action %s, the published model gives %s" % (where, got.tolist(), want.tolist()))
        if spec.get("fail_at") and log.fail_at is None:
            check(isinstance(err, gc.EnvFault), "failure-hidden", lambda: "%s: the environment failed; outcome %r" % (where, err))
            self.p.hit("failed_visibly")
            return
        check(err is None or isinstance(err, AssertionError), "evaluation-failed", lambda: "%s: %s: %s" % (where, type(err).__name__, str(err)[:300]))
        check(len(eps) == n == log.resets, "episodes", lambda: "%s: %d played" % (where, len(eps)))
        for e in eps:
            check(all(not s["terminal"] for s in e[:-1]), "played-on", where)
            if max_steps is None:
                check(e[-1]["terminal"], "stopped-early", where)
            else:
                check(len(e) <= max_steps + 1 and (e[-1]["terminal"] or len(e) >= max_steps), "step-limit",
                      lambda: "%s: an episode of %d steps, limit %s" % (where, len(e), max_steps))
        mean = sum(sum(s["reward"] for s in e) for e in eps) / n
        if abs(mean - bar) > 1e-7 or spec["int_reward"]:
            if abs(mean - bar) > 1e-7 or mean == bar:
                check((err is None) == (mean >= bar), "wrong-verdict",
                      lambda: "%s: mean reward %s, bar %s: %s" % (where, mean, bar, "passed" if err is None else "failed"))
        self.p.hit("verdicts")
        self.p.hit("passed" if err is None else "not_passed")
        self.p.event("verdict", n, err is None)
        self.p.state("verdict", self.c["kind"], min(n, 3), max_steps is None, err is None, len(eps[0]))


SCENARIO = W03()
