"""G02: evaluating n episodes in parallel gives every episode's true return, in order."""
import copy
import pickle

import numpy as np

from dst.core import Scenario, Violation, check
from checks import gym_common as g

NOW = {}  # the run being simulated


class Record:
    """called by the agent at the end of an episode, in whichever simulated process that is"""

    def __call__(self, trajectory):
        w = NOW["w"]
        w.done.append((int(trajectory.mdp_id[0]), [float(r) for r in trajectory.reward]))


class ScriptedWorld:
    """an environment whose episode is a function of how many episodes this copy has run"""

    def __init__(self, salt):
        self.salt = salt
        self.possible_actions_mask = None
        self.max_steps = None
        self.k = 0
        self.t = 0

    def reset(self):
        NOW["w"].fault_point("reset")
        self.k += 1
        self.t = 0
        return np.zeros(1, dtype=np.float32)

    def step(self, action):
        w = NOW["w"]
        w.fault_point("step")
        self.t += 1
        r = w.rng.randrange(-400, 401) / 8.0
        w.steps.append(r)
        end = w.rng.random() < w.case["p_end"]
        return np.zeros(1, dtype=np.float32), (int(r) if w.case["int_reward"] and r == int(r) else r), end, {}


class EnvFault(RuntimeError):
    pass


class SimPool:
    """multiprocessing.Pool run by the simulator: every chunk is pickled on its own, workers take
    turns in a drawn order, results come back by value"""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, *a, **kw):
        w = self.w = NOW["w"]
        check(processes is None or processes >= 1, "pool", "pool of %r processes" % (processes,))
        self.n = processes or 8
        w.pools.append(self.n)
        w.probe.event("pool", self.n)
        self.closed = False
        if initializer:
            for _ in range(self.n):
                pickle.loads(pickle.dumps(initializer))(*pickle.loads(pickle.dumps(initargs)))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def run(self, func, items, chunksize, star, ordered=True):
        w = self.w
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), max(1, chunksize))]
        w.fault_point("dispatch")
        blobs = [pickle.dumps((func, c)) for c in chunks]
        out = [None] * len(chunks)
        todo = list(range(len(chunks)))
        queues = {}  # worker -> [chunk, fn, args, results]
        error, finished = None, []
        while todo or queues:
            free = [k for k in range(self.n) if k not in queues]
            who = w.rng.randrange(self.n)
            if who not in queues:
                if not todo:
                    who = w.rng.choice(sorted(queues))
                else:
                    c = todo.pop(0)  # the task queue is first in, first out
                    f, args = pickle.loads(blobs[c])
                    queues[who] = [c, f, list(args), []]
                    continue  # others may overtake
            c, f, args, res = queues[who]
            x = args.pop(0)
            w.probe.event("worker", who, c, len(res))
            try:
                res.append(f(*x) if star else f(x))
            except Exception as e:
                # the chunk fails, the others still run
                error = error or e
                del queues[who]
                finished.append(c)
                continue
            if not args:
                w.fault_point("result")
                out[c] = pickle.loads(pickle.dumps(res))
                del queues[who]
                finished.append(c)
        w.probe.hit("chunks", len(chunks))
        if finished != sorted(finished):
            w.probe.hit("chunks_finished_out_of_order")
        if error is not None:
            raise error
        return [r for c in (range(len(chunks)) if ordered else finished) for r in out[c]]

    def map(self, func, iterable, chunksize=None):
        return self.run(func, iterable, chunksize, False)

    def starmap(self, func, iterable, chunksize=None):
        return self.run(func, iterable, chunksize, True)

    def imap(self, func, iterable, chunksize=1):
        return iter(self.run(func, iterable, chunksize, False))

    def imap_unordered(self, func, iterable, chunksize=1):
        return iter(self.run(func, iterable, chunksize, False, ordered=False))

    class Res:
        def __init__(self, f):
            try:
                self.v, self.e = f(), None
            except Exception as e:
                self.e = e

        def get(self, timeout=None):
            if self.e:
                raise self.e
            return self.v

        def wait(self, timeout=None):
            pass

        def ready(self):
            return True

        def successful(self):
            return self.e is None

    def map_async(self, func, iterable, chunksize=None, *a):
        return SimPool.Res(lambda: self.run(func, iterable, chunksize, False))

    def starmap_async(self, func, iterable, chunksize=None, *a):
        return SimPool.Res(lambda: self.run(func, iterable, chunksize, True))

    def apply(self, func, args=(), kwds={}):
        return self.run(lambda_call, [(func, args, kwds)], 1, True)[0]

    def apply_async(self, func, args=(), kwds={}, *a):
        return SimPool.Res(lambda: self.apply(func, args, kwds))


def lambda_call(func, args, kwds):
    return func(*args, **kwds)


class World:
    def __init__(self, case, probe):
        import random

        self.case, self.probe = case, probe
        self.rng = random.Random(case["seed"])
        self.done, self.steps, self.pools = [], [], []
        self.count = 0
        self.armed = None

    def fault_point(self, where):
        if self.armed and self.armed[0] == where:
            self.armed[1] -= 1
            if self.armed[1] < 0:
                kind, self.armed = self.armed, None
                self.probe.fault({"reset": "environment_error", "step": "environment_error",
                                  "dispatch": "serialization_refused", "result": "result_not_serializable"}[where])
                self.probe.event("fault", where)
                if where == "result":
                    from multiprocessing.pool import MaybeEncodingError

                    raise MaybeEncodingError(RuntimeError("simulated"), None)
                raise (EnvFault if where in ("reset", "step") else pickle.PicklingError)("simulated")


class G02(Scenario):
    id = "G02"
    runs = {"quick": 2500, "thorough": 100000}
    rule = ("a case is an environment (episode lengths and rewards), episode and process counts, discount factors, a worker "
            "schedule and failures; non-trivial when more than one episode ran")
    components = {"real": ["evaluate_for_n_episodes", "run_episode", "Agent", "Trajectory", "multiprocess_utils (cloudpickle)"],
                  "stub": ["process pool: simulated workers, real pickling", "environment and policy: scripted"]}
    assumptions = ["workers share nothing with the caller but what is pickled"]

    def setup(self):
        # cloudpickle 1.2 cannot pickle functions on this Python; joblib carries a newer one
        import sys
        import joblib.externals.cloudpickle as cp

        sys.modules["cloudpickle"] = cp
        g.setup()
        import multiprocessing
        import multiprocessing.context
        import torch.multiprocessing as tmp

        tmp.Pool = SimPool
        multiprocessing.Pool = SimPool
        multiprocessing.context.BaseContext.Pool = lambda self, *a, **kw: SimPool(*a, **kw)

    def plan(self, rng, index, tier):
        n = rng.choice([1, 2, 3, 5, 9, 17, 33])
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.35:
                where = rng.choice(["dispatch", "result", "step", "reset"])
                ops.append(["fault", where, rng.randrange(0, 6) if where != "dispatch" else 0])
            ops.append(["eval", n if rng.random() < 0.7 else rng.randrange(1, 12), rng.choice([1, 1, 2, 3, 4, 4, 8])])
        return {"p_end": rng.choice([1.0, 0.5, 0.2, 0.05]), "int_reward": rng.random() < 0.3,
                "gammas": [rng.choice([1.0, 0.99, 0.9, 0.5, 0.0]) for _ in range(rng.choice([1, 1, 2, 3]))],
                "max_steps": rng.choice([None, None, 1, 4, 20]), "ops": ops}

    def shrink(self, case):
        for k, v in (("int_reward", False), ("max_steps", None), ("p_end", 1.0)):
            if case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        if len(case["gammas"]) > 1:
            for i in range(len(case["gammas"])):
                c = copy.deepcopy(case)
                del c["gammas"][i]
                yield c
        for i, op in enumerate(case["ops"]):
            for j in (1, 2):
                if op[0] == "eval" and op[j] > 1:
                    c = copy.deepcopy(case)
                    c["ops"][i][j] = op[j] - 1
                    yield c

    def nontrivial(self, case, probe):
        return probe.hits["episodes"] > 1

    def run(self, case, probe):
        from multiprocessing.pool import MaybeEncodingError
        from reagent.gym.agents.agent import Agent
        from reagent.gym.runners.gymrunner import evaluate_for_n_episodes

        w = NOW["w"] = World(case, probe)
        env = ScriptedWorld(1)
        agent = Agent(policy=FixedPolicy(), post_episode_callback=Record(), action_extractor=first)
        gammas = list(case["gammas"])
        for op in case["ops"]:
            if op[0] == "fault":
                w.armed = [op[1], op[2]]
                continue
            _, n, procs = op
            w.done, w.steps, w.pools = [], [], []
            before = probe.faults["environment_error"]
            before2 = probe.faults["serialization_refused"] + probe.faults["result_not_serializable"]
            try:
                a = evaluate_for_n_episodes(n=n, env=env, agent=agent, max_steps=case["max_steps"], gammas=gammas,
                                            num_processes=procs)
            except EnvFault:
                w.armed = None
                probe.hit("failed_visibly")
                continue
            except MaybeEncodingError:
                w.armed = None
                check(probe.faults["result_not_serializable"], "evaluation-failed", "MaybeEncodingError without a cause")
                probe.hit("failed_visibly")
                continue
            except Violation:
                raise
            except Exception as e:
                raise Violation("evaluation-failed", "n=%d processes=%d: %s: %s" % (n, procs, type(e).__name__, str(e)[:300]))
            w.armed = None
            check(probe.faults["environment_error"] == before or any(d[0] == n - 1 for d in w.done), "error-hidden",
                  "an episode failed but evaluation reported success")
            check(all(p <= max(1, min(n, procs)) for p in w.pools), "pool", lambda: "%s processes for n=%d num_processes=%d" % (w.pools, n, procs))
            check(isinstance(a, np.ndarray) and a.shape == (n, len(gammas)), "shape", lambda: "result shape %s for n=%d gammas=%d" % (np.shape(a), n, len(gammas)))
            last = {}
            for mdp, rew in w.done:
                last[mdp] = rew
            check(sorted(last) == list(range(n)), "episodes", lambda: "episodes run: %s of %d" % (sorted(last), n))
            if probe.faults["serialization_refused"] + probe.faults["result_not_serializable"] == before2:
                check(len(w.done) == n, "episodes", lambda: "%d episodes run for n=%d" % (len(w.done), n))
            for i in range(n):
                for j, gam in enumerate(gammas):
                    exp = sum(r * gam ** t for t, r in enumerate(last[i]))
                    check(abs(a[i, j] - exp) <= 1e-9 * (1 + abs(exp)), "wrong-return",
                          lambda: "episode %d discount %s: reported %s, actual %s" % (i, gam, a[i, j], exp))
                ms = case["max_steps"]
                check(ms is None or len(last[i]) <= ms + 1, "step-limit", lambda: "episode of %d steps, limit %s" % (len(last[i]), ms))
            probe.hit("episodes", n)
            probe.state(n, procs, len(gammas), [len(last[i]) for i in range(n)][:6])
            if procs > 1 and n > 1:
                probe.hit("parallel_evaluations" if w.pools else "serial_evaluations")


class FixedPolicy:
    def act(self, obs, mask=None):
        import reagent.types as rlt
        import torch

        return rlt.ActorOutput(action=torch.tensor([[1.0]]), log_prob=torch.tensor([0.0]))


def first(out):
    return 0


SCENARIO = G02()
