"""G06: the shipped simulated environments follow their rules in every episode, whatever else runs in between."""
import copy
import math
import random
import warnings

from dst.core import Scenario, Violation, check, sut
from checks.g03 import L, freq_ok


class NetFault(RuntimeError):
    """the simulated world model failed"""


class World:
    pass


# ------------------------------------------------------------------ reference rules
MAZE = ["133233", "330303", "333333", "110303", "123331"]  # 0 wall, 1 way, 2 power, 3 food
MOVES = [(-1, 0), (0, 1), (1, 0), (0, -1)]  # up, right, down, left


class RefString:
    """reward for the last three characters, six characters an episode"""

    def __init__(self, w, env):
        self.w, self.env = w, env

    def reset(self, ob):
        self.acts = []
        self.done = False
        same(ob, [0, 0], "observation")

    def actions(self, rng):
        return rng.randrange(2)

    def illegal(self):
        return [2, -1, 7]

    def step(self, a, ob, r, done):
        self.acts.append(a)
        s = "".join("AB"[x] for x in self.acts[-3:])
        same(r, {"ABB": 5, "BBB": -5}.get(s, 0), "reward for " + s)
        same(ob, [1 - a, a], "observation")
        self.done = len(self.acts) == 6
        same(done, self.done, "end of the episode after %d steps" % len(self.acts))


class RefString1(RefString):
    def step(self, a, ob, r, done):
        self.acts.append(a)
        s = "".join("AB"[x] for x in self.acts)
        same(ob, [1 - a, a], "observation")
        if len(self.acts) == 3:
            same(done, True, "end of the episode after 3 steps")
        else:
            self.w.coin("string1 ends on " + "AB"[a], 0.5 if a == 0 else 0.1, done)
        self.done = bool(done)
        same(r, {"AAA": 5, "BA": 4}.get(s, 0) if done else 0, "reward for " + s)


class RefLin:
    A = [[-0.2, -0.2, 0.2], [0.4, 0.0, 0.4], [0.0, -0.2, 0.4]]
    B = [[0.4, 0.4], [0.4, 0.4], [0.0, 0.2]]
    Q = [[0.2, 0.0, 0.0], [0.0, 0.4, 0.1], [0.0, 0.1, 0.2]]
    R = [[0.2, -0.2], [-0.2, 0.4]]

    def __init__(self, w, env):
        self.w = w

    def reset(self, ob):
        self.x = [float(v) for v in ob]
        check(all(v in (-1.0, 0.0, 1.0) for v in self.x), "initial-state", lambda: str(self.x))
        for v in self.x:
            self.w.choice("lindyna start", 3, int(v) + 1)
        self.n, self.done = 0, False

    def actions(self, rng):
        import numpy as np

        return np.array([rng.choice([-9.0, -3.0, -1.0, 0.0, 0.5, 2.0, 30.0]) for _ in range(2)])

    def illegal(self):
        import numpy as np

        return [np.zeros(3), np.zeros(1)]

    def step(self, a, ob, r, done):
        u = [min(3.0, max(-3.0, float(v))) for v in a]
        x = self.x

        def mul(m, v):
            return [sum(p * q for p, q in zip(row, v)) for row in m]

        same(r, -(sum(p * q for p, q in zip(x, mul(self.Q, x))) + sum(p * q for p, q in zip(u, mul(self.R, u)))), "reward")
        self.x = [p + q for p, q in zip(mul(self.A, x), mul(self.B, u))]
        same(ob, self.x, "next state")
        self.n += 1
        self.done = self.n >= 4
        same(done, self.done, "end of the episode after %d steps" % self.n)


class RefMask:
    def __init__(self, w, env):
        self.w, self.env = w, env

    def look(self):
        m = [bool(x) for x in self.env.possible_actions_mask]
        check(len(m) == 4 and sum(m) == 1, "possible-actions", lambda: "mask %s" % m)
        self.legal = m.index(True)
        self.w.choice("mask", 4, self.legal)

    def reset(self, ob):
        self.n, self.done = 0, False
        same(ob, [1] + [0] * 19, "observation")
        self.look()

    def actions(self, rng):
        return self.legal if rng.random() < 0.5 else rng.randrange(4)

    def illegal(self):
        return []

    def step(self, a, ob, r, done):
        self.n += 1
        same(r, 10.0 if a == self.legal else 0.0, "reward")
        same(ob, [int(i == self.n) for i in range(20)], "observation")
        self.done = self.n >= 20
        same(done, self.done, "end of the episode after %d steps" % self.n)
        self.look()


class RefPocman:
    def __init__(self, w, env):
        self.w, self.env = w, env

    def cell(self, p):
        x, y = p
        return self.maze[x][y] if 0 <= x < 5 and 0 <= y < 6 else 0

    def go(self, p, a):
        q = (p[0] + MOVES[a][0], p[1] + MOVES[a][1])
        return q if self.cell(q) else p

    def ghosts(self):
        return [((g.pos.x, g.pos.y), int(g.direction)) for g in self.env.internal_state.ghosts]

    def reset(self, ob):
        self.maze = [[int(c) for c in row] for row in MAZE]
        self.pos, self.power, self.n, self.done = (0, 0), 0, 0, False
        gs = self.ghosts()
        check([p for p, _ in gs] == [(4, 4)] * 2, "ghosts-at-home", lambda: str(gs))
        for _, d in gs:
            self.w.choice("ghost direction", 4, d)
        self.gs = gs
        self.observe(ob)

    def actions(self, rng):
        if rng.random() < 0.3:
            return rng.randrange(4)
        # a player who walks to the nearest food and so sees the end of the maze
        seen, todo = {self.pos}, [(self.pos, None)]
        for p, first in todo:
            if first is not None and self.cell(p) in (2, 3):
                return first
            for a in range(4):
                q = self.go(p, a)
                if q not in seen:
                    seen.add(q)
                    todo.append((q, a if first is None else first))
        return rng.randrange(4)

    def illegal(self):
        return [4, -1]

    def step(self, a, ob, r, done):
        self.n += 1
        exp = -1
        self.pos = self.go(self.pos, a)
        self.power = max(0, self.power - 1)
        now = self.ghosts()
        hits = []
        moved = []
        for (g, d), (p, e) in zip(self.gs, now):
            if g == self.pos:
                hits.append(len(moved))
                moved.append((g, d, True))
                continue
            opts = {k: self.go(g, k) for k in range(4) if self.go(g, k) != g}
            dm = abs(g[0] - self.pos[0]) + abs(g[1] - self.pos[1])
            de = math.hypot(g[0] - self.pos[0], g[1] - self.pos[1])
            allowed = set()
            if de < 3:  # near: towards the agent, or away from it while it has power
                for dist in (lambda q: abs(q[0] - self.pos[0]) + abs(q[1] - self.pos[1]),
                             lambda q: math.hypot(q[0] - self.pos[0], q[1] - self.pos[1])):
                    best = (max if self.power else min)(dist(q) for q in opts.values())
                    allowed |= {k for k, q in opts.items() if abs(dist(q) - best) < 1e-9}
            if dm >= 3:  # far: anywhere, but back only when there is no other way
                back = (d + 2) % 4
                free = [k for k in opts if k != back] or list(opts)
                allowed |= set(free)
                if de >= 3 and p in opts.values():
                    self.w.choice("ghost wanders among %d" % len(free), len(free), sorted(free).index(e) if e in free else 0)
            moved.append((g, d, {(opts[k], k) for k in allowed}))
        # which ghosts touched the agent after moving
        alive = True
        for i, (g, d, how) in enumerate(moved):
            p, e = now[i]
            if how is True:
                hit, end = True, (g, d)
            else:
                can_hit = any(q == self.pos for q, _ in how)
                if p == (4, 4) and (p, e) not in how:  # sent home: it must have hit the agent
                    check(can_hit and self.power > 0, "ghost-jumped", lambda: "ghost from %s to %s, could go to %s" % (g, p, sorted(how)))
                    hit = True
                else:
                    check((p, e) in how or (p == (4, 4) and can_hit and self.power > 0), "ghost-move",
                          lambda: "ghost at %s heading %d went to %s heading %d, agent at %s, power %d, could go to %s"
                          % (g, d, p, e, self.pos, self.power, sorted(how)))
                    hit = p == self.pos
                end = (p, e)
            if hit and alive:
                if self.power > 0:
                    exp += 25
                    self.w.probe.hit("ghosts_caught")
                    check(p == (4, 4), "ghost-sent-home", lambda: "a ghost caught with power is at %s" % (p,))
                else:
                    exp -= 100
                    alive = False
                    check(p == end[0], "ghost-moved", "a ghost that caught the agent moved on")
        self.gs = now
        over = not alive
        if self.cell(self.pos) == 3:
            exp += 10
            self.maze[self.pos[0]][self.pos[1]] = 1
            if not any(3 in row for row in self.maze):
                over = True
                self.w.probe.hit("mazes_cleared")
        if self.cell(self.pos) == 2:
            exp += 10
            self.power = 15
            self.maze[self.pos[0]][self.pos[1]] = 1
        if self.n <= 199 or self.n > 200:
            same(done, over or self.n > 200, "end of the episode at step %d" % self.n)
        self.done = bool(done)
        same(r, exp, "reward at %s with power %d, ghosts %s" % (self.pos, self.power, now))
        self.observe(ob)

    def observe(self, ob):
        ax, ay = self.pos
        see = [-1] * 4
        hear = 0
        for (gx, gy), _ in self.gs:
            if (gx, gy) == (ax, ay):
                see = [1] * 4
            elif gy == ay and all(self.cell((x, ay)) for x in range(min(ax, gx) + 1, max(ax, gx))):
                see[0 if gx < ax else 2] = 1
            elif gx == ax and all(self.cell((ax, y)) for y in range(min(ay, gy) + 1, max(ay, gy))):
                see[1 if gy > ay else 3] = 1
            hear |= abs(gx - ax) + abs(gy - ay) <= 2
        wall = [int(self.go(self.pos, a) == self.pos) for a in range(4)]
        smell = int(any(self.cell((ax + i, ay + j)) == 3 for i in (-1, 0, 1) for j in (-1, 0, 1)))
        same(ob, see + wall + [int(hear), smell], "observation at %s with ghosts %s" % (self.pos, self.gs))


class RefToy:
    """a column of videos: each is watched with a probability that only depends on it and the one before"""

    def __init__(self, w, env):
        self.w, self.env = w, env
        self.k = env.unwrapped.slate_size

    def docs(self, ob):
        d = [[float(v) for v in ob["doc"][str(i)]] for i in range(self.k)]
        check(set(ob["doc"]) == {str(i) for i in range(self.k)} and all(len(x) == 3 and all(0 <= v <= 1 for v in x) for x in d),
              "documents", lambda: str(d))
        check(set(ob["augmentation"]) == set(ob["doc"]) and all(float(v["value"]) == 0.0 for v in ob["augmentation"].values()),
              "augmentation", lambda: str(ob["augmentation"]))
        return d

    def reset(self, ob):
        self.d = self.docs(ob)
        self.n, self.done = 0, False

    def actions(self, rng):
        return [rng.randrange(self.k) for _ in range(rng.choice([self.k, self.k, 1, 0]))]

    def illegal(self):
        return []

    def step(self, a, ob, r, done):
        slate = [self.d[i] for i in a]
        sums = [0.0]
        for x in slate:
            sums.append(sums[-1] + x[1])
        fit = [i for i, s in enumerate(sums) if abs(s - r) < 1e-5]
        check(fit, "reward", lambda: "reward %s, watching a prefix of the slate gives %s" % (r, sums))
        if len(fit) == 1 and slate:
            for i in range(fit[0] + 1):
                if i < len(slate):
                    self.w.coin("watched the first" if i == 0 else "watched on", slate[0][0] if i == 0 else 1 - slate[i - 1][2], i < fit[0])
        self.d = self.docs(ob)
        self.n += 1
        self.done = self.n >= self.steps
        same(done, self.done, "end of the episode after %d steps" % self.n)


def same(got, exp, what):
    import numpy as np

    g, e = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    check(g.shape == e.shape and bool(np.all(np.abs(g - e) <= 1e-9 + 1e-6 * np.abs(e))), what.split(" ")[0] + "-wrong",
          lambda: "%s: %s, the rules give %s" % (what, np.array(got).tolist(), np.array(exp).tolist()))


KINDS = {"string": RefString, "string1": RefString1, "lindyna": RefLin, "mask": RefMask, "pocman": RefPocman, "toyvm": RefToy}


class G06(Scenario):
    id = "G06"
    runs = {"quick": 1500, "thorough": 150000}
    rule = ("a case is one to three environments, possibly behind a state embedding, and an interleaved history of resets, steps, "
            "refused actions and world-model failures; non-trivial when at least one step was compared with the rules")
    components = {"real": ["StringGame, StringGameV1, PocMan, LinearDynamics, PossibleActionsMaskTester and ToyVM environments",
                           "StateEmbedEnvironment", "MemoryNetwork/MDNRNN", "ValueWrapper", "gym TimeLimit"],
                  "stub": ["the agent: drawn actions"]}
    assumptions = ["frequency bounds fail on a correct tree with probability below 1e-13 each",
                   "whether PocMan ghosts measure distance in steps or as the crow flies is left open, as is step 200 or 201 as its last"]

    def setup(self):
        warnings.simplefilter("ignore")
        import logging
        logging.disable(logging.CRITICAL)
        import reagent_compat  # noqa
        from checks import train_common
        train_common.stub_missing()
        import torch
        torch.set_num_threads(1)
        import reagent.training  # noqa
        import reagent.gym.envs  # noqa
        import reagent.gym.envs.toy_vm  # noqa
        import reagent.gym.envs.pomdp.state_embed_env  # noqa

    def plan(self, rng, index, tier):
        envs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice(["string", "string1", "lindyna", "mask", "pocman", "pocman", "toyvm"])
            e = {"kind": k, "embed": None}
            if k in ("string", "string1", "lindyna", "pocman") and rng.random() < 0.5:
                e["embed"] = {"n": rng.choice([1, 2, 3, 5, 50]), "hidden": rng.choice([2, 3]), "train": rng.random() < 0.5,
                              "layers": rng.choice([1, 1, 2])}
            if k == "toyvm":
                e.update(slate=rng.choice([1, 2, 5]), steps=rng.choice([1, 3, 10]), seed=rng.choice([None, 1, 2, 77]))
            envs.append(e)
        long = rng.random() < 0.06
        if long:
            envs = [rng.choice([{"kind": "pocman", "embed": None}, {"kind": "string1", "embed": None}, {"kind": "mask", "embed": None},
                                {"kind": "toyvm", "embed": None, "slate": 5, "steps": 100, "seed": 3}])]
        faulty = rng.random() < 0.5 and not long
        ops = [[i, "reset"] for i in range(len(envs))]
        burst = rng.random() < 0.3
        i = 0
        for _ in range((420 if envs[0]["kind"] == "pocman" else 1500) if long else rng.choice([8, 30, 80] if tier == "quick" else [30, 120, 400])):
            if not burst or rng.random() < 0.05:
                i = rng.randrange(len(envs))
            x = rng.random()
            if x < 0.03 and not long:
                ops.append([i, "reset"])
            elif x < 0.06:
                ops.append([i, "noise"])
            elif faulty and x < 0.12:
                ops.append([i, "illegal", rng.randrange(3)])
            elif faulty and x < 0.17 and envs[i]["embed"]:
                ops.append([i, "fail", rng.choice(["step", "step", "reset"])])
            elif faulty and x < 0.2:
                ops.append([i, "late"])
            else:
                ops.append([i, "step"])
        return {"envs": envs, "ops": ops, "mutate": rng.random() < 0.4}

    def shrink(self, case):
        if len(case["envs"]) > 1:
            for k in range(len(case["envs"])):
                yield dict(case, envs=case["envs"][:k] + case["envs"][k + 1:],
                           ops=[[o[0] - (o[0] > k)] + o[1:] for o in case["ops"] if o[0] != k])
        if case["mutate"]:
            yield dict(case, mutate=False)
        for k, e in enumerate(case["envs"]):
            if e["embed"]:
                c = copy.deepcopy(case)
                c["envs"][k]["embed"] = None
                c["ops"] = [o for o in c["ops"] if not (o[0] == k and o[1] == "fail")]
                yield c

    def nontrivial(self, case, probe):
        return probe.hits["steps"] > 0

    # ----------------------------------------------------------------- running
    def make(self, w, i, e):
        from reagent.gym.envs.dynamics.linear_dynamics import LinDynaEnv
        from reagent.gym.envs.functionality.possible_actions_mask_tester import PossibleActionsMaskTester
        from reagent.gym.envs.pomdp.pocman import PocManEnv
        from reagent.gym.envs.pomdp.state_embed_env import StateEmbedEnvironment
        from reagent.gym.envs.pomdp.string_game import StringGameEnv
        from reagent.gym.envs.pomdp.string_game_v1 import StringGameEnvV1
        from reagent.gym.envs.toy_vm import ToyVM
        from reagent.models.world_model import MemoryNetwork
        import torch

        n = World()
        n.twin = None
        k = e["kind"]
        if k == "toyvm":
            raw = ToyVM(slate_size=e["slate"], max_episode_steps=e["steps"], initial_seed=e["seed"])
            if e["seed"] is None:
                e = dict(e, seed=w.rng.randrange(1, 10 ** 6))
                raw.seed(e["seed"])
                n.twin = None
            else:  # the same seed and the same actions must give the same episodes
                n.twin = ToyVM(slate_size=e["slate"], max_episode_steps=e["steps"], initial_seed=e["seed"])
        else:
            raw = {"string": StringGameEnv, "string1": StringGameEnvV1, "lindyna": LinDynaEnv, "mask": PossibleActionsMaskTester,
                   "pocman": PocManEnv}[k]()
        n.raw, n.env, n.net, n.obs, n.acts, n.started, n.fail = raw, raw, None, [], [], False, None
        n.ref = KINDS[k](w, raw)
        n.kind = k
        n.ref.steps = e.get("steps")
        if e["embed"]:
            c = e["embed"]
            torch.manual_seed(w.case["seed"] % 10 ** 6 + i)
            n.dim, n.adim = raw.observation_space.shape[0], 2 if k != "pocman" else 4
            n.n = c["n"]
            n.net = MemoryNetwork(state_dim=n.dim, action_dim=n.adim, num_hiddens=c["hidden"], num_hidden_layers=c["layers"], num_gaussians=2)
            if c["layers"] > 1:
                n.net.mdnrnn.rnn.dropout = 0.5  # so that it matters in which mode it is asked
            n.net.train(c["train"])
            n.mode = c["train"]
            n.ref_net = copy.deepcopy(n.net).eval()
            n.env = StateEmbedEnvironment(raw, n.net, c["n"])
            check(n.env.observation_space.shape == (n.dim + c["hidden"],), "embedded-space", lambda: str(n.env.observation_space))

            def hook(mod, args):
                if n.fail:
                    n.fail = None
                    w.probe.fault("world_model_failure")
                    raise NetFault("simulated")

            n.net.register_forward_pre_hook(hook)
        return n

    def embedded(self, w, n, ob):
        """split the embedded observation and check the embedding of the past"""
        import numpy as np
        import torch
        import reagent.types as rlt

        if n.net is None:
            return ob
        h = len(ob) - n.dim
        S, A = n.obs[-1 - n.n:-1], n.acts[-n.n:]
        if not A:
            S, A = [np.zeros(n.dim)], [np.zeros(n.adim)]
        with torch.no_grad():
            out = n.ref_net(rlt.FeatureData(torch.tensor(np.array(S), dtype=torch.float).unsqueeze(1)),
                            rlt.FeatureData(torch.tensor(np.array(A), dtype=torch.float).unsqueeze(1)))
        exp = out.all_steps_lstm_hidden[-1, 0].numpy()
        check(bool(np.all(np.abs(exp - ob[:h]) < 1e-5)), "embedding",
              lambda: "embedding %s, the last %d steps of the episode give %s" % (ob[:h].tolist(), len(A), exp.tolist()))
        w.probe.hit("embeddings")
        return ob[h:]

    def after(self, n):
        if n.net is not None:
            check(n.net.training == n.mode and n.net.mdnrnn.training == n.mode, "mode-changed",
                  "the environment left the world model in another mode than it found it")

    def run(self, case, probe):
        import numpy as np
        import torch

        w = World()
        w.case, w.probe, w.rng = case, probe, random.Random("g06-%s" % case["seed"])
        w.coins, w.choices = {}, {}
        w.coin = lambda what, p, hit: w.coins.setdefault(what, []).append((p, int(bool(hit))))
        w.choice = lambda what, n, k: w.choices.setdefault((what, n), []).append(k)
        with sut("environment-not-built"):
            nodes = [self.make(w, i, e) for i, e in enumerate(case["envs"])]
        np.random.seed(case["seed"] % 2 ** 31)  # some of the environments reseed when they are made
        torch.manual_seed(case["seed"])
        random.seed(case["seed"])

        def onehot(n, a):
            if n.kind == "lindyna":
                return np.array(a, dtype=float)
            return np.eye(n.adim)[a]

        def reset(n, i):
            with sut("reset-failed"):
                ob = n.env.reset()
            if n.twin is not None:
                self.same_as_twin(n, (n.twin.reset(), 0, False), (ob, 0, False))
            self.got(case, w, n, ob, True)
            probe.hit("episodes")

        for step, op in enumerate(case["ops"]):
            n = nodes[op[0]]
            what = op[1]
            if what == "noise":
                np.random.rand(), torch.rand(1)
                continue
            if what == "reset" or not n.started or (n.ref.done and what in ("step", "illegal", "fail")):
                if what == "fail" and op[2] == "reset" and n.started:
                    n.fail = True
                    try:
                        n.env.reset()
                        raise Violation("failure-swallowed", "the world model failed and reset returned")
                    except NetFault:
                        n.started = False
                    self.after(n)
                    continue
                reset(n, op[0])
                continue
            if what == "late":
                if not n.ref.done or n.kind in ("lindyna", "mask", "toyvm"):
                    continue
                act, refuse = n.ref.actions(w.rng), True
            elif what == "illegal":
                bad = n.ref.illegal()
                if not bad:
                    continue
                act, refuse = bad[op[2] % len(bad)], True
            else:
                act, refuse = n.ref.actions(w.rng), False
            if refuse:
                try:
                    n.env.step(act)
                except Exception as e:
                    probe.fault("refused_step")
                    probe.event("refused", op[0], type(e).__name__)
                else:
                    raise Violation("not-refused", "%s accepted action %s" % (n.kind, act))
                self.after(n)
                continue
            n.fail = what == "fail" and n.net is not None
            failing = n.fail
            given = act.copy() if isinstance(act, np.ndarray) else (list(act) if isinstance(act, list) else act)
            try:
                ob, r, done, info = n.env.step(given)
            except NetFault:
                # the step happened, its observation got lost; the episode is abandoned
                n.started = False
                self.after(n)
                probe.event("failed", op[0])
                continue
            except Violation:
                raise
            except Exception as e:
                raise Violation("step-failed", "%s: %s: %s" % (n.kind, type(e).__name__, str(e)[:200]))
            check(not failing, "failure-swallowed", "the world model failed and step returned")
            if n.net is not None:
                n.acts.append(onehot(n, act))
            if case["mutate"] and isinstance(given, np.ndarray):
                given += 100.0  # the caller goes on using its array
            if n.twin is not None:
                self.same_as_twin(n, n.twin.step(given), (ob, r, done))
            self.got(case, w, n, ob, False, act, r, done)
            self.after(n)
            probe.hit("steps")
            probe.hit("steps_" + n.kind)
            probe.state(n.kind, n.net is not None, bool(done), round(float(r)), len(nodes))
            probe.event("step", op[0], round(float(r), 6), bool(done))
        for what, pairs in w.coins.items():
            m, exp, hit = len(pairs), sum(p for p, _ in pairs), sum(x for _, x in pairs)
            v = sum(p * (1 - p) for p, _ in pairs)
            check(abs(hit - exp) <= math.sqrt(2 * v * L) + 2 * L / 3 + 1, "frequency", lambda: "%s: %d of %d, expected %.1f" % (what, hit, m, exp))
        for (what, k), seen in w.choices.items():
            for v in range(k):
                check(freq_ok(seen.count(v), len(seen), 1 / k), "frequency", lambda: "%s: %d is drawn %d times in %d" % (what, v, seen.count(v), len(seen)))

    @staticmethod
    def same_as_twin(n, a, b):
        check(all(list(a[0]["doc"][k]) == list(v) for k, v in b[0]["doc"].items()) and a[1] == b[1] and a[2] == b[2],
              "seed-does-not-decide", lambda: "equal seeds and actions gave %s and %s" % (a[:3], b[:3]))

    def got(self, case, w, n, ob, first, act=None, r=None, done=None):
        import numpy as np

        if first:
            n.obs, n.acts, n.started = [], [], True
        if n.net is not None:
            n.obs.append(np.array(ob[len(ob) - n.dim:], dtype=float))
        raw = self.embedded(w, n, ob)
        if first:
            n.ref.reset(raw)
        else:
            n.ref.step(act, raw, r, done)
        if case["mutate"] and isinstance(ob, np.ndarray):
            ob += 17.0  # the caller works on what it was given


SCENARIO = G06()
