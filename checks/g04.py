"""G04: what online sessions hand to policy gradient, world model, parametric, slate and ranking trainers."""
import contextlib
import copy
import io
import math
import random

import numpy as np

from dst.core import Scenario, Violation, check, sut
from checks import gym_common as g
from checks import rb_common as rb

SCRIPT = ("pg_discrete", "pg_box", "memory_discrete", "memory_box", "pdqn")
KINDS = SCRIPT + ("pg_slate", "slateq", "doc", "arms")


def close(a, b, tol=1e-4):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol))


def flat(x):
    return np.asarray(x, dtype=np.float64).reshape(-1)


class Run:
    def __init__(self, case, probe):
        self.case, self.probe = case, probe
        self.kind = case["kind"]
        self.steps = []  # every completed environment step
        self.acts = []
        self.ep = -1
        self.batches = 0
        self.rows = None
        self.env = self.make_env()
        self.spy_env()
        self.policy = self.make_policy()

    # ------------------------------------------------------------- environment
    def make_env(self):
        k, c = self.kind, self.case
        if k in SCRIPT:
            return g.new_env(c["env"], self.probe)[0]
        g.CURRENT.clear()
        if k in ("slateq", "pg_slate"):
            from reagent.gym.envs.recsim import RecSim

            return RecSim(num_candidates=c["cand"], slate_size=c["slate"], resample_documents=c["resample"],
                          single_selection=c["single"], initial_seed=c["seed"] % 100000)
        if k == "doc":
            from reagent.gym.envs.oracle_pvm import OraclePVM

            return OraclePVM(slate_size=c["cand"], num_candidates=c["cand"], initial_seed=c["seed"] % 100000)
        from reagent.gym.envs.changing_arms import ChangingArms

        return ChangingArms()

    def spy_env(self):
        env, real_reset, real_step = self.env, self.env.reset, self.env.step
        run = self
        script = self.kind in SCRIPT

        def reset(*a, **k):
            obs = real_reset(*a, **k)
            run.ep += 1
            run.t = 0
            run.cur = copy.deepcopy(obs)
            run.probe.event("reset", run.ep)
            return obs

        def step(action):
            out = real_step(action)
            obs, reward, term = out[0], out[1], out[2]
            if run.kind == "slateq" and run.case.get("bounce") and len(run.steps) % run.case["bounce"] == 0:
                # a user who clicks and leaves at once
                for r in obs["response"]:
                    r["watch_time"] = r["watch_time"] * 0
                run.probe.hit("clicks_without_watching")
            run.steps.append({"obs": run.cur, "action": np.array(action), "reward": float(reward), "end": bool(term),
                              "next": copy.deepcopy(obs), "ep": run.ep, "t": run.t, "i": len(run.steps)})
            run.t += 1
            run.cur = copy.deepcopy(obs)
            if not script:
                run.probe.event("step", np.array(action).tolist(), round(float(reward), 6), bool(term))
            return out

        object.__setattr__(env, "reset", reset)
        object.__setattr__(env, "step", step)

    def make_policy(self):
        from reagent.gym.policies.random_policies import make_random_policy_for_env

        pol = make_random_policy_for_env(self.env)
        run = self

        class Spy:
            def act(self, obs, mask=None):
                out = pol.act(obs, mask)
                if run.case["given_log_prob"]:
                    # a policy whose probability is told apart step by step
                    import torch

                    out.log_prob = torch.full_like(out.log_prob, -0.125 * (len(run.acts) % 31) - 0.01)
                run.acts.append({"raw": out.action.detach().numpy().copy().reshape(-1),
                                 "log_prob": float(out.log_prob.reshape(-1)[0])})
                return out

        return Spy()

    def agent(self, **kw):
        from reagent.gym.agents.agent import Agent

        return Agent.create_for_env(self.env, policy=self.policy, **kw)

    def trainer(self):
        import reagent.types as rlt

        run = self
        kind = {"pg": rlt.PolicyGradientInput, "memory": rlt.MemoryNetworkInput, "pdqn": rlt.ParametricDqnInput,
                "slateq": rlt.SlateQInput, "doc": rlt.PolicyNetworkInput, "arms": rlt.DiscreteDqnInput}[
                    self.kind.split("_")[0]]

        class T:
            def train(self, training_batch):
                run.trained(training_batch)

        T.train.__annotations__["training_batch"] = kind
        return T()

    # ------------------------------------------------------------- replay buffer
    def make_buffer(self):
        from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

        c = self.case
        kw = {"return_everything_as_stack": True} if self.kind.startswith("memory") else {}
        with sut("construct", "constructing the buffer"):
            buf = ReplayBuffer(stack_size=c["S"], replay_capacity=c["C"], batch_size=1, update_horizon=c["n"],
                               gamma=c["gamma"], **kw)
        self.model = rb.RBModel(c["C"], c["S"], c["n"], c["gamma"])
        real_add, real_sample = buf.add, buf.sample_transition_batch
        run = self

        def add(*a, **k):
            real_add(*a, **k)
            st = run.steps[-1]
            check("stored" not in st, "stored-twice", "an environment step was stored twice")
            st["stored"] = True
            st["act"] = run.acts[-1]
            st["terminal"] = bool(k["terminal"])
            st["observation"] = np.asarray(k["observation"])
            run.model.add(st)

        def sample(*a, **k):
            b = real_sample(*a, **k)
            idx = [int(i) for i in b.indices.reshape(-1).tolist()]
            run.rows = []
            for i in idx:
                slot = run.model.slot_of(i)
                check(run.model.eligible(slot), "ineligible", lambda: "index %d holds no complete transition" % i)
                run.rows.append(run.model.slots[slot])
            return b

        buf.add, buf.sample_transition_batch = add, sample
        return buf

    # ------------------------------------------------------------- verdicts
    def trained(self, tb):
        self.batches += 1
        self.probe.event("train", self.kind)
        self.probe.hit("batches_%s" % self.kind)
        getattr(self, "judge_" + self.kind.split("_")[0])(tb)

    def eq(self, got, want, f, what):
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        check(close(got, want), f, lambda: "%s: %s is %s (shape %s), expected %s (shape %s)" % (
            what, f, got.reshape(-1)[:12].tolist(), got.shape, want.reshape(-1)[:12].tolist(), want.shape))

    def one_hot(self, a):
        return np.eye(self.n_actions())[int(np.asarray(a).reshape(-1)[0])]

    def n_actions(self):
        return self.env.action_space.n

    def window(self, ep, pos):
        """(n-step return, ended, next step or None)"""
        ret = 0.0
        for j in range(self.model.n):
            if pos + j >= len(ep):
                raise Violation("ineligible", "a window without its end was sampled")
            ret += self.model.gamma ** j * ep[pos + j]["reward"]
            if ep[pos + j]["terminal"]:
                return ret, True, None
        return ret, False, ep[pos + self.model.n]

    # policy gradient: one finished episode
    def judge_pg(self, tb):
        st = [s for s in self.steps if s["ep"] == self.ep]
        T = len(st)
        what = "episode %d of %d steps" % (self.ep, T)
        acts = self.acts[-T:]
        rew = np.asarray(tb.reward, dtype=np.float64)
        self.eq(rew, [s["reward"] for s in st], "reward", what)
        self.eq(tb.log_prob, [a["log_prob"] for a in acts], "log-prob", what)
        if self.kind == "pg_discrete":
            self.eq(tb.action, [self.one_hot(s["action"]) for s in st], "action", what)
        else:
            got = np.asarray(tb.action, dtype=np.float64)
            want = np.stack([s["action"].reshape(-1) for s in st]).astype(np.float64)
            check(got.size == want.size and got.shape[0] == T and close(got.reshape(T, -1), want), "action",
                  lambda: "%s: actions are %s (shape %s), executed were %s" % (
                      what, flat(got)[:8].tolist(), got.shape, flat(want)[:8].tolist()))
        if self.kind == "pg_slate":
            self.eq(tb.state.float_features, [flat(s["obs"]["user"]) for s in st], "user", what)
            docs = [[flat(d) for d in s["obs"]["doc"].values()] for s in st]
            self.eq(tb.state.candidate_docs.float_features, docs, "documents", what)
        else:
            self.eq(tb.state.float_features, [s["obs"] for s in st], "state", what)
        if T == 1:
            self.probe.hit("one_step_episodes")
        self.probe.hit("rows_%s" % self.kind, T)

    def judge_memory(self, tb):
        S, B, d = self.case["S"], len(self.rows), self.case["env"]["obs_dim"]
        na = self.n_actions() if self.kind == "memory_discrete" else self.case["env"]["actions"][1]
        for name, t, shape in (("state", tb.state.float_features, (S, B, d)), ("action", tb.action, (S, B, na)),
                               ("next-state", tb.next_state.float_features, (S, B, d)), ("reward", tb.reward, (S, B)),
                               ("not-terminal", tb.not_terminal, (S, B))):
            check(tuple(t.shape) == shape, "shape", lambda: "%s has shape %s, expected %s" % (name, tuple(t.shape), shape))
        for r, (ep, pos) in enumerate(self.rows):
            for s in range(S):
                p = pos - (S - 1 - s)
                what = "row %d: step %d of the window ending at step %d" % (r, s, pos)
                if p < 0:  # before the episode began
                    self.eq(tb.state.float_features[s][r], np.zeros(d), "state", what)
                    self.eq(tb.reward[s][r], 0.0, "reward", what)
                    self.eq(tb.not_terminal[s][r], 1.0, "not-terminal", what)
                    self.probe.hit("padded_window_steps")
                    continue
                st = ep[p]
                self.eq(tb.state.float_features[s][r], st["obs"], "state", what)
                act = self.one_hot(st["action"]) if self.kind == "memory_discrete" else st["action"].reshape(-1)
                self.eq(tb.action[s][r], act, "action", what)
                self.eq(tb.reward[s][r], st["reward"], "reward", what)
                self.eq(tb.not_terminal[s][r], 0.0 if st["terminal"] else 1.0, "not-terminal", what)
                if not st["terminal"]:
                    self.eq(tb.next_state.float_features[s][r], st["next"], "next-state", what)
        self.probe.hit("rows_%s" % self.kind, B)

    def judge_pdqn(self, tb):
        A, B = self.n_actions(), len(self.rows)
        self.eq(tb.possible_actions.float_features, np.tile(np.eye(A), (B, 1)), "possible-actions", "batch")
        self.eq(tb.possible_next_actions.float_features, np.tile(np.eye(A), (B, 1)), "possible-next-actions", "batch")
        self.eq(tb.possible_actions_mask, np.ones((B, A)), "possible-actions-mask", "batch")
        self.eq(tb.possible_next_actions_mask, np.ones((B, A)), "possible-next-actions-mask", "batch")
        self.common(tb, lambda x: x.float_features)

    def common(self, tb, act):
        """state, one-hot action, reward, end, next state and action, probability"""
        A = self.n_actions()
        for r, (ep, pos) in enumerate(self.rows):
            st = ep[pos]
            ret, ended, nxt = self.window(ep, pos)
            what = "row %d (step %d of episode %d)" % (r, pos, st["ep"])
            if self.kind != "arms":
                self.eq(tb.state.float_features[r], st["obs"], "state", what)
                if nxt is not None:
                    self.eq(tb.next_state.float_features[r], nxt["obs"], "next-state", what)
            self.eq(act(tb.action)[r], self.one_hot(st["action"]), "action", what)
            self.eq(act(tb.next_action)[r], np.zeros(A) if ended else self.one_hot(nxt["action"]), "next-action", what)
            self.eq(flat(tb.reward[r]), [ret], "reward", what)
            self.eq(flat(tb.not_terminal[r]), [0.0 if ended else 1.0], "not-terminal", what)
            self.eq(flat(tb.extras.action_probability[r]), [math.exp(st["act"]["log_prob"])], "action-probability", what)
        self.probe.hit("rows_%s" % self.kind, len(self.rows))

    def judge_arms(self, tb):
        self.common(tb, lambda x: x)
        for r, (ep, pos) in enumerate(self.rows):
            _, _, nxt = self.window(ep, pos)
            for name, fd, st in (("state", tb.state, ep[pos]), ("next-state", tb.next_state, nxt)):
                if st is None:
                    continue
                what = "row %d (step %d of episode %d)" % (r, pos, st["ep"])
                obs = st["obs"]
                self.eq(fd.float_features[r], obs[0], name, what)
                off, ids = (x.tolist() for x in fd.id_list_features["legal"])
                off = off + [len(ids)]
                want = [i for i, v in enumerate(obs[1]) if v]
                check(len(off) == len(self.rows) + 1 and ids[off[r]:off[r + 1]] == want, name + "-ids",
                      lambda: "%s: the legal arms are %s, the trainer is told %s (offsets %s)" % (
                          what, want, ids[off[r]:off[r + 1]], off))
                if not want:
                    self.probe.hit("rows_without_ids")
                off, keys, vals = (x.tolist() for x in fd.id_score_list_features["mu_changes"])
                off = off + [len(keys)]
                check(keys[off[r]:off[r + 1]] == list(range(len(obs[2]))) and close(vals[off[r]:off[r + 1]], obs[2]),
                      name + "-scores", lambda: "%s: scores %s, expected %s" % (what, vals[off[r]:off[r + 1]], obs[2]))

    def judge_doc(self, tb):
        for r, (ep, pos) in enumerate(self.rows):
            st = ep[pos]
            what = "row %d (step %d)" % (r, st["i"])
            want = np.concatenate([flat(st["obs"]["user"])] + [flat(d) for d in st["obs"]["doc"].values()])
            self.eq(tb.state.float_features[r], want, "state", what)
            check(np.allclose(flat(tb.action.float_features[r]), st["act"]["raw"], atol=1e-3), "action",
                  lambda: "%s: action %s, the policy chose %s" % (
                      what, flat(tb.action.float_features[r]).tolist(), st["act"]["raw"]))
            self.eq(flat(tb.reward[r]), [st["reward"]], "reward", what)
            self.eq(flat(tb.not_terminal[r]), [0.0 if st["terminal"] else 1.0], "not-terminal", what)
        self.probe.hit("rows_doc", len(self.rows))

    def responses(self, obs, key):
        r = obs["response"]
        if r is None:
            return np.zeros(self.case["slate"])
        return np.array([float(np.asarray(x[key]).reshape(-1)[0]) for x in r])

    def judge_slateq(self, tb):
        n, slate = self.case["cand"], self.case["slate"]
        B = len(self.rows)
        self.eq(tb.state.candidate_docs.mask[:, :n], np.ones((B, n)), "item-mask", "batch")
        for r, (ep, pos) in enumerate(self.rows):
            st = ep[pos]
            _, ended, nxt = self.window(ep, pos)
            what = "row %d (step %d of episode %d)" % (r, pos, st["ep"])
            for name, fd, s in (("", tb.state, st), ("next-", tb.next_state, nxt)):
                if s is None:
                    continue
                self.eq(fd.float_features[r], flat(s["obs"]["user"]), name + "user", what)
                docs = [flat(d) for d in s["obs"]["doc"].values()]
                self.eq(fd.candidate_docs.float_features[r][:n], docs, name + "documents", what)
                vals = [float(v["value"]) for v in s["obs"]["augmentation"].values()]
                self.eq(flat(fd.candidate_docs.value[r])[:n], vals, name + "value", what)
            self.eq(tb.action[r][:slate], flat(st["action"]), "action", what)
            if nxt is not None:
                self.eq(tb.next_action[r][:slate], flat(nxt["action"]), "next-action", what)
            check(tb.action.shape[1] == slate + 1 and int(tb.action[r][slate]) == int(tb.action[0][slate]), "null-item",
                  lambda: "%s: the action %s has no constant null item behind the slate" % (what, tb.action[r].tolist()))
            self.eq(flat(tb.not_terminal[r]), [0.0 if ended else 1.0], "not-terminal", what)
            # rewards: the user's response to a slate, with the null item rewarded 0 where nothing was clicked
            ok = []
            for obs in (st["next"], st["obs"]):
                click = self.responses(obs, "click") > 0
                watch = self.responses(obs, "watch_time")
                ok.append(close(flat(tb.reward[r]), np.append(watch, 0.0))
                          and [bool(x) for x in tb.reward_mask[r].tolist()] == list(click) + [not click.any()])
            if self.case.get("strict") == "null-item":
                check(int(tb.action[r][slate]) >= n, "null-item-is-a-candidate",
                      lambda: "%s: no click is candidate %d of %d, a document of its own" % (what, int(tb.action[r][slate]), n))
            if self.case.get("strict") == "response":
                check(ok[0], "response-of-previous-slate" if ok[1] else "response",
                      lambda: "%s: the slate %s is rewarded with %s, the user's response to it was %s" % (
                          what, st["action"].tolist(), flat(tb.reward[r]).tolist(),
                          self.responses(st["next"], "watch_time").tolist()))
            check(any(ok), "response", lambda: "%s: rewards %s under %s are neither the response to this slate nor the one "
                  "observed with the state" % (what, flat(tb.reward[r]).tolist(), tb.reward_mask[r].tolist()))
        self.probe.hit("rows_slateq", B)


class G04(Scenario):
    id = "G04"
    runs = {"quick": 900, "thorough": 30000}
    rule = ("a case is an environment (scripted, RecSim, ranking or changing arms), a random policy and a number of "
            "online episodes whose data a recording trainer of each kind receives, with episode limits, ring "
            "overwrites, consumers that stop and environment failures; non-trivial when a training batch was compared")
    components = {"real": ["run_episode, ReplayBufferDataset, train_post_episode", "PolicyGradientInputMaker",
                           "MemoryNetworkInputMaker", "ParametricDqnInputMaker", "SlateQInputMaker",
                           "PolicyNetworkInputMaker with candidates", "RecSimReplayBufferInserter", "ReplayBuffer",
                           "RecSim, OraclePVM, ChangingArms environments", "recsim package"],
                  "stub": ["scripted environment, failing on command", "trainer: records what it is given",
                           "legal-arm draws of ChangingArms: drawn by the simulator"]}
    assumptions = ["steps before the first of an episode are padding: zero state and reward, any action"]

    def setup(self):
        g.setup()
        import reagent.gym.envs.changing_arms  # noqa
        import reagent.gym.envs.oracle_pvm  # noqa
        import reagent.gym.envs.recsim  # noqa
        import torch

        torch.set_num_threads(1)

    # ---------------------------------------------------------------- plan
    def plan(self, rng, index, tier):
        kind = rng.choice(KINDS + ("pg_discrete", "memory_discrete", "slateq"))
        n = rng.choice([1, 1, 2, 3]) if kind in ("pdqn", "arms") else 1
        S = rng.choice([1, 2, 3, 4]) if kind.startswith("memory") else 1
        case = {"kind": kind, "n": n, "S": S, "gamma": rng.choice([0.5, 0.9, 1.0]),
                "C": n + S + rng.choice([1, 3, 8, 20, 40]), "B": rng.choice([1, 2, 3, 8]), "freq": rng.choice([1, 1, 2, 3]),
                "max_steps": rng.choice([None, None, 1, 2, 5, 12]), "given_log_prob": rng.random() < 0.7,
                "pulls": rng.choice([3, 10, 25]), "seed": rng.randrange(10 ** 6), "bounce": rng.choice([0, 0, 2, 3])}
        if kind in SCRIPT:
            acts = ["discrete", rng.choice([2, 3, 5])] if kind in ("pg_discrete", "memory_discrete", "pdqn") else \
                ["box", rng.choice([1, 2, 3])]
            case["env"] = {"seed": rng.getrandbits(32), "obs_dim": rng.choice([1, 2, 4]), "actions": acts, "masks": False,
                           "p_end": rng.choice([0.05, 0.2, 0.5, 1.0]), "int_reward": rng.random() < 0.2,
                           "np_bool": rng.random() < 0.3}
        elif kind in ("slateq", "pg_slate"):
            case.update(cand=rng.choice([2, 3, 6]), resample=rng.random() < 0.7, single=rng.random() < 0.6)
            case["slate"] = rng.choice([1, 2, case["cand"]])
            case["max_steps"] = rng.choice([1, 2, 5, 9])
        elif kind == "doc":
            case["cand"] = rng.choice([2, 3, 4])
            case["max_steps"] = None
        else:
            case["legal"] = rng.choice([0.1, 0.3, 0.6, 0.95])
        ops = []
        for _ in range(rng.choice([1, 2, 3, 6])):
            if kind in SCRIPT and rng.random() < 0.25:
                ops.append(["fail", rng.randrange(1, 15)])
            ops.append(["go", rng.choice([1, 2, 5])])
        case["ops"] = ops
        return case

    def shrink(self, case):
        for k, vs in (("n", (1,)), ("S", (1, 2)), ("B", (1, 2)), ("freq", (1,)), ("max_steps", (None, 1, 2)),
                      ("C", (case["n"] + case["S"] + 1, 10)), ("slate", (1, 2)), ("pulls", (3,))):
            for v in vs:
                if k in case and case[k] != v and (k == "max_steps" or v < case[k]) and not (
                        k == "max_steps" and v is None and case["kind"] in ("slateq", "pg_slate")):
                    c = copy.deepcopy(case)
                    c[k] = v
                    yield c
        for i, op in enumerate(case["ops"]):
            if op[1] > 1:
                c = copy.deepcopy(case)
                c["ops"][i][1] -= 1
                yield c

    def nontrivial(self, case, probe):
        return any(k.startswith("batches_") for k in probe.hits)

    # ---------------------------------------------------------------- run
    def run(self, case, probe):
        import torch
        from reagent.gym.envs import changing_arms as ca

        random.seed(case["seed"])
        np.random.seed(case["seed"])
        torch.manual_seed(case["seed"])
        real = ca.get_legal_indices_mask
        if case["kind"] == "arms":
            r = random.Random("arms%d" % case["seed"])
            ca.get_legal_indices_mask = lambda k: torch.tensor(
                [int(r.random() < case["legal"]) for _ in range(k)], dtype=torch.uint8)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                with sut("construct", "making the environment"):
                    w = Run(case, probe)
                if case["kind"] == "arms":
                    torch.manual_seed(case["seed"])
                (self.episodes if case["kind"].startswith("pg") else self.dataset)(w, case)
        finally:
            ca.get_legal_indices_mask = real

    def episodes(self, w, case):
        from reagent.gym.agents.post_episode import train_post_episode
        from reagent.gym.runners.gymrunner import run_episode

        agent = w.agent(post_episode_callback=train_post_episode(w.env, w.trainer(), False))
        n = 0
        for op in case["ops"]:
            if op[0] == "fail":
                g.CURRENT["log"].fail_at = g.CURRENT["log"].calls + op[1]
                continue
            for _ in range(op[1]):
                before, acts = w.batches, len(w.acts)
                try:
                    run_episode(w.env, agent, mdp_id=n, max_steps=case["max_steps"])
                except g.EnvFault:
                    check(w.batches == before, "partial-episode", "trained on an episode the environment did not finish")
                    w.probe.hit("episodes_failed")
                    continue
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("refused", "an episode of %d steps could not be trained on: %s: %s" % (
                        len(w.acts) - acts, type(e).__name__, str(e)[:200]))
                check(w.batches == before + 1, "episode-count", lambda: "one episode, %d training batches" % (w.batches - before))
                n += 1

    def dataset(self, w, case):
        from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset

        trainer = w.trainer()
        buf = w.make_buffer()
        with sut("construct", "ReplayBufferDataset"):
            ds = ReplayBufferDataset.create_for_trainer(
                trainer, w.env, w.agent(), buf, case["B"], training_frequency=case["freq"],
                num_episodes=sum(o[1] for o in case["ops"] if o[0] == "go") * 3, max_steps=case["max_steps"])
        fails = [o for o in case["ops"] if o[0] == "fail"]
        it = iter(ds)
        k = 0
        while k < case["pulls"] * 2:
            if fails and k == case["pulls"]:
                g.CURRENT["log"].fail_at = g.CURRENT["log"].calls + fails[0][1]
            w.rows = None
            try:
                b = next(it)
            except StopIteration:
                w.probe.hit("loops_completed")
                return
            except g.EnvFault:
                w.probe.hit("stopped_by_fault")
                return
            except Violation:
                raise
            except Exception as e:
                raise Violation("refused", "the collection loop raised %s: %s" % (type(e).__name__, str(e)[:300]))
            check(w.rows is not None and len(w.rows) == case["B"], "batch-size",
                  lambda: "%s rows for a batch of %d" % (w.rows and len(w.rows), case["B"]))
            trainer.train(b)
            k += 1
        it.close()
        w.probe.fault("consumer_stops")


SCENARIO = G04()
