"""G01: online collection stores every environment step exactly once and trains on schedule."""
import copy
import math

import numpy as np

from dst.core import Scenario, Violation, check, sut
from checks import gym_common as g
from checks import rb_common as rb


class Recorder:
    """stands between the code under test and the replay buffer's public add"""

    def __init__(self, run):
        self.run = run
        self.real = run.buf.add
        run.buf.add = self.add

    @staticmethod
    def real_of(buf):
        return type(buf).add.__get__(buf)

    def add(self, **kw):
        self.run.on_add(kw)
        self.real(**kw)
        self.run.after_add(kw)


class Run:
    def __init__(self, case, probe):
        from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

        self.case, self.probe = case, probe
        self.cfg = cfg = case["cfg"]
        self.env, self.log = g.new_env(case["env"], probe, self.on_env)
        self.buf = ReplayBuffer(stack_size=1, replay_capacity=cfg["C"], batch_size=cfg["B"],
                                update_horizon=cfg["n"], gamma=cfg["gamma"])
        self.model = rb.RBModel(cfg["C"], 1, cfg["n"], cfg["gamma"])
        self.rcfg = {"timeline": False, "everything": False,
                     "extras": ["mdp_id", "sequence_number", "log_prob"] + (["possible_actions_mask"] if case["env"]["masks"] else [])}
        self.acts = []  # what the policy decided, in order
        self.seen = 0  # environment steps already stored
        self.cut_at = None
        self.first_ep = self.next_mdp = 0
        self.ep_len = 0
        self.abandoned = False
        self.joined = False
        self.trains = 0
        self.due = None  # None / True / False: is a training batch due for the newest step?
        self.steps_in_iter = 0
        self.by_obs = {}
        self.stored = []
        Recorder(self)
        self.policy = self.make_policy()

    # ------------------------------------------------------------- policy
    def make_policy(self):
        import torch
        from reagent.gym.policies.policy import Policy
        from reagent.gym.policies.random_policies import make_random_policy_for_env

        if self.case["policy"] == "softmax":
            from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
            from reagent.gym.policies.scorers.discrete_scorer import discrete_dqn_scorer

            n = self.case["env"]["actions"][1]

            class Net(torch.nn.Module):
                def forward(self, x):
                    v = x.float_features.sum(dim=1, keepdim=True)
                    return torch.cos(v * torch.arange(1, n + 1))

            pol = Policy(discrete_dqn_scorer(Net()), SoftmaxActionSampler())
        else:
            pol = make_random_policy_for_env(self.env)
        run = self

        class Spy:
            def act(self, obs, mask=None):
                out = pol.act(obs, mask)
                run.acts.append({
                    "obs": obs.float_features.numpy().copy().reshape(-1),
                    "raw": out.action.detach().numpy().copy().reshape(-1),
                    "log_prob": float(out.log_prob.reshape(-1)[0]),
                    "mask": None if mask is None else np.array(mask).copy()})
                return out

        return Spy()

    def agent(self, **kw):
        from reagent.gym.agents.agent import Agent

        return Agent.create_for_env(self.env, policy=self.policy, **kw)

    # -------------------------------------------------------------- hooks
    def on_env(self, what):
        self.settle()
        if what == "step":
            lg = self.log
            act = self.acts[-1] if self.acts else None
            check(act is not None and len(self.acts) == len(lg.steps) + 1 + self.lost_acts, "act-per-step",
                  lambda: "%d decisions for %d environment steps" % (len(self.acts), len(lg.steps) + 1))
            check(self.seen == len(lg.steps), "step-not-stored",
                  lambda: "the environment is stepped again while %d of %d steps are stored" % (self.seen, len(lg.steps)))
        elif self.log.steps:
            check(self.seen == len(self.log.steps), "step-not-stored", "reset before the last step was stored")
            if not self.abandoned:
                check(self.ep_done, "reset-mid-episode", "reset although the stored episode has not ended")
        if what == "reset":
            self.ep_len = 0
            if self.mode == "fill":
                # filling runs each episode for as many steps as are missing, within the environment's own limit
                self.fill_limit = self.fill_desired - len(self.model.eligible_indices()) - 1
                if self.env.max_steps is not None:
                    self.fill_limit = min(self.fill_limit, self.env.max_steps)

    fill_desired = fill_limit = None
    lost_acts = 0
    ep_done = False

    def settle(self):
        if self.due is not None:
            check(self.trains == int(self.due), "training-cadence",
                  lambda: "step %d of this loop (every %d, %d stored): %d training batches, expected %d" % (
                      self.steps_in_iter - 1, self.case["freq"], len(self.model.eligible_indices()), self.trains, int(self.due)))
            self.due = None
        else:
            check(self.trains == 0, "training-cadence", "trained without a new step")
        self.trains = 0

    def on_add(self, kw):
        lg = self.log
        check(self.seen < len(lg.steps), "stored-twice", lambda: "step %d stored again" % self.seen)
        check(self.seen == len(lg.steps) - 1, "stored-late", "steps are not stored as they happen")
        st, act = lg.steps[self.seen], self.acts[-1]
        self.seen += 1
        what = "step %d" % self.seen
        ms = self.fill_limit if self.mode == "fill" else self.case.get("max_steps")
        if self.prev_ep != st["ep"]:
            self.prev_ep = st["ep"]
            self.mdp += 1
            self.ep_len = 0
        self.ep_len += 1
        check(np.array_equal(np.asarray(kw["observation"]), st["obs"]), "wrong-observation",
              lambda: "%s: stored %s, the action was chosen in %s" % (what, kw["observation"], st["obs"]))
        check(np.array_equal(act["obs"], st["obs"]), "wrong-observation",
              lambda: "%s: the policy saw %s in state %s" % (what, act["obs"], st["obs"]))
        check(np.array_equal(np.asarray(kw["action"]), st["action"]), "wrong-action",
              lambda: "%s: stored %s, executed %s" % (what, kw["action"], st["action"]))
        check(float(kw["reward"]) == st["reward"], "wrong-reward", lambda: "%s: stored %s got %s" % (what, kw["reward"], st["reward"]))
        check("log_prob" in kw and float(kw["log_prob"]) == act["log_prob"], "wrong-log-prob",
              lambda: "%s: stored %s, the policy said %s" % (what, kw.get("log_prob"), act["log_prob"]))
        check(int(kw["sequence_number"]) == self.ep_len - 1, "sequence-number",
              lambda: "%s: sequence number %s in position %d" % (what, kw["sequence_number"], self.ep_len - 1))
        if self.mdp_seen is None or kw["sequence_number"] == 0:
            check(self.mdp_seen is None or int(kw["mdp_id"]) != self.mdp_seen or self.fresh_iter, "mdp-id",
                  lambda: "%s: episode id %s reused by the next episode" % (what, kw["mdp_id"]))
            self.mdp_seen = int(kw["mdp_id"])
            self.fresh_iter = False
        check(int(kw["mdp_id"]) == self.mdp_seen, "mdp-id", lambda: "%s: episode id changed inside an episode" % what)
        if st["mask"] is not None:
            check("possible_actions_mask" in kw and np.array_equal(kw["possible_actions_mask"], st["mask"]), "wrong-mask",
                  lambda: "%s: stored mask %s, offered %s" % (what, kw.get("possible_actions_mask"), st["mask"]))
            check(act["mask"] is not None and np.array_equal(act["mask"], st["mask"]), "wrong-mask",
                  lambda: "%s: the policy saw mask %s, offered %s" % (what, act["mask"], st["mask"]))
            check(bool(st["mask"][int(st["action"])]), "impossible-action",
                  lambda: "%s: action %s is not possible under %s" % (what, st["action"], st["mask"]))
        term = bool(kw["terminal"])
        check(not st["terminal"] or term, "terminal-lost", lambda: "%s ended the episode but is stored as not terminal" % what)
        if term and not st["terminal"]:
            check(ms is not None and self.ep_len in (ms, ms + 1), "early-cut",
                  lambda: "%s: episode cut after %d steps, limit %s" % (what, self.ep_len, ms))
            check(self.cut_at in (None, self.ep_len) or self.mode == "fill", "early-cut", "the step limit is applied inconsistently")
            self.cut_at = self.ep_len
            self.probe.hit("cut_by_step_limit")
        check(ms is None or self.ep_len <= ms + 1, "step-limit", lambda: "%s: episode has %d steps, limit %s" % (what, self.ep_len, ms))
        self.ep_done = term
        self.abandoned = False

    prev_ep = -1
    mdp = -1
    mdp_seen = None
    fresh_iter = False
    mode = ""

    def after_add(self, kw):
        st = dict(kw)
        st["terminal"] = bool(kw["terminal"])
        tr = rb.model_value(st)
        act = self.acts[-1]
        tr["_raw"] = act["raw"]
        self.model.add(tr)
        self.by_obs[float(np.asarray(kw["observation"]).reshape(-1)[0])] = tr
        n_el = len(self.model.eligible_indices())
        check(int(self.buf.size) == n_el, "size", lambda: "buffer reports %d, expected %d" % (self.buf.size, n_el))
        k = self.steps_in_iter
        self.steps_in_iter += 1
        if self.mode == "dataset":
            self.due = k % self.case["freq"] == 0 and n_el >= self.case["B"]
        elif self.mode == "post_step":
            self.due = k % self.case["freq"] == 0
        else:
            self.due = False
        self.probe.state(self.mode, self.ep_len, self.ep_done, n_el, bool(self.due))

    # ------------------------------------------------------------ training
    def raw_batch(self, batch):
        """a batch as sampled from the buffer"""
        check(int(batch.state.shape[0]) == self.case["B"], "batch-size", "%d rows" % int(batch.state.shape[0]))
        rb.compare_batch(batch, self.model, self.rcfg, probe=self.probe)
        return [self.model.slots[self.model.slot_of(int(i))] for i in batch.indices.reshape(-1).tolist()]

    def trainer_batch(self, rows, tb):
        """the same rows, as the trainer receives them"""
        spec = self.case["env"]
        for r, (ep, pos) in enumerate(rows):
            tr = ep[pos]
            n = self.model.n
            steps, term = 0, False
            ret = 0.0
            for j in range(n):
                if pos + j >= len(ep):
                    break
                ret += self.model.gamma ** j * float(ep[pos + j]["reward"])
                steps += 1
                if ep[pos + j]["terminal"]:
                    term = True
                    break
            nxt = None if term else ep[pos + steps]
            what = "training row %d (episode step %d)" % (r, pos)

            def eq(a, b, f):
                check(rb._eq(np.asarray(a, dtype=np.float64).reshape(-1), np.asarray(b, dtype=np.float64).reshape(-1)), "trainer-" + f,
                      lambda: "%s: %s is %s, expected %s" % (what, f, np.asarray(a).tolist(), np.asarray(b).tolist()))

            eq(tb.state.float_features[r].numpy(), tr["observation"], "state")
            eq(tb.reward[r].numpy(), ret, "reward")
            eq(tb.not_terminal[r].numpy(), 0.0 if term else 1.0, "not-terminal")
            if nxt is not None:
                eq(tb.next_state.float_features[r].numpy(), nxt["observation"], "next-state")
            eq(tb.extras.action_probability[r].numpy(), math.exp(float(tr["log_prob"])), "action-probability")
            if spec["actions"][0] == "discrete":
                na = spec["actions"][1]
                one = np.eye(na)
                eq(tb.action[r].numpy(), one[int(tr["action"])], "action")
                eq(tb.next_action[r].numpy(), np.zeros(na) if term else one[int(nxt["action"])], "next-action")
                m = tr.get("possible_actions_mask")
                eq(tb.possible_actions_mask[r].numpy(), np.ones(na) if m is None else m, "mask")
                if nxt is not None:
                    m = nxt.get("possible_actions_mask")
                    eq(tb.possible_next_actions_mask[r].numpy(), np.ones(na) if m is None else m, "next-mask")
            else:
                # the trainer works in the policy's own action scale
                check(np.allclose(tb.action.float_features[r].numpy(), tr["_raw"], atol=1e-3), "trainer-action",
                      lambda: "%s: action %s, the policy chose %s" % (what, tb.action.float_features[r].tolist(), tr["_raw"]))
                if nxt is not None:
                    check(np.allclose(tb.next_action.float_features[r].numpy(), nxt["_raw"], atol=1e-3), "trainer-next-action",
                          lambda: "%s: next action %s, the policy chose %s" % (what, tb.next_action.float_features[r].tolist(), nxt["_raw"]))
        self.probe.hit("training_rows", len(rows))

    def fake_trainer(self):
        import reagent.types as rlt

        run = self
        if self.case["env"]["actions"][0] == "discrete":
            class T:
                def train(self, training_batch: rlt.DiscreteDqnInput):
                    run.trained(training_batch)
        else:
            class T:
                def train(self, training_batch: rlt.PolicyNetworkInput):
                    run.trained(training_batch)
        return T()

    def preprocessor(self, trainer):
        import torch
        from reagent.gym.preprocessors import make_replay_buffer_trainer_preprocessor

        real = make_replay_buffer_trainer_preprocessor(trainer, torch.device("cpu"), self.env)

        def prep(batch):
            self.rows = self.raw_batch(batch)
            return real(batch)

        return prep

    def trained(self, tb):
        self.trains += 1
        check(self.trains == 1, "training-cadence", "trained twice on one step")
        self.trainer_batch(self.rows, tb)
        self.probe.event("train")
        self.probe.hit("training_batches")


class G01(Scenario):
    id = "G01"
    runs = {"quick": 1500, "thorough": 40000}
    rule = ("a case is a scripted environment (episode ends, masks, failures), a policy, a collection loop (streaming data "
            "set, post-step training, buffer filling, episode runner) and a consumer that pulls, stops and restarts; "
            "non-trivial when at least two environment steps were stored and compared")
    components = {"real": ["ReplayBufferDataset", "run_episode", "fill_replay_buffer", "Agent", "post_step callbacks",
                           "replay buffer inserter", "trainer preprocessors", "random and softmax policies", "Gym wrapper"],
                  "stub": ["environment: scripted, failing on command", "trainer: records what it is given"]}
    assumptions = ["an episode cut by the step limit may have limit or limit+1 steps, the same within a loop"]

    def setup(self):
        g.setup()

    def plan(self, rng, index, tier):
        mode = rng.choice(["dataset", "dataset", "dataset", "post_step", "fill", "plain"])
        kind = rng.choice(["discrete", "discrete", "box"])
        acts = [kind, rng.choice([2, 3, 5]) if kind == "discrete" else rng.choice([1, 2])]
        masks = kind == "discrete" and rng.random() < 0.5
        env = {"seed": rng.getrandbits(32), "obs_dim": rng.choice([1, 2, 4]), "actions": acts, "masks": masks,
               "p_end": rng.choice([0.02, 0.1, 0.3, 0.6, 1.0]), "int_reward": rng.random() < 0.2,
               "np_bool": rng.random() < 0.3}
        n = rng.choice([1, 1, 2, 3])
        cfg = {"C": rng.choice([n + 1 + rng.randrange(3), 10, 25, 60]), "n": n, "gamma": rng.choice([0.5, 0.9, 1.0]), "B": 1}
        case = {"mode": mode, "env": env, "cfg": cfg,
                "policy": rng.choice(["random", "softmax"]) if kind == "discrete" else "random",
                "B": rng.choice([1, 2, 3, 8]), "freq": rng.choice([1, 1, 2, 3, 7]),
                "max_steps": rng.choice([None, None, 1, 2, 5, 12]) if env["p_end"] > 0.05 else rng.choice([1, 2, 5, 12])}
        faulty = rng.random() < 0.5
        ops = []
        long = tier != "quick"
        if mode == "dataset":
            for _ in range(rng.choice([1, 2, 3])):
                ops.append(["iterate", rng.choice([1, 2, 5, 10]) * (4 if long else 1), rng.choice([3, 10, 40])])
                if faulty and rng.random() < 0.5:
                    ops.insert(len(ops) - 1, ["fail", rng.randrange(2, 40)])
        elif mode == "fill":
            env["max_episode_steps"] = rng.choice([None, 3, 8])
            case["max_steps"] = None
            case["cfg"]["n"] = n = rng.choice([1, 1, 2])
            cfg["C"] = max(cfg["C"], n + 2)
            ops.append(["fill", rng.randrange(1, cfg["C"] + 1)])
            if rng.random() < 0.5:
                ops.append(["fill", rng.randrange(1, cfg["C"] + 1)])
        else:
            for i in range(rng.choice([1, 2, 4, 8])):
                if faulty and rng.random() < 0.3:
                    ops.append(["fail", rng.randrange(1, 20)])
                ops.append(["episode", i])
        case["ops"] = ops
        return case

    def shrink(self, case):
        for k, v in (("max_steps", None), ("policy", "random"), ("freq", 1), ("B", 1)):
            if case.get(k) != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        for k, v in (("masks", False), ("obs_dim", 1), ("int_reward", False), ("np_bool", False)):
            if case["env"].get(k) != v:
                c = copy.deepcopy(case)
                c["env"][k] = v
                yield c
        for i, op in enumerate(case["ops"]):
            if op[0] == "iterate":
                for j in (1, 2):
                    if op[j] > 1:
                        c = copy.deepcopy(case)
                        c["ops"][i][j] = op[j] // 2
                        yield c
            if op[0] == "fail" and op[1] > 1:
                c = copy.deepcopy(case)
                c["ops"][i][1] -= 1
                yield c

    def nontrivial(self, case, probe):
        return probe.steps >= 4

    def run(self, case, probe):
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            self.simulate(case, probe)

    def joined(self, case, probe):
        """the recorded finding: a loop abandoned inside an episode, then a new loop on the same buffer"""
        from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset

        w = Run(case, probe)
        w.buf.add = Recorder.real_of(w.buf)
        g.CURRENT["on_env"] = None
        tr = w.fake_trainer()
        for pulls in (2, 4):
            ds = ReplayBufferDataset.create_for_trainer(tr, w.env, w.agent(), w.buf, 1, num_episodes=1,
                                                        trainer_preprocessor=lambda b: b)
            it = iter(ds)
            for _ in range(pulls):
                try:
                    next(it)
                except StopIteration:
                    break
            it.close()
            probe.event("loop", pulls)
        b = w.buf.sample_all_valid_transitions()
        ep = {float(s["obs"][0]): s["ep"] for s in w.log.steps}
        for i in range(int(b.state.shape[0])):
            if not bool(b.terminal[i]):
                x, y = float(b.state[i][0]), float(b.next_state[i][0])
                check(ep[x] == ep.get(y, ep[x]), "episodes-joined",
                      lambda: "a stored step leads from episode %d into episode %d" % (ep[x], ep[y]))

    def simulate(self, case, probe):
        if case.get("join"):
            return self.joined(case, probe)
        w = Run(case, probe)
        w.mode = case["mode"]
        for op in case["ops"]:
            if op[0] == "fail":
                w.log.fail_at = w.log.calls + op[1]
            elif op[0] == "iterate":
                if self.iterate(w, op[1], op[2]):
                    break
            elif op[0] == "fill":
                self.fill(w, op[1])
            elif op[0] == "episode":
                if self.episode(w, op[1]):
                    break
        if w.model.eligible_indices():
            with sut("sample-failed", "reading the buffer"):
                b = w.buf.sample_all_valid_transitions()
            rb.compare_batch(b, w.model, w.rcfg, probe=probe)
            el = sorted(int(i) for i in b.indices.reshape(-1).tolist())
            check(el == w.model.eligible_indices(), "lost-steps", lambda: "stored %s expected %s" % (el, w.model.eligible_indices()))

    def iterate(self, w, episodes, pulls):
        from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset

        case = w.case
        trainer = w.fake_trainer()
        with sut("construct", "ReplayBufferDataset"):
            ds = ReplayBufferDataset.create_for_trainer(
                trainer, w.env, w.agent(), w.buf, case["B"], training_frequency=case["freq"],
                num_episodes=episodes, max_steps=case["max_steps"], trainer_preprocessor=w.preprocessor(trainer))
        w.steps_in_iter = 0
        w.fresh_iter = True
        resets = w.log.resets
        it = iter(ds)
        n = 0
        while True:
            if n >= pulls:
                # the consumer stops: nothing may be collected behind its back
                calls = w.log.calls
                it.close()
                check(w.log.calls == calls, "ran-on", "the environment was used after the consumer stopped")
                w.probe.fault("consumer_stops")
                w.settle()
                w.ep_done = True if w.ep_done else False
                w.abandoned = True
                # the next episode would continue the abandoned one in the buffer
                return not w.ep_done
            try:
                b = next(it)
            except StopIteration:
                w.settle()
                check(w.log.resets - resets == episodes, "episode-count",
                      lambda: "%d episodes asked, %d run" % (episodes, w.log.resets - resets))
                check(w.ep_done, "unfinished", "the loop ended inside an episode")
                w.probe.hit("loops_completed")
                return False
            except g.EnvFault:
                w.settle()
                return self.after_fault(w)
            except Violation:
                raise
            except Exception as e:
                raise Violation("loop-failed", "the collection loop raised %s: %s" % (type(e).__name__, str(e)[:300]))
            w.trained(b)
            n += 1

    def after_fault(self, w):
        check(w.seen == len(w.log.steps), "step-not-stored", "a completed step is missing after the environment failed")
        w.lost_acts = len(w.acts) - len(w.log.steps)
        w.probe.hit("stopped_by_fault")
        w.abandoned = True
        return bool(w.model.total) and not w.ep_done

    def fill(self, w, desired):
        from reagent.gym.utils import fill_replay_buffer

        size = len(w.model.eligible_indices())
        if size >= desired:
            try:
                fill_replay_buffer(w.env, w.buf, desired)
            except AssertionError:
                return
            raise Violation("fill", "filling to %d accepted although %d are stored" % (desired, size))
        w.fill_desired = desired
        w.fresh_iter = True
        import reagent.gym.utils as u

        real = u.make_random_policy_for_env
        u.make_random_policy_for_env = lambda env: w.policy
        try:
            with sut("fill", "fill_replay_buffer"):
                fill_replay_buffer(w.env, w.buf, desired)
        finally:
            u.make_random_policy_for_env = real
        w.settle()
        got = int(w.buf.size)
        check(w.ep_done, "unfinished", "filling ended inside an episode")
        if w.model.total <= w.model.C:  # nothing was overwritten
            check(got == desired, "fill", lambda: "asked to fill to %d, filled to %d" % (desired, got))
        check(got <= desired, "fill", lambda: "asked to fill to %d, filled to %d" % (desired, got))
        w.probe.hit("fills")

    def episode(self, w, i):
        import torch
        from reagent.gym.agents.post_step import add_replay_buffer_post_step, train_with_replay_buffer_post_step
        from reagent.gym.runners.gymrunner import run_episode
        from reagent.tensorboardX import SummaryWriterContext

        case = w.case
        if not hasattr(w, "the_agent"):
            if case["mode"] == "post_step":
                trainer = w.fake_trainer()
                # the callback asks for a filled buffer, so collect first
                w.mode = "plain"
                w.the_agent = w.agent(post_transition_callback=add_replay_buffer_post_step(w.buf, w.env))
                for k in range(50):
                    if len(w.model.eligible_indices()) >= case["B"] or w.model.total > 4 * w.model.C:
                        break
                    try:
                        run_episode(w.env, w.the_agent, mdp_id=1000 + k, max_steps=case["max_steps"])
                    except g.EnvFault:
                        return True
                w.settle()
                if w.model.C - w.model.n < case["B"] or len(w.model.eligible_indices()) < case["B"]:
                    return True
                w.mode = "post_step"
                w.steps_in_iter = 0
                w.the_agent = w.agent(post_transition_callback=train_with_replay_buffer_post_step(
                    w.buf, w.env, trainer, case["freq"], case["B"], trainer_preprocessor=w.preprocessor(trainer)),
                    post_episode_callback=lambda tr: w.finished.append(tr))
            else:
                w.the_agent = w.agent(post_transition_callback=add_replay_buffer_post_step(w.buf, w.env),
                                      post_episode_callback=lambda tr: w.finished.append(tr))
        gs = SummaryWriterContext._global_step
        before = len(w.log.steps)
        w.finished = []
        try:
            t = run_episode(w.env, w.the_agent, mdp_id=i, max_steps=case["max_steps"])
        except g.EnvFault:
            w.settle()
            check(not w.finished, "post-episode", "an episode that failed was reported as finished")
            return self.after_fault(w)
        except Violation:
            raise
        except AssertionError as e:
            if case["mode"] == "post_step" and len(w.model.eligible_indices()) < case["B"]:
                return True  # refused: not enough to train on
            raise Violation("loop-failed", "run_episode raised %r" % (e,))
        except Exception as e:
            raise Violation("loop-failed", "run_episode raised %s: %s" % (type(e).__name__, str(e)[:300]))
        w.settle()
        steps = w.log.steps[before:]
        check(SummaryWriterContext._global_step - gs == len(steps), "global-step", "the step counter did not advance once per step")
        check(w.ep_done and len(t) == len(steps), "trajectory", lambda: "trajectory of %d for %d steps" % (len(t), len(steps)))
        check([float(r) for r in t.reward] == [s["reward"] for s in steps], "trajectory", "rewards of the trajectory differ")
        check(all(np.array_equal(o, s["obs"]) for o, s in zip(t.observation, steps)), "trajectory", "observations differ")
        check(len(w.finished) == 1 and w.finished[0].reward == t.reward, "post-episode",
              lambda: "an episode of %d steps was reported %d times" % (len(steps), len(w.finished)))
        check(int(t.mdp_id[0]) == i, "mdp-id", "the trajectory has another episode id")
        check([bool(x) for x in t.terminal] == [False] * (len(steps) - 1) + [True], "trajectory", "terminal flags differ")
        for gamma in (1.0, 0.5):
            exp = sum(gamma ** k * s["reward"] for k, s in enumerate(steps))
            got = float(t.calculate_cumulative_reward(gamma))
            check(abs(got - exp) <= 1e-6 * (1 + abs(exp)), "trajectory", lambda: "return %s expected %s" % (got, exp))
        w.probe.hit("episodes")
        return False


SCENARIO = G01()
