"""A scripted gym environment the simulator owns, and helpers for the online loops."""
import random

import numpy as np

CURRENT = {}  # the run being simulated: {"spec": ..., "log": EnvLog}


class EnvFault(RuntimeError):
    """the simulated environment failed"""


class EnvLog:
    def __init__(self, spec, probe):
        self.spec = spec
        self.probe = probe
        self.rng = random.Random("env%s" % spec["seed"])
        self.uid = 0
        self.steps = []  # every completed env.step
        self.resets = 0
        self.calls = 0
        self.fail_at = spec.get("fail_at")  # number of the env call that raises


_registered = []


def register():
    import gym
    from gym.envs.registration import register as reg

    if not _registered:
        _registered.append(1)
        reg(id="DstScript-v0", entry_point="checks.gym_common:make_env")


def make_env():
    import gym
    from gym import spaces

    class ScriptEnv(gym.Env):
        def __init__(self):
            self.lg = CURRENT["log"]
            spec = self.lg.spec
            d = spec["obs_dim"]
            self.observation_space = spaces.Box(-np.inf, np.inf, shape=(d,), dtype=np.float32)
            if spec["actions"][0] == "discrete":
                self.action_space = spaces.Discrete(spec["actions"][1])
            elif spec["actions"][0] == "box":
                k = spec["actions"][1]
                self.action_space = spaces.Box(
                    low=np.array([-2.0 - i for i in range(k)], dtype=np.float32),
                    high=np.array([3.0 + i for i in range(k)], dtype=np.float32))
            else:
                self.action_space = spaces.MultiDiscrete([spec["actions"][1]] * 2)
            if spec.get("max_episode_steps"):
                self._max_episode_steps = spec["max_episode_steps"]
            self.cur = None

        def _obs(self):
            lg = self.lg
            lg.uid += 1
            self.cur = np.array([lg.uid + 0.25 * j for j in range(lg.spec["obs_dim"])], dtype=np.float32)
            if lg.spec["masks"]:
                n = lg.spec["actions"][1]
                m = np.array([lg.rng.random() < 0.6 for _ in range(n)])
                m[lg.rng.randrange(n)] = True
                self.possible_actions_mask = m
            return self.cur.copy()

        def _tick(self):
            lg = self.lg
            lg.calls += 1
            if lg.fail_at is not None and lg.calls == lg.fail_at:
                lg.fail_at = None
                lg.probe.fault("environment_error")
                lg.probe.event("env error")
                raise EnvFault("simulated environment failure")

        def seed(self, seed=None):
            if hasattr(self.lg, "seeded"):
                self.lg.seeded(seed)
            return [seed]

        def reset(self):
            cb = CURRENT.get("on_env")
            if cb:
                cb("reset")
            self._tick()
            lg = self.lg
            lg.resets += 1
            lg.probe.event("reset")
            self.t = 0
            return self._obs()

        def step(self, action):
            cb = CURRENT.get("on_env")
            if cb:
                cb("step")
            self._tick()
            lg = self.lg
            before = self.cur
            mask = getattr(self, "possible_actions_mask", None)
            mask = None if mask is None else mask.copy()
            term = lg.rng.random() < lg.spec["p_end"]
            reward = round(lg.rng.uniform(-3, 3), 3)
            if lg.spec.get("int_reward"):
                reward = int(reward)
            self.t += 1
            a = np.array(action)
            obs = self._obs()
            lg.steps.append({
                "obs": before, "action": a, "reward": float(reward), "terminal": bool(term), "mask": mask,
                "next_obs": self.cur.copy(), "ep": lg.resets - 1, "t": self.t - 1})
            lg.probe.event("step", a.tolist(), reward, term)
            if lg.spec.get("np_bool"):
                term = np.bool_(term)
            return obs, reward, term, {}

    return ScriptEnv()


def new_env(spec, probe, on_env=None):
    CURRENT.clear()
    CURRENT["log"] = EnvLog(spec, probe)
    CURRENT["on_env"] = on_env
    from reagent.gym.envs.gym import Gym

    return Gym(env_name="DstScript-v0"), CURRENT["log"]


def setup():
    import warnings
    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import reagent_compat  # noqa
    import reagent.gym.envs.gym  # noqa
    import reagent.gym.agents.agent  # noqa
    import reagent.gym.runners.gymrunner  # noqa
    import reagent.gym.datasets.replay_buffer_dataset  # noqa
    import reagent.gym.utils  # noqa

    register()
