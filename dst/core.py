"""Deterministic-simulation core: seeds, probes, violations, batches, minimiser, replay.

One simulated run is a pure function of a *case*: a JSON value holding the
configuration, the complete operation/fault/schedule list and an integer seed
for draws made while the run proceeds.  Cases are generated from VERIF_SEED and
the run index only, so a batch is the same whatever the number of workers.
"""
import copy
import hashlib
import json
import os
import random
import sys
import time
import traceback
from collections import Counter


class Violation(Exception):
    """The property does not hold in this run.  cls names the violated clause."""

    def __init__(self, cls, msg, **data):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg
        self.data = data


class HarnessError(Exception):
    """The simulator itself could not do its job (never a verdict)."""


class Probe:
    """What one run did: fault counts, reach probes, states, event digest."""

    def __init__(self, keep_log=False):
        self.faults = Counter()
        self.hits = Counter()
        self.states = set()
        self.steps = 0
        self.simtime = 0.0
        self._h = hashlib.blake2b(digest_size=12)
        self.keep_log = keep_log
        self.log = []

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def hit(self, name, n=1):
        self.hits[name] += n

    def state(self, *key):
        self.states.add(hash_of(key))

    def event(self, *what):
        self.steps += 1
        line = repr(what)
        self._h.update(line.encode())
        if self.keep_log:
            self.log.append(line)

    def digest(self):
        return self._h.hexdigest()


def hash_of(x):
    return int.from_bytes(
        hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big"
    )


def run_rng(seed, prop, index, extra=""):
    return random.Random("%s|%s|%s|%s" % (seed, prop, index, extra))


def check(cond, cls, msg, **data):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg, **data)


class sut:
    """Context manager around a call into the code under test which must succeed.

    Any exception it lets out is a violation of `cls` (not a harness error).
    """

    def __init__(self, cls, what=""):
        self.cls = cls
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, (Violation, HarnessError, SimCrash, KeyboardInterrupt)):
            return False
        if not issubclass(et, Exception):
            return False
        fr = traceback.extract_tb(tb)[-1]
        raise Violation(
            self.cls,
            "%s raised %s: %s (at %s:%s)"
            % (self.what, et.__name__, str(ev)[:300], os.path.basename(fr.filename), fr.name),
        ) from None


class SimCrash(BaseException):
    """Simulated process death; derives from BaseException so no handler in the
    code under test swallows it by catching Exception."""


class Scenario:
    id = None
    level = "exploration"
    title = ""
    rule = ""
    components = {}
    runs = {"quick": 400, "thorough": 20000}
    chunk = 1
    assumptions = []

    def setup(self):
        """Import the code under test, once per worker process."""

    def plan(self, rng, index, tier):
        raise NotImplementedError

    def run(self, case, probe):
        raise NotImplementedError

    def nontrivial(self, case, probe):
        return probe.steps >= 2

    def shrink(self, case):
        """Yield simpler variants (beyond dropping ops)."""
        return iter(())

    def sample(self, case):
        return case

    def teardown(self):
        pass


def seed_everything(seed):
    import numpy as np

    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    try:
        import torch

        torch.manual_seed(seed % (2 ** 63))
    except ImportError:
        pass


def run_case(scn, case, keep_log=False):
    """-> (status, payload, probe); status in ok / violation / harness"""
    probe = Probe(keep_log)
    seed_everything(int(case.get("seed", 0)))
    try:
        scn.run(case, probe)
        return "ok", None, probe
    except Violation as v:
        probe.event("VIOLATION", v.cls)
        return "violation", {"cls": v.cls, "msg": v.msg, "data": v.data}, probe
    except SimCrash:
        return "harness", "uncaught SimCrash\n" + traceback.format_exc(), probe
    except Exception as e:
        where = blame(e)
        if where:
            probe.event("VIOLATION", "unexpected-exception")
            return "violation", {
                "cls": "unexpected-exception",
                "msg": "%s: %s (at %s)" % (type(e).__name__, str(e)[:300], where),
                "data": {},
            }, probe
        if isinstance(e, UNREADABLE) or wrong_kind(e):
            # the code under test returned something the oracle cannot take apart
            fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(VERIF + os.sep)][-1]
            probe.event("VIOLATION", "unreadable-output")
            return "violation", {
                "cls": "unreadable-output",
                "msg": "%s: %s (at %s:%s: %s)" % (type(e).__name__, str(e)[:300], os.path.basename(fr.filename), fr.name, fr.line),
                "data": {},
            }, probe
        return "harness", traceback.format_exc(), probe


# What reading a result of the wrong shape or length raises; an interface that
# is gone raises AttributeError, ImportError or TypeError, which stay harness errors ...
UNREADABLE = (IndexError, KeyError, ValueError, RuntimeError, ZeroDivisionError)


def wrong_kind(e):
    """... unless it is not the interface but a value that is of another kind"""
    text = str(e)
    if isinstance(e, TypeError):
        return not any(w in text for w in ("positional argument", "keyword argument", "required argument", "not callable", "__init__", "got multiple"))
    return isinstance(e, AttributeError) and text.startswith("'NoneType' object")


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blame(e):
    """'file:function' if the innermost frame of ours or of the code under test
    belongs to the code under test, else None (then the simulator is at fault)"""
    last = None
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith("/repo/"):
            last = "%s:%s" % (os.path.relpath(fr.filename, "/repo"), fr.name)
        elif fr.filename.startswith(VERIF + os.sep):
            last = None
    return last


# ---------------------------------------------------------------- minimiser


def _size(case):
    return len(json.dumps(case))


def minimise(scn, case, cls, budget_s=45.0, max_evals=1500):
    """ddmin over case['ops'] then scenario-specific shrinks, same class only."""
    t0 = time.time()
    evals = [0]

    def fails(c):
        if time.time() - t0 > budget_s or evals[0] >= max_evals:
            return False
        evals[0] += 1
        st, pl, _ = run_case(scn, c)
        return st == "violation" and pl["cls"] == cls

    best = copy.deepcopy(case)
    progress = True
    while progress and time.time() - t0 < budget_s and evals[0] < max_evals:
        progress = False
        ops = best.get("ops")
        if isinstance(ops, list) and len(ops) > 1:
            n = 2
            while len(best["ops"]) > 1:
                ops = best["ops"]
                size = max(1, len(ops) // n)
                reduced = False
                for i in range(0, len(ops), size):
                    cand = copy.copy(best)
                    cand["ops"] = ops[:i] + ops[i + size:]
                    if cand["ops"] and fails(cand):
                        best = copy.deepcopy(cand)
                        reduced = progress = True
                        n = max(2, n - 1)
                        break
                if not reduced:
                    if size == 1:
                        break
                    n = min(len(ops), n * 2)
                if time.time() - t0 > budget_s or evals[0] >= max_evals:
                    break
        for cand in scn.shrink(copy.deepcopy(best)):
            if _size(cand) <= _size(best) and cand != best and fails(cand):
                best = copy.deepcopy(cand)
                progress = True
                break
    return best, evals[0]
