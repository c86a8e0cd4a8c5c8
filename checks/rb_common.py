"""Reference model of the circular replay buffer and shared plan/compare code."""
import copy

from dst.core import Violation, check, sut

PAD = None


class RBModel:
    """Transitions in arrival order, in a list of slots; nothing is ever computed
    incrementally: eligibility and contents are derived from the whole history."""

    def __init__(self, cap, stack, n, gamma):
        self.C, self.S, self.n, self.gamma = cap, stack, n, gamma
        self.slots = []  # PAD or (episode list, position)
        self.cur = None

    def clone(self):
        return copy.deepcopy(self)

    def add(self, tr):
        if self.cur is None or self.cur[-1]["terminal"]:
            self.slots.extend([PAD] * (self.S - 1))
            self.cur = []
        self.cur.append(tr)
        self.slots.append((self.cur, len(self.cur) - 1))

    @property
    def total(self):
        return len(self.slots)

    def oldest(self):
        return max(0, self.total - self.C)

    def slot_of(self, index):
        """the live slot stored at ring position index, or None"""
        if not 0 <= index < self.C:
            return None
        t = self.total
        k = t - 1 - ((t - 1 - index) % self.C)
        return k if k >= 0 else None

    def window(self, k):
        """(steps, reached_terminal) of the n-step window starting at slot k"""
        ep, pos = self.slots[k]
        for j in range(self.n):
            if pos + j >= len(ep):
                return None, False
            if ep[pos + j]["terminal"]:
                return j + 1, True
        return self.n, False

    def eligible(self, k):
        if k is None or self.slots[k] is PAD:
            return False
        if k - (self.S - 1) < self.oldest():
            return False
        steps, term = self.window(k)
        if steps is None:
            return False
        ep, pos = self.slots[k]
        return term or pos + self.n < len(ep)

    def eligible_indices(self):
        return sorted(
            k % self.C for k in range(self.oldest(), self.total) if self.eligible(k)
        )

    def stack(self, ep, pos, field):
        """list of S values, oldest first, None standing for zero padding"""
        return [
            ep[pos - (self.S - 1) + j][field] if pos - (self.S - 1) + j >= 0 else None
            for j in range(self.S)
        ]


# ------------------------------------------------------------------ values

OBS_KINDS = [
    ["float32", []], ["float32", [3]], ["float64", [2]], ["uint8", [2, 2]], ["int64", [2]],
    ["float32", [1]],
]


def plan_config(rng, allow_sparse=True):
    S = rng.choice([1, 1, 1, 2, 3, 4])
    n = rng.choice([1, 1, 2, 3, 4])
    C = n + S + rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 40])
    everything = S > 1 and rng.random() < 0.5
    timeline = rng.random() < 0.35
    extras = []
    for name in ("ex_scalar", "ex_vec", "ex_bool", "mdp_id", "sequence_number", "log_prob"):
        if rng.random() < 0.3:
            extras.append(name)
    if allow_sparse and S == 1:
        for name in ("ex_ids", "ex_scores"):
            if rng.random() < 0.3:
                extras.append(name)
    return {
        "C": C, "S": S, "n": n, "gamma": rng.choice([0.0, 0.5, 0.9, 0.99, 1.0]),
        "everything": everything, "timeline": timeline,
        "obs": rng.choice(OBS_KINDS), "extras": extras,
        "action_vec": rng.random() < 0.3, "term_int": rng.random() < 0.3,
        "reward_int": rng.random() < 0.1,
    }


def make_transition(cfg, q, terminal, ep_no, pos):
    """q-th transition ever offered; every value identifies it."""
    import numpy as np

    dt, shape = cfg["obs"]
    size = 1
    for d in shape:
        size *= d
    if dt == "uint8":
        vals = [(q * 7 + i * 3 + 1) % 251 for i in range(size)]
    elif dt == "int64":
        vals = [q * 10 + i + 1 for i in range(size)]
    else:
        vals = [q + 1 + i * 0.125 for i in range(size)]
    obs = np.array(vals, dtype=dt).reshape(shape) if shape else np.dtype(dt).type(vals[0])
    tr = {
        "observation": obs,
        "action": np.array([q + 0.5, -q], dtype=np.float32) if cfg["action_vec"] else int(q),
        "reward": int(q % 7 - 3) if cfg["reward_int"] else ((q * 37) % 23 - 11) * 0.25,
        "terminal": int(terminal) if cfg["term_int"] else bool(terminal),
    }
    for e in cfg["extras"]:
        if e == "ex_scalar":
            tr[e] = q * 2.0 + 0.5
        elif e == "ex_vec":
            tr[e] = np.array([q, q + 1, q + 2], dtype=np.int64)
        elif e == "ex_bool":
            tr[e] = np.array([q % 2 == 0, q % 3 == 0])
        elif e == "mdp_id":
            tr[e] = int(ep_no)
        elif e == "sequence_number":
            tr[e] = int(pos)
        elif e == "log_prob":
            tr[e] = -0.25 * (q % 9)
        elif e == "ex_ids":
            tr[e] = {"a": [q * 3 + j for j in range(q % 4)], "b": [q]}
        elif e == "ex_scores":
            k = (q + 1) % 3
            tr[e] = {"s": ([q * 5 + j for j in range(k)], [q + 0.5 * j for j in range(k)])}
    return tr


def model_value(tr):
    """what the model keeps (arrays copied, so later mutation is visible)"""
    import numpy as np

    out = {}
    for k, v in tr.items():
        out[k] = np.array(v) if not isinstance(v, dict) else copy.deepcopy(v)
    out["terminal"] = bool(tr["terminal"])
    return out


class Feeder:
    """turns plan ops into offered transitions, tracking episodes"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.q = 0
        self.ep = 0
        self.pos = 0

    def next(self, terminal):
        tr = make_transition(self.cfg, self.q, terminal, self.ep, self.pos)
        self.q += 1
        return tr

    def accepted(self, terminal):
        self.pos += 1
        if terminal:
            self.ep += 1
            self.pos = 0


def corrupt(tr, how):
    """a transition the buffer has to refuse (after the first one was accepted)"""
    import numpy as np
    import torch

    bad = dict(tr)
    if how == "shape":
        bad["observation"] = np.zeros((5, 5, 5), dtype=np.asarray(tr["observation"]).dtype)
    elif how == "missing":
        bad.pop("reward")
    elif how == "extra":
        bad["surprise"] = 1.0
    elif how == "unsupported":
        bad["surprise"] = object()
    elif how == "text":
        bad["surprise"] = "text"
    elif how == "dtype":
        bad["action"] = np.array(tr["action"]).astype(np.complex64)
    elif how == "fraction":
        # an integer field offered a fraction
        name = "ex_vec" if "ex_vec" in tr else "action"
        bad[name] = np.array(tr[name]) + 0.5
        if np.array(tr[name]).dtype.kind != "i":
            bad[name] = bad[name].astype(np.complex64)
    elif how == "tensor":
        bad["observation"] = torch.zeros(3)
    elif how == "reward_shape":
        bad["reward"] = [1.0, 2.0]
    elif how in ("ids_key_missing", "ids_key_unknown", "ids_dtype"):
        d = bad["ex_ids"] = copy.deepcopy(tr["ex_ids"])
        if how == "ids_key_missing":
            del d["b"]
        elif how == "ids_key_unknown":
            d["c"] = [1]
        else:
            d["b"] = [0.5]
    elif how in ("scores_key_missing", "scores_length", "scores_dtype"):
        d = bad["ex_scores"] = copy.deepcopy(tr["ex_scores"])
        if how == "scores_key_missing":
            del d["s"]
        elif how == "scores_length":
            d["s"] = ([1, 2], [0.5])
        else:
            d["s"] = ([1], ["x"])
    return bad


BAD = ["shape", "missing", "extra", "dtype", "fraction", "tensor", "reward_shape"]
BAD_FIRST = ["missing", "tensor", "unsupported", "text"]  # also before there is anything to compare with
BAD_IDS = ["ids_key_missing", "ids_key_unknown", "ids_dtype"]
BAD_SCORES = ["scores_key_missing", "scores_length", "scores_dtype"]


def plan_bad(rng, cfg):
    kinds = list(BAD)
    if "ex_ids" in cfg["extras"]:
        kinds += BAD_IDS
    if "ex_scores" in cfg["extras"]:
        kinds += BAD_SCORES
    return rng.choice(kinds)


def can_corrupt(cfg, how):
    """a smaller case may have lost the field"""
    return ((how not in BAD_IDS or "ex_ids" in cfg["extras"])
            and (how not in BAD_SCORES or "ex_scores" in cfg["extras"]))


def reuse(tr):
    """the collector reuses the objects it has just handed over for its next step"""
    import numpy as np

    for v in tr.values():
        if isinstance(v, np.ndarray) and v.ndim:
            v[...] = np.zeros_like(v) if v.dtype == bool else 77
        elif isinstance(v, dict):
            for k, x in v.items():
                for y in (x if isinstance(x, tuple) else (x,)):
                    y.insert(0, 77)
            v["later"] = []


# ----------------------------------------------------------------- compare


def _np(x):
    import numpy as np
    import torch

    return x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def _eq(a, b):
    import numpy as np

    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        if a.size != b.size:
            return False
        a, b = a.reshape(-1), b.reshape(-1)
    return bool(np.allclose(a, b, rtol=1e-4, atol=1e-4))


def _stack_expected(vals):
    import numpy as np

    tpl = next(v for v in vals if v is not None)
    z = np.zeros_like(np.asarray(tpl))
    frames = [z if v is None else np.asarray(v) for v in vals]
    return np.stack(frames, axis=-1)


def _match_stack(got, vals, S, strict, what):
    """got: array for one row; vals: S values oldest first"""
    import numpy as np

    exp = _stack_expected(vals)
    newest = exp[..., -1]
    got = np.asarray(got)
    if S == 1:
        return _eq(got, newest) and got.size == newest.size
    if got.size == exp.size:
        return _eq(got.reshape(exp.shape), exp)
    # a field documented as "not stacked" may come back without the stack dimension
    return (not strict) and got.size == newest.size and _eq(got, newest)


def _sparse_rows(value, nrows):
    """{key: (offsets, ids[, scores])} -> per key list of rows"""
    out = {}
    for k, tup in value.items():
        offs = [int(o) for o in _np(tup[0]).tolist()]
        ids = _np(tup[1]).tolist()
        sc = _np(tup[2]).tolist() if len(tup) > 2 else None
        bounds = offs + [len(ids)]
        rows = []
        for i in range(nrows):
            a, b = bounds[i], bounds[i + 1]
            rows.append((ids[a:b], sc[a:b]) if sc is not None else ids[a:b])
        out[k] = (len(offs), rows)
    return out


def _sparse_equal(rows, i, expected):
    for k, v in expected.items():
        nrows, r = rows[k]
        got = r[i]
        if isinstance(v, tuple):
            if list(got[0]) != list(v[0]) or not _eq(got[1], v[1]):
                return False
        elif list(got) != list(v):
            return False
    return True


def compare_batch(batch, model, cfg, cls_prefix="", probe=None, skip=()):
    """every row of a sampled batch against the history; returns the ring indices"""
    idx = [int(i) for i in _np(batch.indices).reshape(-1).tolist()]
    B = len(idx)
    S, n = model.S, model.n
    steps_out = _np(batch.step).reshape(-1).tolist()
    terms = _np(batch.terminal).reshape(-1).tolist()
    check(len(steps_out) == B and len(terms) == B, cls_prefix + "batch-shape", "rows differ")
    sparse = [e for e in cfg["extras"] if e in ("ex_ids", "ex_scores")]
    sparse_rows = {}
    for e in sparse:
        sparse_rows[e] = _sparse_rows(getattr(batch, e), B)
        if not cfg["timeline"]:
            sparse_rows["next_" + e] = _sparse_rows(getattr(batch, "next_" + e), B)
    fields = ["action"] + [e for e in cfg["extras"] if e not in sparse]
    fields = [f for f in fields if f not in skip]
    data = {}
    for f in fields + ["next_" + f for f in fields] + ["state", "next_state", "reward", "next_reward"]:
        v = getattr(batch, f)
        data[f] = v if isinstance(v, list) else _np(v)
        check(len(data[f]) == B, cls_prefix + "batch-shape", lambda: "%s has %d rows, not %d" % (f, len(data[f]), B))
    strict = cfg["everything"]
    for r in range(B):
        i = idx[r]
        k = model.slot_of(i)
        check(model.eligible(k), cls_prefix + "ineligible-sample",
              lambda: "row %d: index %d does not hold a complete transition (slot %s of %d, cap %d)" % (
                  r, i, k, model.total, model.C))
        ep, pos = model.slots[k]
        steps, term = model.window(k)
        where = "index %d slot %d episode pos %d/%d" % (i, k, pos, len(ep))
        check(int(steps_out[r]) == steps, cls_prefix + "steps",
              lambda: "%s: step=%s expected %d" % (where, steps_out[r], steps))
        check(bool(terms[r]) == term, cls_prefix + "terminal",
              lambda: "%s: terminal=%s expected %s" % (where, terms[r], term))
        check(_match_stack(data["state"][r], model.stack(ep, pos, "observation"), S, True, "state"),
              cls_prefix + "state",
              lambda: "%s: state %s expected %s" % (where, data["state"][r].tolist(),
                                                     [None if v is None else v.tolist() for v in model.stack(ep, pos, "observation")]))
        for f in fields:
            check(_match_stack(data[f][r], model.stack(ep, pos, f), S, strict, f), cls_prefix + "field",
                  lambda: "%s: %s=%s expected %s" % (where, f, _np(data[f][r]).tolist(), ep[pos][f]))
        for e in sparse:
            check(_sparse_equal(sparse_rows[e], r, ep[pos][e]), cls_prefix + "sparse-field",
                  lambda: "%s: %s differs from %s" % (where, e, ep[pos][e]))
        if cfg["timeline"]:
            rew = _np(data["reward"][r])
            exp = [float(ep[pos + j]["reward"]) for j in range(steps)]
            if S == 1:
                check(_eq(rew, exp) and rew.size == steps, cls_prefix + "reward",
                      lambda: "%s: rewards %s expected %s" % (where, rew.tolist(), exp))
            else:
                check(rew.shape[0] == steps and _eq(rew.reshape(steps, -1)[:, -1], exp), cls_prefix + "reward",
                      lambda: "%s: rewards %s expected %s" % (where, rew.tolist(), exp))
            avail = steps - 1 if term else steps
            for f in ["state"] + fields + ["reward"]:
                src = "observation" if f == "state" else f
                seq = _np(data["next_" + f][r])
                check(seq.shape[0] == steps, cls_prefix + "next-length",
                      lambda: "%s: next_%s has %d entries expected %d" % (where, f, seq.shape[0], steps))
                for j in range(avail):
                    check(_match_stack(seq[j], model.stack(ep, pos + 1 + j, src), S, f == "state" or strict, f),
                          cls_prefix + "next-field",
                          lambda: "%s: next_%s[%d]=%s expected %s" % (where, f, j, seq[j].tolist(), ep[pos + 1 + j][src]))
            for e in sparse:
                rows = _sparse_rows(getattr(batch, "next_" + e)[r], steps)
                for j in range(avail):
                    check(_sparse_equal(rows, j, ep[pos + 1 + j][e]), cls_prefix + "next-field",
                          lambda: "%s: next_%s[%d] differs" % (where, e, j))
        else:
            if not (cfg["everything"] and n > 1):
                if cfg["everything"]:
                    ok = _match_stack(data["reward"][r], model.stack(ep, pos, "reward"), S, True, "reward")
                    exp = model.stack(ep, pos, "reward")
                else:
                    exp = sum(model.gamma ** j * float(ep[pos + j]["reward"]) for j in range(steps))
                    ok = _eq(data["reward"][r], exp)
                check(ok, cls_prefix + "reward",
                      lambda: "%s: reward %s expected %s" % (where, _np(data["reward"][r]).tolist(), exp))
            if not term:
                for f in ["state"] + fields + ["reward"]:
                    src = "observation" if f == "state" else f
                    check(_match_stack(data["next_" + f][r], model.stack(ep, pos + steps, src), S,
                                       f == "state" or strict, f), cls_prefix + "next-field",
                          lambda: "%s: next_%s=%s expected %s" % (where, f, _np(data["next_" + f][r]).tolist(), ep[pos + steps][src]))
                for e in sparse:
                    check(_sparse_equal(sparse_rows["next_" + e], r, ep[pos + steps][e]), cls_prefix + "next-field",
                          lambda: "%s: next_%s differs" % (where, e))
    if probe is not None:
        probe.hit("rows_compared", B)
    return idx


def freeze(batch):
    """deep copy of a batch's contents, to notice later in-place changes"""
    import torch

    def f(v):
        if isinstance(v, torch.Tensor):
            return v.clone()
        if isinstance(v, (list, tuple)):
            return type(v)(f(x) for x in v) if not hasattr(v, "_fields") else type(v)(*[f(x) for x in v])
        if isinstance(v, dict):
            return {k: f(x) for k, x in v.items()}
        return copy.deepcopy(v)

    return f(batch)


def same(a, b):
    import torch

    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and bool(
            torch.equal(torch.nan_to_num(a.double()), torch.nan_to_num(b.double())))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def new_buffer(cfg):
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    return ReplayBuffer(
        stack_size=cfg["S"], replay_capacity=cfg["C"], batch_size=cfg.get("B", 2),
        return_everything_as_stack=cfg["everything"],
        return_as_timeline_format=cfg["timeline"],
        update_horizon=cfg["n"], gamma=cfg["gamma"],
    )


def plan_adds(rng, nops, mean_len):
    """add ops with episode lengths biased short around the horizon"""
    ops = []
    for _ in range(nops):
        ops.append(["add", int(rng.random() < 1.0 / mean_len)])
    return ops


def shrink_config(case):
    for key in ("extras",):
        ex = case["cfg"].get(key)
        if ex:
            for e in list(ex):
                c = copy.deepcopy(case)
                c["cfg"][key] = [x for x in ex if x != e]
                yield c
    for key in ("action_vec", "term_int", "reward_int", "timeline", "everything"):
        if case["cfg"].get(key):
            c = copy.deepcopy(case)
            c["cfg"][key] = False
            yield c
    if case["cfg"]["obs"] != ["float32", []]:
        c = copy.deepcopy(case)
        c["cfg"]["obs"] = ["float32", []]
        yield c
    for key, lo in (("S", 1), ("n", 1)):
        if case["cfg"][key] > lo:
            c = copy.deepcopy(case)
            c["cfg"][key] -= 1
            yield c
    if case["cfg"]["C"] > case["cfg"]["n"] + case["cfg"]["S"]:
        c = copy.deepcopy(case)
        c["cfg"]["C"] -= 1
        yield c


class DirtyMemory:
    """Seam for the allocator: the replay buffer's np.empty hands out memory that holds
    seeded garbage (nan, huge values, all-ones bytes) instead of usually being zero."""

    def __init__(self, seed, probe):
        self.seed, self.probe = seed, probe

    def __enter__(self):
        import random
        import numpy
        from reagent.replay_memory import circular_replay_buffer as m

        rng = random.Random("mem%s" % self.seed)
        probe = self.probe
        self.m, self.old = m, m.__dict__.get("np")

        class Np:
            def __getattr__(self, name):
                return getattr(numpy, name)

            def empty(self, shape, dtype=float, **k):
                a = numpy.empty(shape, dtype=dtype, **k)
                if a.dtype.kind == "f":
                    a.fill(rng.choice([numpy.nan, numpy.inf, -1e30, 7.0]))
                elif a.dtype.kind in "iu":
                    a.fill(rng.choice([1, numpy.iinfo(a.dtype).max, numpy.iinfo(a.dtype).min]))
                if a.dtype.kind in "fiu":
                    probe.fault("dirty_allocation")
                return a

        if self.old is numpy:
            m.np = Np()
        return self

    def __exit__(self, *a):
        if self.old is not None:
            self.m.np = self.old
        return False
