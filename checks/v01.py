"""V01: off-policy evaluation sees every logged row once, whatever the batches, and reports the estimates those rows give."""
import contextlib
import copy
import io
import math

import numpy as np
import torch

from dst.core import Scenario, Violation, check
from checks import train_common as tc


class Interrupted(RuntimeError):
    pass


class Loader:
    def __init__(self, items, fail_at, probe):
        self.items, self.fail_at, self.probe = items, fail_at, probe

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        for i, b in enumerate(self.items):
            if self.fail_at == i:
                self.probe.fault("data_loader_error")
                raise Interrupted("simulated")
            yield b


def close(a, b, tol=2e-6):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * (1 + abs(b))


class Data:
    """the logged rows of one evaluation set"""

    def __init__(self, case, key, episodes):
        g = tc.gen(key)
        A, M = case["A"], case["metrics"]
        ids = [(m, s) for m, seqs in episodes for s in seqs]
        n = len(ids)
        r = lambda *s: torch.randn(*s, generator=g, dtype=torch.float64)  # noqa
        self.ids, self.n = ids, n
        self.mdp = torch.tensor([[m] for m, _ in ids], dtype=torch.long).reshape(n, 1)
        self.seq = torch.tensor([[s] for _, s in ids], dtype=torch.long).reshape(n, 1)
        self.state, self.next_state, self.reward = r(n, tc.S), r(n, tc.S), r(n, 1) + case["shift"]
        self.mask, self.nmask = tc.rmask(g, n, A), tc.rmask(g, n, A)
        self.action = tc.one_hot(g, n, A, self.mask)
        self.naction = tc.one_hot(g, n, A, self.nmask)
        self.prob = torch.rand(n, 1, generator=g).double() * 0.9 + 0.1
        self.metrics = r(n, M) + case["shift"] if M else None

    def batch(self, rows):
        import reagent.types as rlt

        i = torch.tensor(rows, dtype=torch.long)
        one = torch.ones(len(rows), 1)
        return rlt.DiscreteDqnInput.from_dict({
            "state_features": self.state[i], "next_state_features": self.next_state[i], "reward": self.reward[i],
            "not_terminal": one.bool(), "time_diff": one.long(), "step": one.long(),
            "possible_actions_mask": self.mask[i], "possible_next_actions_mask": self.nmask[i], "action": self.action[i],
            "next_action": self.naction[i],
            "extras": rlt.ExtraData(mdp_id=self.mdp[i], sequence_number=self.seq[i], action_probability=self.prob[i],
                                    metrics=None if self.metrics is None else self.metrics[i])})


def expected(case, d, nets):
    """what the rows, in order, and the networks (in evaluation mode) give"""
    order = sorted(range(d.n), key=lambda i: d.ids[i])
    ix = torch.tensor(order)
    A, M, c = case["A"], case["metrics"], case["rl"]
    net = {k: copy.deepcopy(v).eval() for k, v in nets.items()}
    x = tc.f(d.state[ix])
    with torch.no_grad():
        q = net["q1_network" if case["algo"] == "crr" else "q_network"](x)
        if case["algo"] == "qrdqn":
            q = q.mean(2)
        rew, val = net["reward_network"](x), net["q_network_cpe"](x)
    a, mask = d.action[ix], d.mask[ix]
    r = d.reward[ix]
    if c["boost"]:
        r = r + (a * torch.tensor(c["boost"], dtype=torch.float64)).sum(1, keepdim=True)
    ids = [d.ids[i] for i in order]

    def discounted(v):
        out = v.clone()
        for i in range(len(ids)):
            for j in range(i + 1, len(ids)):
                if ids[j][0] != ids[i][0]:
                    break
                out[i] += c["gamma"] ** (ids[j][1] - ids[i][1]) * v[j]
        return out

    pi = tc.propensities(q, mask, c["temp"])
    e = {
        "mdp_id": d.mdp[ix], "sequence_number": d.seq[ix], "logged_propensities": d.prob[ix], "logged_rewards": r,
        "action_mask": a, "model_propensities": pi, "model_rewards": rew[:, :A],
        "model_rewards_for_logged_action": (rew[:, :A] * a).sum(1, keepdim=True), "model_values": val[:, :A],
        "model_values_for_logged_action": (val[:, :A] * a).sum(1, keepdim=True), "possible_actions_mask": mask,
        "optimal_q_values": q, "logged_values": discounted(r),
    }
    if M:
        m = d.metrics[ix]
        e.update(logged_metrics=m, logged_metrics_values=discounted(m), model_metrics=rew[:, A:],
                 model_metrics_values=val[:, A:])
    e["greedy"] = tc.masked_argmax(q, mask)
    return ids, e


def estimates(ids, gamma, r, w, pi, a, rew, val):
    """the published estimators, written out: name -> (raw, score of the logged policy)"""
    n = len(ids)
    r, w = r[:, 0], w[:, 0]
    pa = (pi * a).sum(1)
    rho = pa / w
    dm = (pi * rew).sum(1)
    out = {"direct_method": (dm.mean(), r.mean()), "inverse_propensity": ((rho * r).mean(), r.mean()),
           "doubly_robust": ((rho * (r - (rew * a).sum(1)) + dm).mean(), r.mean())}
    eps = []
    for i in range(n):
        if i and ids[i][0] == ids[i - 1][0]:
            eps[-1].append(i)
        else:
            eps.append([i])
    V, Q = (pi * val).sum(1), (val * a).sum(1)
    dr, ret = [], []
    for e in eps:
        x = y = 0.0
        for t in reversed(e):
            x = float(V[t] + rho[t] * (r[t] + gamma * x - Q[t]))
            y = float(r[t]) + gamma * y
        dr.append(x)
        ret.append(y)
    out["sequential_doubly_robust"] = (np.mean(dr), np.mean(ret))
    L, N = max(map(len, eps)), len(eps)
    W = np.zeros((N, L))
    for i, e in enumerate(eps):
        x = 1.0
        for t in range(L):
            x *= float(rho[e[t]]) if t < len(e) else 0.0
            W[i, t] = x
    tot = W.sum(0)
    for t in range(L):
        W[:, t] = W[:, t] / tot[t] if tot[t] != 0 else 1.0 / N

    def step_return(j):
        j, s = min(j, L - 1), 0.0
        for i, e in enumerate(eps):
            for t in range(min(j, len(e) - 1) + 1):
                before = W[i, t - 1] if t else 1.0 / N
                s += gamma ** t * (W[i, t] * float(r[e[t]] - Q[e[t]]) + before * float(V[e[t]]))
            if j + 1 < len(e):
                s += gamma ** (j + 1) * (W[i, j] if j >= 0 else 1.0 / N) * float(V[e[j + 1]])
        return s

    steps = [step_return(j) for j in range(-1, L)]
    out["weighted_doubly_robust"] = (steps[-1], np.mean(ret))
    out["magic"] = (min(steps), max(steps), np.mean(ret))
    return out, len(eps), L


class V01(Scenario):
    id = "V01"
    runs = {"quick": 700, "thorough": 30000}
    rule = ("a case is a trainer with off-policy evaluation and a list of training and evaluation sessions; the rows of each "
            "evaluation set are dealt to batches in a drawn order; non-trivial when a set of two batches or more was evaluated")
    components = {"real": ["DQN, QR-DQN, CRR trainers' test_step/test_epoch_end", "EvaluationDataPage", "Evaluator and its estimators",
                           "pl.Trainer test and fit loops", "networks"],
                  "stub": ["data loader: in memory", "MAGIC estimator in most runs (its numerical optimiser takes seconds)"]}
    assumptions = ["float64 networks; importance weights pass through float32: compared to 2e-6 relative"]

    def setup(self):
        tc.setup()

    def plan(self, rng, index, tier):
        while True:
            case = tc.plan_algo(rng)
            if case["algo"] in ("dqn", "qrdqn", "crr"):
                break
        case.pop("bcq", None)
        case.update(cpe=True, metrics=rng.choice([0, 1, 2, 3]), as_dict=False, shift=rng.choice([-1.0, 0.0, 1.0]),
                    dropout=rng.choice([0.0, 0.0, 0.5]))
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            if ops and rng.random() < 0.3:
                ops.append(["fit", rng.choice([1, 2, 4])])
                continue
            k = rng.choice([1, 2, 3, 5, 8])
            base = rng.choice([0, 2 ** 62, -(2 ** 40)])
            mdps = rng.sample(range(base, base + 2 * k), k)
            eps = []
            for m in mdps:
                L = rng.choice([1, 1, 2, 3, 5])
                s0 = rng.choice([0, 1, 9, 2 ** 40])
                eps.append([m, sorted(rng.sample(range(s0, s0 + (L if rng.random() < 0.5 else 3 * L)), L))])
            if sum(len(e[1]) for e in eps) < 2:
                eps[0][1].append(eps[0][1][-1] + 1)
            n = sum(len(e[1]) for e in eps)
            rows = list(range(n))
            if rng.random() < 0.8:
                rng.shuffle(rows)
            batches, style = [], rng.choice(["any", "ones", "all", "small"])
            while rows:
                m = {"any": rng.randint(1, n), "ones": 1, "all": n, "small": rng.randint(1, 3)}[style]
                batches.append(rows[:m])
                rows = rows[m:]
            fault = None
            if rng.random() < 0.35:
                fault = rng.choice([["data", rng.randrange(len(batches))], ["forward", rng.randrange(4 * len(batches))],
                                    ["interrupt", rng.randrange(4 * len(batches))], ["duplicate", rng.randrange(n)]])
            real = "none"
            if fault is None and rng.random() < 0.45:
                real = "magic" if k >= 8 and rng.random() < 0.12 else "estimators"
            ops.append(["eval", eps, batches, rng.choice(["pl", "direct", "direct_training"]), fault, real])
        case["ops"] = ops
        return case

    def nontrivial(self, case, probe):
        return probe.hits["multi_batch_evaluations"] > 0

    def shrink(self, case):
        for i in range(len(case["ops"])):
            if len(case["ops"]) > 1:
                c = copy.deepcopy(case)
                del c["ops"][i]
                yield c
        for i, op in enumerate(case["ops"]):
            if op[0] != "eval":
                continue
            for e in range(len(op[1])):
                for s in range(len(op[1][e][1])):
                    c = copy.deepcopy(case)
                    eps = c["ops"][i][1]
                    del eps[e][1][s]
                    eps = [x for x in eps if x[1]]
                    n = sum(len(x[1]) for x in eps)
                    if n < 2:
                        continue
                    c["ops"][i][1] = eps
                    b = [[r for r in rows if r < n] for rows in op[2]]
                    c["ops"][i][2] = [x for x in b if x]
                    yield c
            if len(op[2]) > 1:
                c = copy.deepcopy(case)
                c["ops"][i][2] = [op[2][0] + op[2][1]] + op[2][2:]
                yield c
            for j, v in ((3, "direct"), (4, None), (5, "none")):
                if op[j] != v:
                    c = copy.deepcopy(case)
                    c["ops"][i][j] = v
                    yield c
        for k, v in (("metrics", 0), ("dropout", 0.0), ("q2", False), ("double", False)):
            if case.get(k) and case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        if case["rl"]["boost"]:
            c = copy.deepcopy(case)
            c["rl"]["boost"] = None
            yield c

    # ---------------------------------------------------------------- run
    def run(self, case, probe):
        import pytorch_lightning as pl
        from reagent.core.observers import ValueListObserver
        from reagent.tensorboardX import SummaryWriterContext

        algo = tc.ALGOS[case["algo"]]
        seed = case["seed"] % 100000
        tc.NET["dropout"] = case["dropout"]
        try:
            module, twin = algo.build(case, seed), algo.build(case, seed)
        finally:
            tc.NET["dropout"] = 0.0
        twin.load_state_dict(module.state_dict())
        nets = algo.tracked(module)
        SummaryWriterContext._reset_globals()
        st = {"page": None, "calls": 0, "details": None, "real": "none", "left": None, "kind": None}
        real_eval = module.evaluator.evaluate_post_training
        obs = ValueListObserver("cpe_details")
        module.evaluator.add_observer(obs)

        def capture(page):
            st["calls"] += 1
            st["page"] = page
            if st["real"] == "none":
                from reagent.evaluation.cpe import CpeDetails

                return CpeDetails()
            st["details"] = real_eval(page)
            return st["details"]

        module.evaluator.evaluate_post_training = capture
        wdr = module.evaluator.weighted_sequential_doubly_robust_estimator
        real_wdr = wdr.estimate

        def estimate(edp, num_j_steps, whether_self_normalize_importance_weights):
            if num_j_steps > 1 and st["real"] != "magic":
                from reagent.evaluation.cpe import CpeEstimate

                return CpeEstimate(0.0, 0.0, 0.0, 0.0)
            return real_wdr(edp, num_j_steps=num_j_steps,
                            whether_self_normalize_importance_weights=whether_self_normalize_importance_weights)

        wdr.estimate = estimate

        def hook(*a):
            if st["left"] is None:
                return
            if st["left"] == 0:
                st["left"] = None
                probe.fault("network_error" if st["kind"] == "forward" else "interrupt")
                raise (Interrupted if st["kind"] == "forward" else KeyboardInterrupt)("simulated")
            st["left"] -= 1

        for k, m in nets.items():
            m.register_forward_pre_hook(hook)

        def pltrainer(**kw):
            return pl.Trainer(logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None, **kw)

        quiet = lambda: contextlib.redirect_stdout(io.StringIO())  # noqa
        for oi, op in enumerate(case["ops"]):
            torch.manual_seed(seed + oi)
            np.random.seed(seed + oi)
            if op[0] == "fit":
                for m in (module, twin):
                    torch.manual_seed(seed + oi)
                    tc.NOISE["key"] = (seed, oi)
                    before = SummaryWriterContext._global_step
                    with quiet(), contextlib.redirect_stderr(io.StringIO()):
                        try:
                            pltrainer(max_epochs=1).fit(m, Loader([algo.batch(case, (seed, oi, i)) for i in range(op[1])], None, probe))
                        except Exception as e:
                            raise Violation("training-failed", "op %d: %s: %s" % (oi, type(e).__name__, str(e)[:300]))
                SummaryWriterContext._global_step = before + op[1]
                a, b = module.state_dict(), twin.state_dict()
                bad = [k for k in b if not torch.equal(a[k], b[k])]
                check(not bad, "evaluation-changes-training",
                      lambda: "op %d: training after evaluations differs from training without them: %s" % (oi, bad[:4]))
                probe.hit("trainings")
                continue
            _, episodes, batches, mode, fault, real = op
            d = Data(case, (seed, oi), episodes)
            dealt = [list(b) for b in batches]
            if fault and fault[0] == "duplicate":
                dealt[-1].append(fault[1] % d.n)
            data, keep = [d.batch(b) for b in dealt], [d.batch(b) for b in dealt]
            before = {k: v.clone() for k, v in module.state_dict().items()}
            module.train(mode != "direct")
            flags = {k: m.training for k, m in nets.items()}
            step = SummaryWriterContext._global_step
            st.update(page=None, calls=0, details=None, real=real, left=None, kind=None)
            if fault and fault[0] in ("forward", "interrupt"):
                st.update(left=fault[1], kind=fault[0])
            nobs = len(obs.values)
            loader = Loader(data, fault[1] if fault and fault[0] == "data" else None, probe)
            err = None
            try:
                with quiet(), contextlib.redirect_stderr(io.StringIO()):
                    if mode == "pl":
                        pltrainer().test(module, loader, verbose=False)
                    else:
                        outs = []
                        for i, b in enumerate(loader):
                            outs.append(module.test_step(b, i))
                        module.test_epoch_end(outs)
            except (Interrupted, KeyboardInterrupt) as e:
                err = e
            except Violation:
                raise
            except Exception as e:
                err = e
                if tc_debug():
                    raise
            hit = fault and (fault[0] in ("data", "duplicate") or st["left"] is None)
            st["left"] = None
            where = "op %d (%s, %d rows in %d batches)" % (oi, mode, d.n, len(dealt))
            after = module.state_dict()
            bad = [k for k in before if not torch.equal(before[k], after[k])]
            check(not bad, "evaluation-changes-network", lambda: "%s: %s" % (where, bad[:4]))
            check(SummaryWriterContext._global_step == step, "evaluation-changes-step", where)
            for i in range(len(data)):
                a, b = flat(data[i]), flat(keep[i])
                bad = [k for k in b if k not in a or a[k].shape != b[k].shape or not torch.equal(a[k], b[k])]
                check(not bad, "batch-modified", lambda: "%s: evaluation modified the batch in place: %s" % (where, bad))
            if hit:
                if fault[0] == "duplicate":
                    probe.fault("duplicated_row")
                check(err is not None and st["calls"] == 0, "fault-unnoticed" if err is None else "evaluated-despite-fault",
                      lambda: "%s: %s, %d evaluations" % (where, fault, st["calls"]))
                if fault[0] != "duplicate":
                    check(isinstance(err, (Interrupted, KeyboardInterrupt)), "wrong-error",
                          lambda: "%s: %s became %s: %s" % (where, fault, type(err).__name__, str(err)[:200]))
                probe.event("faulted", oi, fault)
                probe.state("fault", case["algo"], fault[0], mode, min(fault[1], 8))
                continue
            if err is not None:
                raise Violation("evaluation-failed", "%s: %s: %s" % (where, type(err).__name__, str(err)[:300]))
            if mode != "pl":
                bad = [k for k, m in nets.items() if m.training != flags[k]]
                check(not bad, "mode-not-restored", lambda: "%s: %s" % (where, bad))
            check(st["calls"] == 1, "evaluations", lambda: "%s: evaluated %d times" % (where, st["calls"]))
            ids, e = expected(case, d, nets)
            self.compare(case, where, e, st["page"])
            if real != "none":
                self.estimates(case, probe, where, ids, e, st["details"], real)
                check(len(obs.values) == nobs + 1 and obs.values[-1] is st["details"], "observers", where)
            probe.hit("evaluations")
            probe.hit("evaluated_rows", d.n)
            if len(dealt) > 1:
                probe.hit("multi_batch_evaluations")
            probe.event("page", oi, [round(float(e["logged_values"].sum()), 6), round(float(e["model_values"].sum()), 6)])
            probe.state(case["algo"], mode, tuple(map(len, batches)), tuple(len(x[1]) for x in episodes), real, case["metrics"])

    def compare(self, case, where, e, page):
        n = len(e["mdp_id"])
        for k in ("mdp_id", "sequence_number"):
            got = getattr(page, k)
            check(got is not None and got.reshape(-1).tolist() == e[k].reshape(-1).tolist(), "rows",
                  lambda: "%s: %s of the evaluated rows are %s, logged %s" % (where, k, got.reshape(-1).tolist()[:12], e[k].reshape(-1).tolist()[:12]))
        for k, v in e.items():
            if k in ("mdp_id", "sequence_number", "greedy"):
                continue
            got = getattr(page, k)
            check(got is not None and tuple(got.shape) == tuple(v.shape), "page-shape", lambda: "%s: %s" % (where, k))
            d = (got.double() - v.double()).abs() - 2e-6 * (1 + v.abs())
            check(bool((d <= 0).all()), "page-" + k, lambda: "%s: %s of row %d is %s, expected %s" % (
                where, k, int(d.max(1)[0].argmax()), got[int(d.max(1)[0].argmax())].tolist(), v[int(d.max(1)[0].argmax())].tolist()))
        if not case["metrics"]:
            check(page.logged_metrics is None, "page-metrics", where)

    def estimates(self, case, probe, where, ids, e, det, real):
        A, M, gamma = case["A"], case["metrics"], case["rl"]["gamma"]

        def one(name, got, r, rew, val):
            exp, neps, L = estimates(ids, gamma, r, e["logged_propensities"], e["model_propensities"], e["action_mask"], rew, val)
            for k, v in exp.items():
                g = getattr(got, k)
                if k == "magic":
                    if real != "magic" or neps < 8:
                        continue
                    lo, hi, logged = v
                    t = 1e-5 * (1 + abs(lo) + abs(hi))
                    check(lo - t <= g.raw <= hi + t, "estimate-magic", lambda: "%s %s: %s outside [%s, %s]" % (where, name, g.raw, lo, hi))
                    probe.hit("magic_estimates")
                    raw = g.raw
                else:
                    raw, logged = float(v[0]), float(v[1])
                    check(close(g.raw, raw), "estimate-" + k, lambda: "%s %s: %s, expected %s" % (where, name, g.raw, raw))
                if abs(logged) > 1e-4:
                    norm = raw / logged if logged > 0 else 0.0
                    check(close(g.normalized, norm, 2e-5), "estimate-normalized-" + k,
                          lambda: "%s %s: %s, expected %s" % (where, name, g.normalized, norm))
            probe.hit("estimate_sets")

        one("reward", det.reward_estimates, e["logged_rewards"], e["model_rewards"], e["model_values"])
        check(sorted(det.metric_estimates) == ["m%d" % i for i in range(M)], "metric-estimates",
              lambda: "%s: estimates for %s" % (where, sorted(det.metric_estimates)))
        for i in range(M):
            sl = slice(i * A, (i + 1) * A)
            one("m%d" % i, det.metric_estimates["m%d" % i], e["logged_metrics"][:, i:i + 1], e["model_metrics"][:, sl],
                e["model_metrics_values"][:, sl])
        q, n = e["optimal_q_values"], len(ids)
        for i in range(A):
            k = "a%d" % i
            check(close(det.q_value_means[k], q[:, i].mean()) and close(det.q_value_stds[k], q[:, i].std(), 1e-5), "q-value-statistics", where)
            check(close(det.action_distribution[k], float((e["greedy"] == i).sum()) / n), "action-distribution",
                  lambda: "%s: %s" % (where, det.action_distribution))
        mc = ((e["logged_values"] - e["model_values_for_logged_action"]) ** 2).mean()
        check(close(det.mc_loss, mc, 1e-5), "mc-loss", lambda: "%s: %s, expected %s" % (where, det.mc_loss, float(mc)))


def tc_debug():
    import os

    return os.environ.get("DST_DEBUG") == "2"


def flat(x):
    from checks.t01 import flat as fl

    return fl(x)


SCENARIO = V01()
