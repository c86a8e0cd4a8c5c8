"""Batch driver:  cli.py --property R01 --tier quick | --replay FILE | --digest N"""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from dst import core  # noqa: E402

SOFT_WALL = {"quick": 330.0, "thorough": 3 * 3600.0}


def load(prop):
    # forked workers of one check may not multiply the thread pools
    mod = importlib.import_module("checks.%s" % prop.lower())
    scn = mod.SCENARIO
    assert scn.id == prop, (scn.id, prop)
    return scn


def known_for(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == prop]


def is_known(known, payload):
    for k in known:
        if k["class"] == payload["cls"]:
            want = k.get("data") or {}
            if all(payload.get("data", {}).get(a) == b for a, b in want.items()):
                return k
    return None


def _worker(scn, seed, tier, indices, deadline, conn, known, stopflag):
    try:
        agg = {
            "runs": 0, "nontrivial": 0, "steps": 0, "simtime": 0.0,
            "faults": Counter(), "hits": Counter(), "states": set(),
            "digests": set(), "viol": [], "known": Counter(), "harness": None,
            "samples": [],
        }
        scn.setup()
        for i in indices:
            if time.time() > deadline or stopflag.value:
                break
            rng = core.run_rng(seed, scn.id, i)
            case = scn.plan(rng, i, tier)
            case.setdefault("seed", rng.getrandbits(48))
            # a case must survive a round trip, or its replay would differ
            case = json.loads(json.dumps(case))
            st, pl, probe = core.run_case(scn, case)
            agg["runs"] += 1
            agg["steps"] += probe.steps
            agg["simtime"] += probe.simtime
            agg["faults"].update(probe.faults)
            agg["hits"].update(probe.hits)
            agg["states"] |= probe.states
            d = probe.digest()
            if scn.nontrivial(case, probe) and d not in agg["digests"]:
                agg["nontrivial"] += 1
                agg["digests"].add(d)
                if len(agg["samples"]) < 1:
                    agg["samples"].append(
                        {"index": i, "case": scn.sample(case), "faults": dict(probe.faults)}
                    )
            if st == "violation":
                k = is_known(known, pl)
                if k:
                    agg["known"][k["id"]] += 1
                else:
                    agg["viol"].append((i, case, pl))
                    if len(agg["viol"]) >= 3:
                        stopflag.value = 1
                        break
            elif st == "harness":
                agg["harness"] = (i, pl)
                stopflag.value = 1
                break
        scn.teardown()
        conn.send(agg)
    except BaseException:
        try:
            conn.send({"harness": (-1, traceback.format_exc()), "dead": True})
        except Exception:
            pass
    finally:
        conn.close()


def batch(scn, seed, tier, nruns, nworkers, known, wall):
    ctx = mp.get_context("fork")
    stop = ctx.Value("i", 0)
    deadline = time.time() + wall
    procs = []
    for w in range(nworkers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(
            target=_worker,
            args=(scn, seed, tier, range(w, nruns, nworkers), deadline, b, known, stop),
        )
        p.start()
        b.close()
        procs.append((p, a))
    out = []
    for p, a in procs:
        try:
            while not a.poll(1.0):
                if time.time() > deadline + 120:
                    for q, _ in procs:
                        q.kill()
                    raise core.HarnessError("a worker did not stop")
            out.append(a.recv())
        except EOFError:
            out.append({"harness": (-1, "worker died without an answer"), "dead": True})
        p.join(20)
        if p.is_alive():
            p.kill()
    return out


def write_replay(prop, seed, tier, index, case, pl, evals, original_ops):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, seed, index))
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop, "verif_seed": seed, "tier": tier, "run_index": index,
                "violation": {"class": pl["cls"], "message": pl["msg"]},
                "minimised": {"evaluations": evals, "original_ops": original_ops,
                              "ops": len(case.get("ops", []))},
                "case": case,
            },
            f, indent=1,
        )
    return path


def replay(path, quiet=False):
    with open(path) as f:
        data = json.load(f)
    scn = load(data["property"])
    scn.setup()
    st, pl, probe = core.run_case(scn, data["case"], keep_log=True)
    scn.teardown()
    if not quiet:
        for line in probe.log[-60:]:
            print("  ", line[:300])
    if st == "violation":
        print("REPLAY class=%s digest=%s %s" % (pl["cls"], probe.digest(), pl["msg"][:600]))
        if pl["cls"] == data["violation"]["class"]:
            print("VIOLATION property=%s replay=%s" % (data["property"], path))
            return 1
        return 3
    if st == "harness":
        print(pl)
        return 2
    print("REPLAY ok digest=%s" % probe.digest())
    return 0


def fresh_replay(path):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "77"
    return subprocess.run(
        [sys.executable, os.path.abspath(__file__), "--replay", path, "--quiet"],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240,
    )


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--quiet", action="store_true")
    ap.add_argument("--digest", type=int, help="print the digests of the first N runs")
    args = ap.parse_args()

    if args.replay:
        return replay(args.replay, args.quiet)

    t0 = time.time()
    scn = load(args.property)
    if args.digest:
        scn.setup()
        for i in range(args.digest):
            rng = core.run_rng(args.seed, scn.id, i)
            case = scn.plan(rng, i, args.tier)
            case.setdefault("seed", rng.getrandbits(48))
            case = json.loads(json.dumps(case))
            st, pl, probe = core.run_case(scn, case)
            print(i, st, probe.digest(), (pl["cls"] if st == "violation" else ""))
            if st == "harness":
                print(pl)
        scn.teardown()
        return 0

    print("verif_seed=%d property=%s tier=%s" % (args.seed, scn.id, args.tier), flush=True)
    known = known_for(scn.id)
    nruns = args.runs or scn.runs[args.tier]
    nworkers = args.workers or min(8, os.cpu_count() or 1, nruns)
    wall = args.wall or SOFT_WALL[args.tier]
    scn.setup()  # imports happen once, workers are forked from here
    setup_s = time.time() - t0
    parts = batch(scn, args.seed, args.tier, nruns, nworkers, known, wall)
    batch_s = time.time() - t0 - setup_s

    viols = sorted((v for p in parts if not p.get("dead") for v in p["viol"]), key=lambda v: v[0])
    harness = [p["harness"] for p in parts if p.get("harness")]

    def tot(k):
        return sum(p[k] for p in parts if not p.get("dead"))

    faults, hits, knownhits = Counter(), Counter(), Counter()
    states, digests, samples = set(), set(), []
    for p in parts:
        if p.get("dead"):
            continue
        faults.update(p["faults"])
        hits.update(p["hits"])
        knownhits.update(p["known"])
        states |= p["states"]
        digests |= p["digests"]
        samples += p["samples"]
    runs = tot("runs")

    status = 0
    lines = []
    nviol = 0
    for k in known:
        if k.get("replay"):
            r = fresh_replay(os.path.join(VERIF, k["replay"]))
            if r.returncode == 1:
                lines.append("KNOWN-FINDING: property=%s %s" % (scn.id, k["what"]))
        elif knownhits.get(k["id"]):
            lines.append("KNOWN-FINDING: property=%s %s" % (scn.id, k["what"]))

    if viols:
        done = False
        tried = set()
        for idx, case, pl in viols:
            if pl["cls"] in tried or len(tried) >= 4:
                continue
            tried.add(pl["cls"])
            small, evals = core.minimise(scn, case, pl["cls"])
            st, pl2, _ = core.run_case(scn, small)
            if st != "violation":
                small, pl2 = case, pl
            path = write_replay(scn.id, args.seed, args.tier, idx, small, pl2, evals, len(case.get("ops", [])))
            r = fresh_replay(path)
            if r.returncode != 1:
                path = write_replay(scn.id, args.seed, args.tier, idx, case, pl, 0, len(case.get("ops", [])))
                r = fresh_replay(path)
            if r.returncode == 1:
                print("violated: [%s] %s" % (pl2["cls"], pl2["msg"][:800]))
                print("VIOLATION property=%s replay=%s" % (scn.id, path), flush=True)
                nviol += 1
                done = True
                break
            print("replay of run %d did not reproduce:\n%s\n%s" % (
                idx, r.stdout.decode()[-1500:], r.stderr.decode()[-1500:]), file=sys.stderr)
        status = 1 if done else 2
    elif harness:
        for i, tb in harness[:2]:
            print("HARNESS ERROR in run %s:\n%s" % (i, tb), file=sys.stderr)
        status = 2
    elif runs < nruns and args.tier == "quick" and runs < 0.2 * nruns:
        print("only %d of %d runs fitted in the wall budget" % (runs, nruns), file=sys.stderr)
        status = 2

    for ln in lines:
        print(ln)
    wall_s = time.time() - t0
    ev = {
        "property": scn.id,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": args.seed,
        "level": scn.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(digests),
            "rule": scn.rule,
            "samples": [samples[j] for j in range(min(3, len(samples)))] or ["(no run completed)"],
            "simulated_runs_planned": nruns,
            "runs_per_hour": round(runs / max(batch_s, 1e-6) * 3600),
            "simulated_time_s": round(tot("simtime"), 3),
            "events": tot("steps"),
            "distinct_states": len(states),
            "distinct_event_logs": len(digests),
            "faults_injected": dict(sorted(faults.items())),
            "reach_probes": dict(sorted(hits.items())),
            "workers": nworkers,
            "components": scn.components,
            "known_findings_seen": dict(knownhits),
        },
        "assumptions": list(scn.assumptions),
        "wall_s": round(wall_s, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", scn.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print("%s: %d runs, %d distinct, %d states, faults=%s, probes=%s, %.1fs -> exit %d" % (
        scn.id, runs, len(digests), len(states), dict(sorted(faults.items())),
        dict(sorted(hits.items())), wall_s, status))
    scn.teardown()
    return status


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
