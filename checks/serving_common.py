"""The serving simulator seen from Python: build, feed cases, reference semantics."""
import json
import os
import subprocess

from dst.core import HarnessError, Scenario, Violation, check

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")
STATE = {"exe": None, "pid": None, "proc": None}


def build():
    if STATE["exe"] is None:
        import importlib.util

        spec = importlib.util.spec_from_file_location("ssbuild", os.path.join(HERE, "serving_sim", "build.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        STATE["exe"] = m.build(BUILD)
    return STATE["exe"]


def proc():
    if STATE["proc"] is None or STATE["pid"] != os.getpid() or STATE["proc"].poll() is not None:
        STATE["proc"] = subprocess.Popen([STATE["exe"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        STATE["pid"] = os.getpid()
    return STATE["proc"]


def simulate(case):
    p = proc()
    p.stdin.write(json.dumps(case).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError("the simulator is gone")
    return json.loads(line)


def stop():
    if STATE["proc"] is not None and STATE["pid"] == os.getpid():
        STATE["proc"].stdin.close()
        STATE["proc"].wait()
    STATE["proc"] = None


def digest(name):
    h = 0
    for c in name.encode():
        h = (h * 131 + c) % 1000003
    return h


def simop(name, rid, inputs):
    """value of a SimOp given its numeric inputs by input name"""
    v = digest(name)
    for k, key in enumerate(sorted(inputs), 1):
        v = (v + k * int(inputs[key])) % 1000003
    return (v * 31 + digest(rid)) % 1000003


def simrank(v):
    return [dict(name="a%d" % (v % 7), propensity=0.25), dict(name="b", propensity=v / 1000003)]


def num(value):
    """the number inside {"map_double_value": {"v": x}} or None"""
    m = value.get("map_double_value")
    if not isinstance(m, dict) or "v" not in m:
        return None
    return m["v"]


class Bad(Exception):
    """the request cannot be answered"""


def evaluate(config, req, rid):
    """reference evaluation of a plan of simulated operators: {op: number}; raises Bad"""
    ops = {o["name"]: o for o in config["operators"]}
    consts = {c["name"]: c["value"] for c in config["constants"]}
    for o in config["operators"]:
        for d in o["input_dep_map"].values():
            if d not in ops and d not in consts and d != "input":
                raise Bad("unknown dependency " + d)
    vals, failed = {}, set()

    def value(name):
        if name in ops:
            if name in failed:
                return None
            if name not in vals:
                ins = {}
                for k, d in ops[name]["input_dep_map"].items():
                    if d in ops:
                        x = value(d)
                        if x is None or ops[d]["op_name"] == "SimRank":
                            failed.add(name)
                            return None
                    elif d in consts:
                        x = num(consts[d])
                    else:
                        x = num(req.get("input", {}))
                    if x is None:
                        failed.add(name)
                        return None
                    ins[k] = x
                vals[name] = simop(name, rid, ins)
            return vals[name]
        return None

    for o in ops:
        value(o)
    if failed:
        raise Bad("operators without input: %s" % sorted(failed))
    return vals


def fold(res, probe):
    """account for what a simulation did; raise what it found by itself"""
    probe.simtime += res.get("simtime_us", 0) / 1e6
    probe.steps += res.get("steps", 0)
    probe.hit("memory_accesses_checked", res.get("accesses", 0))
    probe.hit("tasks", res.get("tasks", 0))
    probe.hit("thread_switches", res.get("switches", 0))
    for e in res["events"]:
        if e["ev"] != "final":
            probe.event(e["ev"], json.dumps(e, sort_keys=True))
    if "viol" in res:
        c, m = res["viol"]
        if c == "harness":
            raise HarnessError(m)
        raise Violation(c, m)


def crashed(res):
    return res.get("dead")


class ServingScenario(Scenario):
    components = {
        "real": "reagent/serving: core, operators, cli/Server.cpp request handlers, compiled from /repo with access instrumentation",
        "simulated": "threads, mutexes, condition variables, clocks, random_device/rand, memory (use after free, happens-before races)",
        "stub": "cpp-taskflow executor, glog, gflags, exprtk (expression language), Simple-Web-Server transport, PyTorch scorer",
    }

    def setup(self):
        build()

    def teardown(self):
        stop()
