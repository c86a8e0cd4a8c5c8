"""E01: distributed evolution strategies: all machines hold the same parent, updated from everybody's rewards."""
import copy
import random

import torch

from dst.core import HarnessError, Scenario, Violation, check
from dst.nodes import Sched

NOW = {}


class Fail(RuntimeError):
    pass


class SimGroup:
    """a process group: collectives complete when all members have arrived, in whatever order"""

    def __init__(self, w, name, members):
        self.w, self.name, self.members = w, name, members
        self.rounds = {}
        self.count = {m: 0 for m in members}

    def size(self):
        return len(self.members)

    def collective(self, kind, value, combine):
        w = self.w
        me = w.sched.current.name
        if me not in self.members:
            raise Fail("%s is not a member of %s" % (me, self.name))
        k = self.count[me]
        self.count[me] += 1
        r = self.rounds.setdefault(k, dict(kind=kind, got={}, fail=False, out=None))
        if r["kind"] != kind:
            raise Fail("mismatched collectives %s and %s" % (r["kind"], kind))
        r["got"][me] = value
        w.probe.event(kind, self.name, k, me)
        if w.collective_fails(self, k, len(r["got"])):
            r["fail"] = True
            w.probe.fault("collective_failed")
        w.sched.pause(lambda: r["fail"] or len(r["got"]) == len(self.members))
        if r["fail"]:
            return None
        if r["out"] is None:
            r["out"] = combine(list(r["got"].values()))
        return r["out"]


def install():
    import torch.distributed as d

    def group_of(group):
        if group is None or group is getattr(d.group, "WORLD", None):
            return NOW["w"].world_group
        if not isinstance(group, SimGroup):
            raise TypeError("not a process group: %r" % (group,))
        return group

    def all_reduce(tensor, op=d.ReduceOp.SUM, group=None, async_op=False):
        if op not in (d.ReduceOp.SUM, d.ReduceOp.AVG, d.ReduceOp.MAX, d.ReduceOp.MIN, d.ReduceOp.PRODUCT):
            raise TypeError("incompatible function arguments: op=%r" % (op,))
        g = group_of(group)

        def combine(ts):
            s = torch.stack(ts)
            if op == d.ReduceOp.SUM:
                return s.sum(0)
            if op == d.ReduceOp.AVG:
                return s.mean(0)
            if op == d.ReduceOp.MAX:
                return s.max(0).values
            if op == d.ReduceOp.MIN:
                return s.min(0).values
            return s.prod(0)

        out = g.collective("all_reduce", tensor.detach().clone(), combine)
        if out is None:
            tensor.fill_(float("nan"))  # undefined contents
            raise Fail("all_reduce failed")
        tensor.copy_(out)

    def all_gather(tensor_list, tensor, group=None, async_op=False):
        g = group_of(group)
        me = NOW["w"].sched.current.name
        out = g.collective("all_gather", (g.members.index(me), tensor.detach().clone()), sorted_values)
        if out is None:
            raise Fail("all_gather failed")
        for t, o in zip(tensor_list, out):
            t.copy_(o)

    def sorted_values(vs):
        return [v for _, v in sorted(vs, key=lambda x: x[0])]

    def barrier(group=None, *a, **kw):
        if group_of(group).collective("barrier", 0, lambda v: v) is None:
            raise Fail("barrier failed")

    d.all_reduce, d.all_gather, d.barrier = all_reduce, all_gather, barrier
    d.get_world_size = lambda group=None: group_of(group).size()
    d.get_rank = lambda group=None: group_of(group).members.index(NOW["w"].sched.current.name)
    d.is_initialized = lambda: True


def close(a, b, tol=2e-3):
    return bool(((a.double() - b.double()).abs() <= tol * (1 + b.double().abs())).all())


class Job:
    """one training job: its machines, and a reference of what they should hold"""

    def __init__(self, w, k, spec):
        self.w, self.k, self.spec = w, k, spec
        self.names = ["j%d.n%d" % (k, i) for i in range(spec["nodes"])]
        self.group = SimGroup(w, "j%d" % k, self.names)
        self.parents = {}  # (epoch, node) -> tensors
        self.children = {}
        self.returned = {}
        self.target = {n: torch.tensor([((i * 7 + 3 * j + k) % 11 - 5) / 3.0 for i in range(prod(s))]).reshape(s)
                       for j, (n, s) in enumerate(spec["tensors"])}

    def value(self, individual, node, epoch):
        # environments may become more or less generous
        return self.plain(individual, node) * self.spec["scales"][epoch % len(self.spec["scales"])]

    def plain(self, individual, node):
        s = 0.0
        for n, t in individual.items():
            s += float(-((t.double() - self.target[n].double()) ** 2).sum()) * (1 + 0.25 * node)
        if self.spec["reward"] == "flat":
            return 3.0
        if self.spec["reward"] == "steps":
            return float(int(s * 2) / 2.0)
        return s


def prod(s):
    p = 1
    for x in s:
        p *= x
    return p


def pool_class():
    from reagent.training.gradient_free.evolution_pool import EvolutionPool

    class Pool(EvolutionPool):
        def compute_local_reward(self, individual):
            job, node, st = self.sim
            if individual is not self.parent_tensors:
                f = job.spec["faults"]
                i = st["i"]
                st["i"] += 1
                for x in f:
                    if x[0] == "reward" and x[1] == st["epoch"] and x[2] == node and x[3] == i and id(x) not in st["seen"]:
                        st["seen"].add(id(x))
                        job.w.probe.fault("environment_failed")
                        raise Fail("environment")
            if job.spec["draws"]:
                torch.randn(1 + (st["i"] * 5 + node) % 4)  # the environment uses the generator too
            if job.spec["pauses"]:
                job.w.sched.pause()
            r = job.value(individual, node, st["epoch"])
            return torch.tensor(r) if job.spec["as_tensor"] else r

    return Pool


class World:
    def __init__(self, case, probe):
        self.case, self.probe = case, probe
        self.rng = random.Random(case["seed"])
        self.sched = Sched(self.rng, probe)
        self.failed = set()

    def collective_fails(self, group, k, arrived):
        j = int(group.name[1:]) if group.name != "world" else None
        if j is None:
            return False
        for x in self.case["jobs"][j]["faults"]:
            if x[0] == "collective" and x[1] == k and x[2] % group.size() == arrived - 1:
                return True
        return False


def snap(d):
    return {k: v.detach().clone() for k, v in d.items()}


class E01(Scenario):
    id = "E01"
    runs = {"quick": 2500, "thorough": 60000}
    rule = ("a case is one or two jobs (machines, population, tensors, epochs), with drawn interleavings of the machines and "
            "failures of environments and collectives; non-trivial when at least two epochs were applied")
    components = {"real": ["EsWorker", "EvolutionPool (population, gradient estimate, Adam)"],
                  "stub": ["machines: threads taking turns, each with its own random generator state",
                           "torch.distributed collectives", "the environment: a reward function per machine"]}
    assumptions = ["after a failed collective or environment a machine calls run_epoch again"]

    def setup(self):
        import logging

        logging.disable(logging.CRITICAL)
        import reagent_compat  # noqa
        import sys
        import types

        for m in ("torch.fb", "torch.fb.rendezvous", "torch.fb.rendezvous.zeus"):
            sys.modules.setdefault(m, types.ModuleType(m))
        torch.set_num_threads(1)
        install()
        self.pool = pool_class()

    def plan(self, rng, index, tier):
        jobs = []
        for k in range(rng.choice([1, 1, 1, 2])):
            epochs = rng.choice([2, 3, 4, 6, 10 if rng.random() < 0.3 else 4])
            nodes = rng.choice([1, 2, 2, 3, 4, 5])
            pop = rng.choice([2, 3, 5, 8, 13])
            faults = []
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                if rng.random() < 0.5:
                    faults.append(["collective", rng.randrange(epochs), rng.randrange(nodes)])
                else:
                    faults.append(["reward", rng.randrange(epochs), rng.randrange(nodes), rng.randrange(pop)])
            shapes = [[3], [2, 2], [1], [4, 1], [5]]
            jobs.append(dict(
                nodes=nodes, pop=pop, epochs=epochs, power=rng.choice([0.01, 0.1, 0.5, 1.0]), lr=rng.choice([0.001, 0.01, 0.1]),
                seed=rng.choice([0, 1, 99999, rng.randrange(100000)]),
                tensors=[["t%d" % i, rng.choice(shapes)] for i in range(rng.choice([1, 2, 3]))],
                reward=rng.choice(["smooth", "smooth", "smooth", "steps", "flat"]), draws=rng.random() < 0.5,
                scales=rng.choice([[1.0], [1.0], [1.0, 1e-3], [1e-4, 1.0], [1e3, 1.0, 1e-3, 1e-4, 1e-4]]),
                pauses=rng.random() < 0.6, as_tensor=rng.random() < 0.5, faults=faults))
        return dict(jobs=jobs)

    def shrink(self, case):
        if len(case["jobs"]) > 1:
            for i in range(len(case["jobs"])):
                c = copy.deepcopy(case)
                del c["jobs"][i]
                yield c
        for i, j in enumerate(case["jobs"]):
            for x in range(len(j["faults"])):
                c = copy.deepcopy(case)
                del c["jobs"][i]["faults"][x]
                yield c
            for k, v in (("nodes", j["nodes"] - 1), ("pop", j["pop"] - 1), ("epochs", j["epochs"] - 1), ("tensors", j["tensors"][:1]),
                         ("scales", j["scales"][:1]), ("draws", False), ("pauses", False), ("as_tensor", False)):
                if v != j[k] and v not in (0, 1) or (k in ("nodes", "epochs") and v == 1):
                    c = copy.deepcopy(case)
                    c["jobs"][i][k] = v
                    yield c

    def nontrivial(self, case, probe):
        return probe.hits["epochs"] >= 2

    def run(self, case, probe):
        w = NOW["w"] = World(case, probe)
        w.jobs = [Job(w, k, s) for k, s in enumerate(case["jobs"])]
        w.world_group = SimGroup(w, "world", [n for j in w.jobs for n in j.names])
        for j in w.jobs:
            for i, n in enumerate(j.names):
                w.sched.spawn(n, lambda j=j, i=i: self.node(w, j, i))
        try:
            w.sched.run()
        except HarnessError as e:
            raise Violation("stuck", "the machines wait for each other: %s" % e)
        except Fail as e:
            raise Violation("collective", str(e))
        for j in w.jobs:
            self.reference(j, probe)

    def node(self, w, j, i):
        from reagent.parameters import EvolutionParameters
        from reagent.training.gradient_free.es_worker import EsWorker

        s = j.spec
        torch.manual_seed(1000 + i)  # processes start with whatever generator state
        p = EvolutionParameters(population_size=s["pop"], mutation_power=s["power"], learning_rate=s["lr"])
        pool = self.pool(s["seed"], p, dict((n, list(z)) for n, z in s["tensors"]))
        st = dict(epoch=0, i=0, seen=set())
        pool.sim = (j, i, st)
        worker = EsWorker(pool, p, j.group, s["nodes"])
        j.parents[0, i], j.children[0, i] = snap(pool.parent_tensors), [snap(c) for c in pool.population_tensors]
        for e in range(s["epochs"]):
            st["epoch"] = e
            while True:
                st["i"] = 0
                w.sched.pause()
                try:
                    out = worker.run_epoch()
                    break
                except Fail as x:
                    if "member" in str(x) or "mismatch" in str(x):
                        raise
                    w.probe.hit("epoch_retried")
                    self.same(j, i, e, pool, "failed-epoch-had-effect")
            w.probe.event("epoch", j.k, i, e)
            w.probe.hit("epochs")
            j.parents[e + 1, i] = snap(pool.parent_tensors)
            j.children[e + 1, i] = [snap(c) for c in pool.population_tensors]
            j.returned[e, i] = float(out)

    def same(self, j, i, e, pool, cls):
        old, oldc = j.parents[e, i], j.children[e, i]
        check(all(torch.equal(old[n], pool.parent_tensors[n]) for n in old)
              and all(torch.equal(a[n], b[n]) for a, b in zip(oldc, pool.population_tensors) for n in a), cls,
              "an epoch that failed before the rewards were combined changed the parent or the population")

    def reference(self, j, probe):
        s = j.spec
        opt_m = {n: 0.0 for n, _ in s["tensors"]}
        opt_v, opt_e = dict(opt_m), dict(opt_m)
        t = 0
        # bounds for the parent: the rewards travel as single precision numbers
        ref = {n: (j.parents[0, 0][n].double(),) * 2 for n, _ in s["tensors"]}
        noises = []
        for e in range(s["epochs"] + 1):
            for i in range(s["nodes"]):
                for n, _ in s["tensors"]:
                    check(torch.equal(j.parents[e, 0][n], j.parents[e, i][n]), "parents-diverge",
                          lambda: "after %d epochs machines 0 and %d hold different parents" % (e, i))
                    check(all(torch.equal(a[n], b[n]) for a, b in zip(j.children[e, 0], j.children[e, i])),
                          "populations-diverge", lambda: "after %d epochs machines 0 and %d have different populations" % (e, i))
            check(len(j.children[e, 0]) == s["pop"], "population", "population of %d" % len(j.children[e, 0]))
            for n, z in s["tensors"]:
                p = j.parents[e, 0][n]
                check(list(p.shape) == list(z), "population", "shape")
                lo, hi = ref[n]
                tol = 1e-5 * (1 + p.double().abs()) + 1e-3 * s["lr"]
                check(bool(((p.double() >= lo - tol) & (p.double() <= hi + tol)).all()), "parent",
                      lambda: "after %d epochs the parent is %s, the estimate gives %s" % (
                          e, p.tolist(), ((lo + hi) / 2).tolist()))
            noise = [torch.cat([((c[n] - j.parents[e, 0][n]) / s["power"]).double().flatten() for n, _ in s["tensors"]])
                     for c in j.children[e, 0]]
            noises.append(noise)
            # a flat zero estimate of the spread cannot come from the configured noise
            allz = torch.cat(noise)
            check(float(allz.abs().max()) < 7.5, "mutation", lambda: "noise of %.1f standard deviations" % float(allz.abs().max()))
            if e == s["epochs"]:
                break
            r = torch.tensor([[j.value(c, i, e) for c in j.children[e, 0]] for i in range(s["nodes"])], dtype=torch.float64).mean(0)
            sd = float(r.std())
            probe.state(s["nodes"], s["pop"], s["reward"], e, round(sd, 1), len(s["faults"]))
            if s["reward"] != "flat" and sd > 3e-6 and sd > 1e-4 * float(r.abs().max()):
                t += 1
                z = (r - r.mean()) / sd
                for n, _ in s["tensors"]:
                    d = torch.stack([c[n].double() - j.parents[e, 0][n].double() for c in j.children[e, 0]])
                    g = -(d * z.reshape([-1] + [1] * (d.dim() - 1))).sum(0) / (s["pop"] * s["power"])
                    opt_e[n] = 0.9 * opt_e[n] + (2e-6 * (sd + float(r.abs().max())) / sd + 1e-5) * d.abs().mean(0) / s["power"] + 1e-9
                    err = opt_e[n]
                    base = j.parents[e, 0][n].double()
                    steps = []
                    for x in (g - err, g, g + err):
                        m, v = 0.9 * opt_m[n] + 0.1 * x, 0.999 * opt_v[n] + 0.001 * x * x
                        steps.append(base - s["lr"] * (m / (1 - 0.9 ** t)) / ((v / (1 - 0.999 ** t)).sqrt() + 1e-8))
                    opt_m[n], opt_v[n] = 0.9 * opt_m[n] + 0.1 * g, 0.999 * opt_v[n] + 0.001 * g * g
                    ref[n] = (torch.stack(steps).min(0).values, torch.stack(steps).max(0).values)
            elif s["reward"] != "flat":
                return  # equal up to rounding: too close to call
            else:
                for n, _ in s["tensors"]:
                    ref[n] = (j.parents[e, 0][n].double(),) * 2
                probe.hit("no_update")
            for i in range(s["nodes"]):
                v = j.value(j.parents[e + 1, 0], i, e)
                check(abs(j.returned[e, i] - v) <= 1e-6 + 1e-4 * abs(v), "returned",
                      lambda: "machine %d reports %r for the new parent, it has %r" % (i, j.returned[e, i], v))
        flat = [x for n in noises for x in n]
        k = flat[0].numel()
        if k >= 2:
            seen = set()
            for x in flat:
                key = tuple(round(float(v), 2) for v in x)
                if key in seen and k >= 5:
                    raise Violation("mutation", "two individuals have the same noise")
                seen.add(key)
        z = torch.cat(flat)
        if len(z) >= 30:
            m, v = float(z.mean()), float((z * z).mean())
            # neighbouring epochs of one seed are independent draws
            check(abs(m) < 8 / len(z) ** 0.5 and abs(v - 1) < 8 * (2.0 / len(z)) ** 0.5, "mutation",
                  lambda: "noise has mean %.3f and variance %.3f over %d draws" % (m, v, len(z)))


SCENARIO = E01()
