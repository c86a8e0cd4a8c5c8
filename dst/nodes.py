"""Simulated processes: cooperative threads of which exactly one runs at a time.

The scheduler decides at every yield point who runs next.  Each node keeps its
own state of torch's global random generator, as a process of its own would."""
import threading

import torch

from .core import HarnessError, SimCrash


class Node:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = threading.Semaphore(0)
        self.waiting = None  # a predicate, or None if runnable
        self.done = False
        self.error = None
        self.kill = False
        self.rng = None
        self.thread = None


class Sched:
    def __init__(self, rng, probe, max_steps=20000):
        self.rng, self.probe, self.max_steps = rng, probe, max_steps
        self.nodes = []
        self.current = None
        self.back = threading.Semaphore(0)
        self.steps = 0

    def spawn(self, name, fn):
        n = Node(name, fn)
        n.rng = torch.get_rng_state()

        def body():
            n.sem.acquire()
            try:
                if not n.kill:
                    fn()
            except SimCrash:
                pass
            except BaseException as e:  # reported by run()
                n.error = e
            n.done = True
            self.back.release()

        n.thread = threading.Thread(target=body, daemon=True)
        n.thread.start()
        self.nodes.append(n)
        return n

    def switch(self, n):
        torch.set_rng_state(n.rng)
        self.current = n
        n.sem.release()
        self.back.acquire()
        self.current = None
        n.rng = torch.get_rng_state()

    # called by nodes
    def pause(self, waiting=None):
        n = self.current
        if n is None:
            return  # not in a node (reference computations)
        n.waiting = waiting
        self.back.release()
        n.sem.acquire()
        if n.kill:
            raise SimCrash()
        n.waiting = None

    def run(self):
        """until every node is done; raises the first error of a node"""
        try:
            while True:
                live = [n for n in self.nodes if not n.done]
                if not live:
                    return
                ready = [n for n in live if n.waiting is None or n.waiting()]
                if not ready:
                    raise HarnessError("deadlock: " + ", ".join(n.name for n in live))
                self.steps += 1
                if self.steps > self.max_steps:
                    raise HarnessError("too many steps")
                n = ready[self.rng.randrange(len(ready))] if len(ready) > 1 else ready[0]
                self.switch(n)
                if n.error is not None:
                    raise n.error
        finally:
            for n in self.nodes:
                if not n.done:
                    n.kill = True
                    n.sem.release()
                    self.back.acquire()
            for n in self.nodes:
                n.thread.join()
