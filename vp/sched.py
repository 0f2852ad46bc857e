"""
Deterministic interleavings of threads at the lines (or bytecodes) of the code
under test.  Exactly one thread runs at a time; at every trace event inside
the package the policy may hand the baton to another thread.
"""

import os
import random
import sys
import threading
import time

from .core import REPO

PACKAGES = tuple(os.path.join(REPO, p) + os.sep for p in ("pure_sklearn", "pure_fasttext"))
STALL = 3.0


class Scheduler:
    def __init__(self, jobs, policy, seed, opcodes=False):
        """ jobs: one list of callables per thread """
        self.jobs, self.opcodes = jobs, opcodes
        self.rng = random.Random(seed)
        self.policy = policy
        self.gates = [threading.Semaphore(0) for _ in jobs]
        self.alive = set(range(len(jobs)))
        self.events = self.switches = 0
        self.trail = []
        self.results = [[] for _ in jobs]
        self.free = False
        self.thread_events = [0] * len(jobs)
        self.plan = None
        if policy[0] == "preempt":
            # run thread 0 until its k-th event, then another one to its end
            self.plan = list(policy[1])

    # called by the running thread only
    def point(self, me, frame):
        if self.free:
            return
        self.events += 1
        self.thread_events[me] += 1
        kind = self.policy[0]
        if len(self.alive) < 2:
            return
        if kind == "random":
            if self.rng.random() >= self.policy[1]:
                return
        else:
            if not self.plan or self.events < self.plan[0]:
                return
            self.plan.pop(0)
        target = self.rng.choice(sorted(self.alive - {me}))
        self.trail.append((me, target, frame.f_code.co_name, frame.f_lineno))
        self.switch(me, target)

    def switch(self, me, target):
        self.switches += 1
        self.gates[target].release()
        self.wait(me)

    def wait(self, me):
        seen = -1
        while not self.gates[me].acquire(timeout=STALL):
            if self.free:
                return
            if seen == self.events:
                # the running thread waits for a lock of a stopped one
                self.free = True
                for g in self.gates:
                    g.release()
                return
            seen = self.events

    def _thread(self, me):
        def local(frame, event, arg):
            if event != "exception":
                self.point(me, frame)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PACKAGES):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            self.point(me, frame)
            return local

        self.wait(me)
        sys.settrace(glob)
        try:
            for job in self.jobs[me]:
                self.results[me].append(job())
        finally:
            sys.settrace(None)
            self.alive.discard(me)
            if self.alive and not self.free:
                self.gates[self.rng.choice(sorted(self.alive))].release()

    def run(self):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        self.gates[0].release()
        for t in threads:
            t.join(60)
        return self.results


def free_run(jobs, interval=1e-6):
    """ real concurrency with the smallest switch interval """
    results = [[] for _ in jobs]
    barrier = threading.Barrier(len(jobs))

    def thread(me):
        barrier.wait()
        for job in jobs[me]:
            results[me].append(job())

    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        threads = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    return results
