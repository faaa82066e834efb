# -*- coding: utf-8 -*-
"""Threads that run one at a time and pass a baton between two executed lines of
the library: the interleaving is a function of the random numbers alone.
Also free-running threads, for interpreters that run them at once."""
from __future__ import absolute_import, division, print_function

import sys
import threading
import traceback

import lib


class Outcome(object):
    def __init__(self, job):
        self.value, self.error = None, None
        try:
            self.value = job()
        except lib.Violation:
            raise
        except Exception as e:
            self.error = '%s: %s' % (type(e).__name__, e)
            self.trace = traceback.format_exc()


class Lines(object):
    """Runs a job alone and remembers which lines of the library it executed."""

    def __init__(self, folder):
        self.folder, self.seen = folder, {}

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(self.folder) else None

    def _line(self, frame, event, arg):
        if event == 'line':
            k = (frame.f_code.co_filename, frame.f_lineno)
            self.seen[k] = self.seen.get(k, 0) + 1
        return self._line

    def run(self, job):
        sys.settrace(self._call)
        try:
            return Outcome(job)
        finally:
            sys.settrace(None)


class Baton(object):
    """rate: a switch after 1..2*rate lines; points: lines that always switch."""

    def __init__(self, rng, folder, rate=None, points=()):
        self.rng, self.folder, self.rate, self.points = rng, folder, rate, set(points)
        self.switches, self.sites = 0, set()
        self.left = self._gap()

    def _gap(self):
        return self.rng.int(1, 2 * self.rate) if self.rate else 10 ** 12

    def run(self, jobs):
        n = len(jobs)
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.alive = list(range(n))
        self.done = threading.Event()
        self.outcomes = [None] * n
        threads = [threading.Thread(target=self._body, args=(k, jobs[k])) for k in range(n)]
        for t in threads:
            t.daemon = True
            t.start()
        self.turn[self.rng.pick(self.alive)].release()
        for t in threads:
            t.join()
        return self.outcomes

    def _body(self, k, job):
        self.turn[k].acquire()

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(self.folder) else None

        def line(frame, event, arg):
            if event == 'line':
                self.left -= 1
                if self.left <= 0 or (self.points and (frame.f_code.co_filename, frame.f_lineno) in self.points):
                    self.left = self._gap()
                    self._switch(k, frame)
            return line
        sys.settrace(call)
        try:
            self.outcomes[k] = Outcome(job)
        finally:
            sys.settrace(None)
            self.alive.remove(k)
            if self.alive:
                self.turn[self.rng.pick(self.alive)].release()

    def _switch(self, k, frame):
        others = [a for a in self.alive if a != k]
        if not others:
            return
        self.switches += 1
        self.sites.add((frame.f_code.co_filename, frame.f_lineno))
        self.turn[self.rng.pick(others)].release()
        # (whoever has the baton may wait for a lock that this thread holds)
        self.turn[k].acquire(timeout=2)


def together(jobs, interval=None):
    """All at once, as the interpreter schedules them."""
    outcomes = [None] * len(jobs)
    gate = threading.Event()

    def body(k):
        gate.wait()
        outcomes[k] = Outcome(jobs[k])
    threads = [threading.Thread(target=body, args=(k,)) for k in range(len(jobs))]
    for t in threads:
        t.daemon = True
        t.start()
    old = None
    if interval and hasattr(sys, 'setswitchinterval'):
        old = sys.getswitchinterval()
        sys.setswitchinterval(interval)
    gate.set()
    for t in threads:
        t.join()
    if old is not None:
        sys.setswitchinterval(old)
    return outcomes
