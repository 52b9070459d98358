"""Controlled scheduler: two real threads, one running at a time.

A schedule is a list of segments (thread, lines): the thread runs for that
many source lines of the pyorb package and is then preempted; None means to
completion.  Every source line of the package is a preemption point.
"""
import os
import sys
import threading
import pyorb

ROOT = os.path.dirname(os.path.realpath(pyorb.__file__)) + os.sep
_hit = {}
PATIENCE = 20.0


def _target(fn):
    h = _hit.get(fn)
    if h is None:
        h = _hit[fn] = os.path.realpath(fn).startswith(ROOT)
    return h


class Run:
    def __init__(self, jobs, plan, trail=False):
        self.jobs = jobs
        self.plan = list(plan) + [(t, None) for t in range(len(jobs))]
        self.sem = [threading.Semaphore(0) for _ in jobs]
        self.left = [None]*len(jobs)
        self.done = [False]*len(jobs)
        self.results = [None]*len(jobs)
        self.errors = [None]*len(jobs)
        self.lines = [0]*len(jobs)
        self.where = [[] for _ in jobs] if trail else None
        self.at = -1
        self.free = False

    def advance(self):
        """Hand over to the thread of the next segment."""
        while self.at + 1 < len(self.plan):
            self.at += 1
            t, n = self.plan[self.at]
            if not self.done[t]:
                self.left[t] = n
                self.sem[t].release()
                return

    def body(self, t):
        self.sem[t].acquire()

        def local(frame, event, arg):
            if event == 'line':
                self.lines[t] += 1
                if self.where is not None:
                    self.where[t].append((frame.f_code, frame.f_lineno))
                if self.left[t] is not None and not self.free:
                    if self.left[t] <= 0:
                        self.advance()
                        self.sem[t].acquire()
                    if self.left[t] is not None:
                        self.left[t] -= 1
            return local

        def enter(frame, event, arg):
            return local if _target(frame.f_code.co_filename) else None

        sys.settrace(enter)
        try:
            self.results[t] = self.jobs[t]()
        except Exception as exc:
            self.errors[t] = exc
        finally:
            sys.settrace(None)
        self.done[t] = True
        self.advance()

    def go(self):
        ths = [threading.Thread(target=self.body, args=(t,), daemon=True)
               for t in range(len(self.jobs))]
        for th in ths:
            th.start()
        self.advance()
        for th in ths:
            th.join(PATIENCE)
            if th.is_alive():
                # a thread waits for a lock the preempted one holds: let
                # both run freely from here
                self.free = True
                for s in self.sem:
                    s.release()
                th.join(PATIENCE)
                if th.is_alive():
                    raise RuntimeError('threads do not finish')
        return self


def lines(job):
    """Number of preemption points of a job run alone."""
    return Run([job], []).go().lines[0]


def points(job, keep=2):
    """Preemption points: the first `keep` executions and the last one of
    every source line that the job executes when run alone."""
    trail = Run([job], [], trail=True).go().where[0]
    seen, out = {}, set()
    for k, w in enumerate(trail):
        seen[w] = seen.get(w, 0) + 1
        if seen[w] <= keep:
            out.add(k)
    out |= set({w: k for k, w in enumerate(trail)}.values())
    return sorted(out)
