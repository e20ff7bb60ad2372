"""Controlled interleaving of threads at lines of the code under test

Exactly one thread runs at a time; at chosen line events inside /repo's code
it hands over to another one. The schedule is a function of the random
generator. A thread that cannot proceed (it waits for a real lock another
thread holds) is noticed by the absence of progress; then all threads run
freely, which is a schedule, too.
"""
import sys
import threading

from .core import _PKG


class Schedule(object):
    """Runs functions in threads, switching at lines of the library"""

    def __init__(self, rng, gap=None, points=None):
        self.rng = rng
        self.gap = gap                  # mean number of lines to a switch
        self.points = set(points or ())  # or line counts to switch at
        self.lines = 0
        self.trace = []                 # (thread, file, line) at switches
        self.free = False
        self.stalled = False
        self.left = self._next()

    def _next(self):
        if not self.gap:
            return None
        return 1 + int(self.rng.expovariate(1.0 / self.gap))

    def run(self, funcs, patience=2.0):
        self.sems = [threading.Semaphore(0) for _ in funcs]
        self.alive = set(range(len(funcs)))
        self.patience = patience
        self.errors = [None] * len(funcs)
        threads = [threading.Thread(target=self._main, args=(i, f),
                                    daemon=True)
                   for i, f in enumerate(funcs)]
        for thr in threads:
            thr.start()
        self.sems[self.rng.choice(sorted(self.alive))].release()
        for thr in threads:
            thr.join(120)
        self.hung = any(thr.is_alive() for thr in threads)
        return self.errors

    def _main(self, me, func):
        self.sems[me].acquire()
        sys.settrace(lambda frame, event, arg: self._call(me, frame))
        try:
            func()
        except BaseException as err:          # pylint: disable=broad-except
            self.errors[me] = err
        finally:
            sys.settrace(None)
            self.alive.discard(me)
            if self.alive and not self.free:
                self.sems[self.rng.choice(sorted(self.alive))].release()

    def _call(self, me, frame):
        if self.free or not frame.f_code.co_filename.startswith(_PKG):
            return None

        def local(frame, event, arg):
            if event == 'line' and not self.free:
                self._line(me, frame)
            return local
        return local

    def _line(self, me, frame):
        self.lines += 1
        if self.left is not None:
            self.left -= 1
            if self.left > 0:
                return
            self.left = self._next()
        elif self.lines not in self.points:
            return
        others = sorted(self.alive - {me})
        if not others:
            return
        self.trace.append((me, frame.f_code.co_filename[len(_PKG):],
                           frame.f_lineno))
        self.sems[self.rng.choice(others)].release()
        while not self.sems[me].acquire(timeout=self.patience):
            if self.free:
                return
            before = self.lines
            if self.sems[me].acquire(timeout=self.patience):
                return
            if self.lines == before and len(self.alive) > 1:
                # Nobody proceeds: a lock is held by a thread that waits here
                self.free = self.stalled = True
                for sem in self.sems:
                    sem.release()
                return
