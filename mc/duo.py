"""Two (or more) operation scripts in one process under a controlled scheduler: each runs in its own thread, one at a time, and
gives way only where the schedule says.  The environment (minimiser, clock, draws) is each script's own."""
import threading

import numpy as np

from .script import Clock, Draws, Return, minimiser_patch, patched

_tl = threading.local()


class Stop(BaseException):
    pass


class Side:
    """one script: a list of operations, each a function returning an observation"""

    def __init__(self, ops, fine=False):
        self.ops = ops
        self.fine = fine      # also give way at every action of the minimiser
        self.clock = Clock()
        self.draws = Draws((0.25, 0.75, 0.5, 0.9, 0.1, 0.65))
        self.obs = []
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.err = None
        self.steps = 0
        self.kill = False
        self.thread = None

    # -- called in the script's thread
    def give_way(self):
        self.steps += 1
        if self.thread is None:
            return
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise Stop()

    def run(self):
        _tl.side = self
        try:
            for i, op in enumerate(self.ops):
                if i:
                    self.give_way()
                self.obs.append(op(self))
        except Stop:
            pass
        except BaseException as e:
            self.err = e
        self.done = True

    def _main(self):
        self.go.acquire()
        if not self.kill:
            self.run()
        self.done = True
        self.back.release()

    # -- called by the scheduler
    def start(self):
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def step(self):
        self.go.release()
        self.back.acquire()

    def stop(self):
        if not self.done:
            self.kill = True
            self.step()
        self.thread.join()


def side():
    return _tl.side


class _Clock:
    def __call__(self):
        return _tl.side.clock()


def environment():
    """patch mapping; everything is looked up in the running script"""
    c = Clock()
    m = {k: (lambda: _tl.side.clock()) for k in c.mapping()}
    d = Draws()
    for k, v in d.mapping().items():
        nm = v.__name__
        m[k] = (lambda _n: lambda *a, **kw: getattr(_tl.side.draws, _n)(*a, **kw))(nm) if hasattr(d, nm) and nm != "f" else v
    m.update(minimiser_patch(lambda call: _tl.side.handler(call)))
    return m


def alone(ops):
    s = Side(ops)
    with patched(environment()):
        s.run()
    return s


def schedule(sides, order):
    """run the scripts in the order given (index of the script that makes the next step); each then runs to its end"""
    with patched(environment()):
        for s in sides:
            s.start()
        try:
            for i in order:
                if not sides[i].done:
                    sides[i].step()
            for s in sides:
                while not s.done:
                    s.step()
        finally:
            for s in sides:
                s.stop()


def interleavings(a, b):
    """all orders of a steps of script 0 and b of script 1"""
    import itertools

    for c in itertools.combinations(range(a + b), a):
        c = set(c)
        yield tuple(0 if i in c else 1 for i in range(a + b))
