"""Task callables used by the scheduler workloads (also imported by workers)."""
import time

from mdp.parallel import TaskCallable


class TaskError(Exception):
    """A failing task."""


child_log = None      # set in worker processes


def sim_log(kind, *data):
    from . import core
    sim, t = core.current()
    if sim is not None:
        sim.log(kind, *data)


def enter(tid):
    from . import core
    if child_log is not None:
        child_log(['task', tid])
        return
    sim, t = core.current()
    if sim is None:
        return
    sim.running = getattr(sim, 'running', 0) + 1
    sim.max_running = max(getattr(sim, 'max_running', 0), sim.running)
    sim.progress()
    sim.log('task-start', tid, sim.running)


def leave(tid):
    from . import core
    if child_log is not None:
        return
    sim, t = core.current()
    if sim is None:
        return
    sim.running -= 1
    sim.progress()
    sim.log('task-end', tid)


class VTask(TaskCallable):
    """Callable with version tag; its result tells all about how it was called.

    data is (task id, duration, fault)
    """

    def __init__(self, tag, depth=0):
        self.tag = tag
        self.depth = depth       # number of forks since the caller's object
        self.calls = 0
        self.seen = []
        self.env = 0

    def setup_environment(self):
        self.env += 1

    def fork(self):
        f = self.__class__(self.tag, self.depth + 1)
        f.env = self.env
        f.seen = list(self.seen)
        f.calls = self.calls
        return f

    def __call__(self, data):
        tid, dur, fault = data
        enter(tid)
        try:
            self.calls += 1
            self.seen.append(tid)
            if dur:
                time.sleep(dur)
            if fault == 'raise':
                raise TaskError('task %s fails' % tid)
            if fault == 'exit':
                raise SystemExit('task %s exits' % tid)
            return (tid, self.tag, self.depth, list(self.seen), self.calls, self.env)
        finally:
            leave(tid)


class SelfTask(VTask):
    """A callable which does not change when called and so forks to itself."""

    def fork(self):
        return self

    def __call__(self, data):
        tid, dur, fault = data
        enter(tid)
        try:
            if dur:
                time.sleep(dur)
            if fault == 'raise':
                raise TaskError('task %s fails' % tid)
            return (tid, self.tag, 1, [tid], 1, self.env)
        finally:
            leave(tid)


def make_func(tag):
    return FUNCS[tag % len(FUNCS)]


def _f(k):
    def func(data):
        tid, dur, fault = data
        enter(tid)
        try:
            if dur:
                time.sleep(dur)
            if fault == 'raise':
                raise TaskError('task %s fails' % tid)
            return (tid, 'f%d' % k, 1, [tid], 1, None)
        finally:
            leave(tid)
    func.__name__ = func.__qualname__ = 'vfunc%d' % k
    return func


vfunc0 = _f(0)
vfunc1 = _f(1)
vfunc2 = _f(2)
FUNCS = [vfunc0, vfunc1, vfunc2]
