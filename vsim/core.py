"""Simulator core: seams (installed before mdp is imported), virtual clock,
cooperative scheduling of real threads, decision recording.

Exactly one simulated thread runs at any time.  Every seam is dual mode: outside
of a simulation, or on a thread the simulation does not know, it behaves like
the original.
"""
import _thread
import contextlib
import hashlib
import heapq
import os
import queue
import random
import sys
import threading
import time

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_sentinel = threading._set_sentinel
_real_sleep = time.sleep
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_get_ident = _thread.get_ident

_SIM = None          # the active simulation
DEBUG = bool(os.environ.get('VSIM_DEBUG'))
REPO = os.environ.get('VSIM_REPO', '/repo')


class SimAbort(BaseException):
    """Raised in simulated threads to unwind them when a run is over."""


def current():
    """(sim, thread) if the calling thread is simulated, else (None, None)."""
    sim = _SIM
    if sim is None:
        return None, None
    t = sim.by_ident.get(_get_ident())
    if t is None:
        return None, None
    return sim, t


# --------------------------------------------------------------------------
# seams

class DualLock(object):
    """Replacement of threading.Lock."""

    __slots__ = ('_real', '_waiters', '__weakref__')

    def __init__(self):
        self._real = _real_allocate()
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        sim, t = current()
        if sim is None:
            return self._real.acquire(blocking, timeout)
        sim.yield_point('acquire')
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if (timeout is None or timeout < 0) else sim.now + timeout
        while True:
            self._waiters.append(t)
            ok = sim.block(t, 'lock', deadline)
            if t in self._waiters:
                self._waiters.remove(t)
            if self._real.acquire(False):
                return True
            if deadline is not None and sim.now >= deadline:
                return False

    def release(self):
        sim, t = current()
        self._real.release()
        if sim is None:
            if self._waiters and _SIM is not None:
                for w in self._waiters:
                    _SIM.make_runnable(w)
            return
        for w in self._waiters:
            sim.make_runnable(w)
        sim.yield_point('release')

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._real = _real_allocate()
        self._waiters = []

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


def _dual_start(function, args, kwargs=None):
    sim, t = current()
    if sim is None:
        return _real_start(function, args, kwargs or {})
    return sim.start_thread(function, args, kwargs or {})


def _dual_sentinel():
    sim, t = current()
    if sim is None:
        return _real_sentinel()
    lock = DualLock()
    t.sentinel = lock
    return lock


def _dual_sleep(secs):
    sim, t = current()
    if sim is None:
        return _real_sleep(secs)
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    sim.sleep(t, secs)


def _dual_time():
    sim, t = current()
    return _real_time() if sim is None else sim.clock('time')


def _dual_monotonic():
    sim, t = current()
    return _real_monotonic() if sim is None else sim.now


def _dual_perf():
    sim, t = current()
    return _real_perf() if sim is None else sim.now


_installed = False


def install():
    """Install the seams; must happen before mdp is imported."""
    global _installed
    if _installed:
        return
    assert 'mdp' not in sys.modules, 'install the seams before importing mdp'
    _installed = True
    threading.Lock = DualLock
    threading._allocate_lock = DualLock
    threading._start_new_thread = _dual_start
    threading._set_sentinel = _dual_sentinel
    threading.RLock = threading._PyRLock
    threading._time = _dual_monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _dual_monotonic
    time.sleep = _dual_sleep
    time.time = _dual_time
    time.monotonic = _dual_monotonic
    time.perf_counter = _dual_perf
    from . import proc
    proc.install()


# --------------------------------------------------------------------------
# decisions

class Chooser(object):
    """Source of scheduling decisions.  Records every non-default one."""

    def __init__(self, spec):
        # spec: {'seed': int, 'policy': str, 'p': float, ...} or {'trace': [[i, v], ...]}
        self.spec = spec
        self.n = 0
        self.taken = []
        self.replay = None
        if 'trace' in spec:
            self.replay = {i: v for i, v in spec['trace']}
        else:
            self.rng = random.Random(spec.get('seed', 0))
            self.policy = spec.get('policy', 'random')
            self.p = spec.get('p', 0.3)
            self.prio = {}
            self.slow = {}

    def pick(self, cands, cur, timer):
        """cands: tids that can run (sorted).  cur: tid or None.  timer: True if a
        pending timer may fire instead.  Returns tid or 'T'."""
        i = self.n
        self.n += 1
        default = cur if cur in cands else (cands[0] if cands else 'T')
        if self.replay is not None:
            v = self.replay.get(i, default)
            if v != 'T' and v not in cands:
                v = default
            if v == 'T' and not timer:
                v = default
            return v
        v = default
        r = self.rng
        if cands:
            pol = self.policy
            if pol == 'random':
                if default != cur or r.random() < self.p:
                    v = r.choice(cands)
            elif pol == 'pct':
                for c in cands:
                    if c not in self.prio:
                        self.prio[c] = r.random()
                if r.random() < self.p * 0.1 and cur is not None:
                    self.prio[cur] = r.random() - 1
                v = max(cands, key=lambda c: self.prio[c])
            elif pol == 'slow':       # some threads run only when nothing else can
                fast = []
                for c in cands:
                    if c not in self.slow:
                        self.slow[c] = r.random() < 0.4
                    if not self.slow[c]:
                        fast.append(c)
                pool = fast or cands
                if r.random() < 0.02:
                    pool = cands
                if cur in pool and r.random() >= self.p:
                    v = cur
                else:
                    v = r.choice(pool)
            elif pol == 'run':         # run to block, random next
                if default != cur:
                    v = r.choice(cands)
            if timer and r.random() < self.spec.get('q', 0.01):
                v = 'T'
        if v != default:
            self.taken.append([i, v])
        return v


class SimThread(object):
    __slots__ = ('tid', 'go', 'state', 'why', 'sentinel', 'ident', 'deadline',
                 'name', 'streak', 'seq')

    def __init__(self, tid):
        self.tid = tid
        self.go = _real_allocate()
        self.go.acquire()
        self.state = 'run'        # run | block | done
        self.why = None
        self.sentinel = None
        self.ident = None
        self.deadline = None
        self.streak = 0
        self.seq = 0


class Hang(Exception):
    pass


class Sim(object):
    """One simulated execution."""

    HANG_TIME = 900.0       # virtual seconds without progress
    MAX_YIELDS = 3000000

    def __init__(self, sched, trace_files=(), start_time=1.0e9):
        self.chooser = Chooser(sched)
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.now = 0.0
        self.epoch = start_time
        self.clock_off = 0.0
        self.clock_hook = None
        self.timers = []             # (time, seq, fn)
        self._seq = 0
        self.yields = 0
        self.switches = 0
        self.progress_at = 0.0
        self.progress_yield = 0
        self.events = []
        self.aborted = None          # reason
        self.hang = None
        self.finished = _real_allocate()
        self.finished.acquire()
        self.thread_exc = []         # uncaught exceptions in threads
        self.trace_files = tuple(trace_files)
        self._trace_cache = {}
        self.no_preempt = 0
        self.fault_start_thread = None   # callable() -> bool
        self.stats = {}
        self.procs = []
        self.order_hash = hashlib.blake2b(digest_size=8)

    # ---- logging (never touches the chooser)
    def log(self, kind, *data):
        t = self.by_ident.get(_get_ident())
        self.events.append((len(self.events), round(self.now, 6),
                            t.tid if t else -1, kind) + data)

    def progress(self):
        self.progress_at = self.now
        self.progress_yield = self.yields

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode())
        h.update(self.order_hash.digest())
        return h.hexdigest()[:16]

    # ---- clock
    def clock(self, kind):
        if self.clock_hook is not None:
            return self.clock_hook(self)
        return self.epoch + self.now + self.clock_off

    def call_at(self, when, fn):
        self._seq += 1
        heapq.heappush(self.timers, (when, self._seq, fn))

    def sleep(self, t, secs):
        self.block(t, 'sleep', self.now + secs)

    # ---- scheduling
    def make_runnable(self, t):
        if t.state == 'block':
            t.state = 'run'
            t.seq += 1
            t.deadline = None

    def block(self, t, why, deadline=None):
        """Block the calling simulated thread until made runnable or deadline."""
        if self.aborted:
            raise SimAbort(self.aborted)
        t.state = 'block'
        t.why = why
        t.seq += 1
        t.deadline = deadline
        if deadline is not None:
            seq = t.seq

            def fire():
                if t.state == 'block' and t.seq == seq:
                    self.make_runnable(t)
            self.call_at(deadline, fire)
        self._reschedule(t)
        if self.aborted:
            raise SimAbort(self.aborted)
        return True

    def yield_point(self, kind='y'):
        if self.no_preempt:
            return
        t = self.by_ident.get(_get_ident())
        if t is None:
            return
        if self.aborted:
            if kind == 'release' or kind == 'acquire' or kind == 'line':
                # do not disturb unwinding
                return
            raise SimAbort(self.aborted)
        self.yields += 1
        self._reschedule(t)
        if self.aborted and kind not in ('release', 'acquire', 'line'):
            raise SimAbort(self.aborted)

    def _fire_timer(self):
        when, _, fn = heapq.heappop(self.timers)
        if when > self.now:
            self.now = when
        fn()

    def _reschedule(self, me):
        """Pick who runs next; returns when `me` runs again (or at once)."""
        if self.aborted:
            return
        nxt = self._pick(me)
        if nxt is None or nxt is me:
            return
        self._switch(me, nxt)

    def _pick(self, me):
        while True:
            if self.yields > self.MAX_YIELDS:
                self.abort('step limit')
                return None
            cands = [x.tid for x in self.threads if x.state == 'run']
            if not cands and not self.timers:
                self.hang = 'deadlock: ' + ', '.join(
                    'thread %d waits for %s' % (x.tid, x.why)
                    for x in self.threads if x.state == 'block')
                self.abort('deadlock')
                return None
            if not cands:
                if self.now - self.progress_at > self.HANG_TIME:
                    self.hang = ('no progress for %d simulated seconds (%s)' %
                                 (self.HANG_TIME, ', '.join(
                                     'thread %d in %s' % (x.tid, x.why)
                                     for x in self.threads if x.state == 'block')))
                    self.abort('hang')
                    return None
                self._fire_timer()
                continue
            if len(cands) == 1 and not self.timers:
                v = cands[0]
            else:
                cur = me.tid if (me is not None and me.state == 'run') else None
                if cur is not None:
                    me.streak += 1
                    if me.streak > 5000 and len(cands) > 1:
                        # fairness: a spinning thread must let others run
                        me.streak = 0
                        cands = [c for c in cands if c != cur]
                        cur = None
                v = self.chooser.pick(cands, cur, bool(self.timers))
            if v == 'T':
                self._fire_timer()
                if me is not None and me.state == 'run':
                    return me
                continue
            return self.threads[v]

    def _switch(self, me, nxt):
        self.switches += 1
        self.order_hash.update(b'%d:%d;' % (nxt.tid, self.yields - self.progress_yield))
        nxt.streak = 0
        self.cur = nxt
        done = me is None or me.state == 'done'
        nxt.go.release()
        if not done:
            me.go.acquire()

    def abort(self, reason):
        """End the run: every thread is unwound."""
        if self.aborted:
            return
        self.aborted = reason
        for x in self.threads:
            if x.state == 'block':
                x.state = 'run'

    # ---- threads
    def start_thread(self, function, args, kwargs):
        sim, me = current()
        if self.aborted:
            raise SimAbort(self.aborted)
        if self.fault_start_thread is not None and self.fault_start_thread():
            self.yield_point('start')
            raise RuntimeError("can't start new thread")
        t = self._new_thread(function, args, kwargs)
        self.yield_point('start')
        return t.ident

    def _new_thread(self, function, args, kwargs):
        t = SimThread(len(self.threads))
        self.threads.append(t)
        ready = _real_allocate()
        ready.acquire()

        def body():
            t.ident = _get_ident()
            self.by_ident[t.ident] = t
            ready.release()
            t.go.acquire()
            self.cur = t
            # an ident may be reused: forget what threading knows about it
            threading._active.pop(t.ident, None)
            if t.tid == 0:
                self.no_preempt += 1
                threading.current_thread()
                self.no_preempt -= 1
            try:
                if not self.aborted:
                    if self.trace_files:
                        sys.settrace(self._tracer)
                    function(*args, **kwargs)
            except SimAbort:
                pass
            except SystemExit:
                pass
            except BaseException as e:     # pragma: no cover - harness trouble
                self.thread_exc.append((t.tid, e))
            finally:
                sys.settrace(None)
                if t.tid == 0:
                    threading._active.pop(t.ident, None)
                self._end_thread(t)
        _real_start(body, ())
        ready.acquire()
        return t

    def _end_thread(self, t):
        if t.sentinel is not None and t.sentinel._real.locked():
            t.sentinel._real.release()
            for w in t.sentinel._waiters:
                self.make_runnable(w)
        t.state = 'done'
        self.by_ident.pop(t.ident, None)
        if self.aborted:
            nxt = next((x for x in self.threads if x.state != 'done'), None)
            if nxt is None:
                self.finished.release()
            else:
                nxt.state = 'run'
                self.cur = nxt
                nxt.go.release()
            return
        if t.tid == 0:
            # the scenario is over: unwind what is left
            self.abort('end')
            return self._end_thread(t)
        nxt = self._pick(None)
        if nxt is None:        # aborted by _pick
            return self._end_thread(t)
        self._switch(None, nxt)

    # ---- line level preemption
    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        ok = self._trace_cache.get(fn)
        if ok is None:
            ok = any(fn.startswith(p) for p in self.trace_files)
            self._trace_cache[fn] = ok
        if not ok:
            return None
        return self._line_tracer

    def _line_tracer(self, frame, event, arg):
        if event == 'line' and not self.aborted:
            self.yield_point('line')
        return self._line_tracer

    @contextlib.contextmanager
    def paused(self):
        """Harness work inside a run: no preemption, no tracing."""
        old = sys.gettrace()
        sys.settrace(None)
        self.no_preempt += 1
        try:
            yield
        finally:
            self.no_preempt -= 1
            sys.settrace(old)

    # ---- running
    def run(self, scenario, wall=1e6):
        """Run scenario() as simulated thread 0; returns its value."""
        global _SIM
        assert _SIM is None
        out = {}

        def main():
            try:
                out['value'] = scenario(self)
            except SimAbort:
                raise
            except BaseException as e:
                import traceback
                out['error'] = e
                out['tb'] = traceback.format_exc()
        old_hook = threading.excepthook

        def hook(args):
            if args.exc_type is SimAbort or self.aborted:
                return
            self.log('thread-exception', args.exc_type.__name__, str(args.exc_value)[:200])
        threading.excepthook = hook
        _SIM = self
        try:
            t = self._new_thread(main, (), {})
            self.cur = t
            t.go.release()
            if not self.finished.acquire(True, wall):
                raise RealHang('run did not finish within %d real seconds' % wall)
        finally:
            _SIM = None
            threading.excepthook = old_hook
            for p in self.procs:
                p._sim_dispose()
        if 'error' in out:
            err = out['error']
            err._sim_tb = out['tb']
            raise err
        return out.get('value')


class RealHang(BaseException):
    pass
