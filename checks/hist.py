"""Base of the checks which run a (mostly sequential) history inside the simulator."""
import hashlib
import json
import warnings

import numpy as np

import mdp

from vsim import catalog, compare, core, disk, vnodes
from vsim.driver import Result

disk.install()
warnings.simplefilter('ignore')


class Crash(BaseException):
    """The simulated process dies here."""


class CrashPlan(object):
    """Kill the process at the n-th step of the workload."""

    def __init__(self, at=None):
        self.at = at
        self.n = 0

    def step(self, what=''):
        k = self.n
        self.n += 1
        if self.at is not None and k == self.at:
            raise Crash(what)


class HRun(object):
    """One case.  Subclasses define scenario(sim)."""

    def __init__(self, case):
        self.case = case
        self.res = Result()
        self.sim = None
        self.hist = []

    def setup(self):
        pass

    def log(self, *a):
        self.hist.append(a)
        self.sim.log(*[str(x)[:120] for x in a])

    def violate(self, cls, text=''):
        self.res.violate(cls, text)

    def finish(self):
        pass


class Skip(Exception):
    """The case is not usable (e.g. ill-conditioned data)."""


def run_hist(case, cls, trace=()):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    np.random.seed(case.get('nseed', 12345))
    r = cls(case)
    res = r.res
    spec = case.get('sched') or {'trace': []}
    sim = core.Sim(spec, trace)
    r.sim = sim
    try:
        r.setup()
    except Skip as e:
        res.count('skipped:%s' % e)
        res.sig = res.digest = 'skipped'
        return res
    try:
        try:
            sim.run(r.scenario)
        except Skip as e:
            res.violations[:] = []
            res.count('skipped:%s' % e)
        r.finish()
    finally:
        for name in list(mdp.get_active_extensions()):
            try:
                mdp.deactivate_extension(name)
            except Exception:
                pass
    if sim.hang:
        res.violate('hang', sim.hang)
    elif sim.aborted and sim.aborted != 'end':
        res.violate('hang', 'aborted: %s' % sim.aborted)
    for k, v in sim.stats.items():
        res.count(k, v)
    res.simtime = sim.now
    res.trace = sim.chooser.taken if 'trace' not in spec else spec['trace']
    res.yields = sim.yields
    res.switches = sim.switches
    res.digest = sim.digest()
    # distinct: the workload or what happened differs
    work = json.dumps({k: v for k, v in case.items() if k != 'sched'}, sort_keys=True)
    res.sig = hashlib.md5((res.digest + work).encode()).hexdigest()[:16]
    return res


def drop(lst, key, case):
    """Yield cases with one element of the list case[key] removed."""
    for i in range(len(lst)):
        yield dict(case, **{key: lst[:i] + lst[i + 1:]})
