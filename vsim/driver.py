"""Runs many seeded simulations of one property, minimises and replays failures,
writes the evidence file."""
import errno
import gc
import hashlib
import importlib
import io
import json
import os
import random
import re
import select
import signal
import sys
import time
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_time = core._real_monotonic


class Violation(Exception):
    """Raised by oracles: cls is the class of the violation (stable under
    minimisation), text explains."""

    def __init__(self, cls, text=''):
        super().__init__('%s: %s' % (cls, text))
        self.cls = cls
        self.text = text


class Result(object):
    def __init__(self):
        self.violations = []       # (cls, text)
        self.stats = {}
        self.sig = ''              # signature of the explored behaviour
        self.nontrivial = True
        self.simtime = 0.0
        self.trace = None          # non-default schedule decisions
        self.digest = ''
        self.yields = 0
        self.switches = 0
        self.note = None

    def violate(self, cls, text=''):
        self.violations.append((cls, str(text)[:1500]))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def as_dict(self):
        return dict(violations=self.violations, stats=self.stats, sig=self.sig,
                    nontrivial=bool(self.nontrivial), simtime=self.simtime,
                    trace=self.trace, digest=self.digest, yields=self.yields,
                    switches=self.switches, note=self.note)


def run_seed(base, prop, i):
    h = hashlib.sha256(('%s/%s/%d' % (base, prop, i)).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


class HarnessError(Exception):
    pass


def execute(mod, case):
    """Run one case; returns the result dict.  Output of the code is captured."""
    gc.collect()
    gc.disable()
    out, err = sys.stdout, sys.stderr
    cap = io.StringIO()
    sys.stdout = cap
    sys.stderr = cap
    try:
        res = mod.run(case)
    except Violation as v:
        res = Result()
        res.violate(v.cls, v.text)
    except (MemoryError, HarnessError):
        raise
    except Exception as e:
        # The workload or an oracle was surprised by what the code did.
        if isinstance(e, OSError) and e.errno in (errno.ENOMEM, errno.EMFILE, errno.EAGAIN, errno.ENFILE):
            raise
        res = Result()
        tb = getattr(e, '_sim_tb', None) or traceback.format_exc()
        res.violate('unexpected-exception', '%s: %s\n%s' % (type(e).__name__, e, tb[-1200:]))
    finally:
        sys.stdout, sys.stderr = out, err
        gc.enable()
    d = res.as_dict() if isinstance(res, Result) else res
    d['output_len'] = len(cap.getvalue())
    return d


# ---------------------------------------------------------------- workers

class Worker(object):
    def __init__(self, mod, w, n, fn):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                f = os.fdopen(wr, 'w')
                if getattr(mod, 'NEED_PROC', False):
                    from . import proc
                    proc.start_zygote()
                if hasattr(mod, 'worker_init'):
                    mod.worker_init()

                def emit(obj):
                    f.write(json.dumps(obj) + '\n')
                    f.flush()
                fn(emit)
                emit({'done': 1})
            except BaseException:
                try:
                    f.write(json.dumps({'crash': traceback.format_exc()}) + '\n')
                    f.flush()
                except Exception:
                    pass
                code = 3
            finally:
                os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        os.close(wr)
        self.pid = pid
        self.fd = r
        self.buf = b''
        self.last = _time()
        self.cur = None
        self.finished = False
        self.index = w
        os.set_blocking(r, False)

    def read(self):
        """Return list of messages; sets .eof."""
        msgs = []
        self.eof = False
        while True:
            try:
                part = os.read(self.fd, 1 << 20)
            except BlockingIOError:
                break
            if not part:
                self.eof = True
                break
            self.buf += part
        *lines, self.buf = self.buf.split(b'\n')
        for ln in lines:
            msgs.append(json.loads(ln))
        if msgs:
            self.last = _time()
        return msgs

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.fd)

    def close(self):
        # the zygote (same group) goes as well
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.fd)


def seeds_job(mod, prop, base, indices):
    def fn(emit):
        for i in indices:
            emit({'start': i})
            rng = random.Random(run_seed(base, prop, i))
            case = mod.gen(rng)
            # one representation everywhere: what a replay file would hold
            case = json.loads(json.dumps(case))
            try:
                d = execute(mod, case)
            except BaseException as e:
                emit({'harness': i, 'tb': traceback.format_exc(),
                      'case': case})
                continue
            d['i'] = i
            if d['violations']:
                d['case'] = case
            elif i < 3:
                d['case'] = case
                d.pop('trace')
            else:
                d.pop('trace')
            emit(d)
    return fn


def run_one_isolated(mod, case, wall):
    """Run a case in a fork; returns dict, or None on real-time hang, or raises."""
    got = []

    def fn(emit):
        emit(execute(mod, case))
    w = Worker(mod, 0, 1, fn)
    end = _time() + wall
    try:
        while _time() < end:
            select.select([w.fd], [], [], 0.5)
            for m in w.read():
                if 'crash' in m:
                    raise HarnessError(m['crash'])
                if 'violations' in m:
                    got.append(m)
                if 'done' in m:
                    return got[0]
            if w.eof:
                if got:
                    return got[0]
                raise HarnessError('worker died')
        return None
    finally:
        w.close()


# ---------------------------------------------------------------- minimising

def _paths(mod):
    return list(getattr(mod, 'SHRINK', ['ops', 'faults']))


def _get(case, path):
    cur = case
    for k in path.split('.'):
        if isinstance(cur, dict) and k in cur:
            cur = cur[k]
        else:
            return None
    return cur


def _set(case, path, value):
    case = json.loads(json.dumps(case))
    cur = case
    ks = path.split('.')
    for k in ks[:-1]:
        cur = cur[k]
    cur[ks[-1]] = value
    return case


def minimise(mod, case, cls, budget):
    """Return the smallest failing case found within the time budget."""
    end = _time() + budget
    stats = {'tried': 0}

    def fails(c):
        if _time() > end:
            return None
        stats['tried'] += 1
        try:
            d = execute(mod, c)
        except Exception:
            return None
        if any(v[0] == cls for v in d['violations']):
            return d
        return None

    d = fails(case)
    if d is None:
        return case, stats
    has_sched = isinstance(case.get('sched'), dict)

    def fix(c, d):
        if has_sched and d.get('trace') is not None:
            c = dict(c)
            c['sched'] = dict(c['sched'])
            for k in ('seed', 'policy', 'p', 'q'):
                c['sched'].pop(k, None)
            c['sched']['trace'] = d['trace']
        return c
    fixed = fix(case, d)
    if fails(fixed):
        case = fixed
    orig_sched = case.get('sched')

    def variants(c):
        yield c
        if has_sched:
            s0 = {k: v for k, v in c['sched'].items() if k != 'trace'}
            if c['sched'].get('trace'):
                yield dict(c, sched=dict(s0, trace=[]))
            for s in range(3):
                yield dict(c, sched=dict(
                    {k: v for k, v in s0.items() if k not in ('seed', 'policy', 'p', 'q')},
                    seed=s, policy='random', p=0.3, q=0.02))

    def try_case(c):
        for v in variants(c):
            d = fails(v)
            if d is not None:
                f = fix(v, d)
                return f
        return None

    def ddmin(get, put):
        nonlocal case
        n = 2
        while True:
            items = get(case)
            if not items or _time() > end:
                return
            size = max(1, len(items) // n)
            progress = False
            i = 0
            while i < len(get(case)) and _time() < end:
                items = get(case)
                cand = items[:i] + items[i + size:]
                got = try_case(put(case, cand))
                if got is not None:
                    case = got
                    progress = True
                else:
                    i += size
            if size == 1 and not progress:
                return
            if not progress:
                n *= 2

    for rnd in range(2):
        for path in _paths(mod):
            if isinstance(_get(case, path), list):
                ddmin(lambda c: _get(c, path) or [], lambda c, v: _set(c, path, v))
        if hasattr(mod, 'simplify'):
            changed = True
            while changed and _time() < end:
                changed = False
                for c in mod.simplify(case):
                    got = try_case(json.loads(json.dumps(c)))
                    if got is not None:
                        case = got
                        changed = True
                        break
        # then the schedule
        if has_sched and case['sched'].get('trace'):
            def puttrace(c, v):
                return dict(c, sched=dict(c['sched'], trace=v))
            n = 2
            while _time() < end:
                tr = case['sched'].get('trace') or []
                if not tr:
                    break
                size = max(1, len(tr) // n)
                i = 0
                progress = False
                while i < len(case['sched']['trace']) and _time() < end:
                    tr = case['sched']['trace']
                    c = puttrace(case, tr[:i] + tr[i + size:])
                    if fails(c) is not None:
                        case = c
                        progress = True
                    else:
                        i += size
                if size == 1 and not progress:
                    break
                if not progress:
                    n *= 2
    return case, stats


# ---------------------------------------------------------------- main

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


def replay_main(prop, path):
    mod = load(prop)
    with open(path) as f:
        rep = json.load(f)
    d = run_one_isolated(mod, rep['case'], getattr(mod, 'RUN_WALL', 60))
    if d is None:
        vs = [['real-time-hang', 'run did not finish']]
        digest = 'hang'
    else:
        vs = d['violations']
        digest = d['digest']
    print('replay %s: digest %s' % (path, digest))
    for v in vs:
        print('  %s: %s' % (v[0], v[1]))
    if any(v[0] == rep['class'] for v in vs):
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced (expected %s)' % rep['class'])
    return 0


def main(prop, tier, nworkers=None, runs=None, base=None, digests=None):
    t0 = _time()
    mod = load(prop)
    base = int(os.environ.get('VERIF_SEED', '1')) if base is None else base
    if nworkers is None:
        nworkers = int(os.environ.get('VSIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    n = runs if runs is not None else mod.RUNS[tier]
    cap = getattr(mod, 'WALL', {'quick': 420, 'thorough': 3600})[tier]
    run_wall = getattr(mod, 'RUN_WALL', 60)
    print('check %s tier=%s seed=%d runs=%d workers=%d' % (prop, tier, base, n, nworkers))
    sys.stdout.flush()
    agg = dict(stats={}, sigs=set(), nontriv=set(), evals=0, simtime=0.0, yields=0,
               switches=0, samples=[], hangs=[], harness=[])
    viol = []
    digs = {}

    pending = [list(range(w, n, nworkers)) for w in range(nworkers)]
    workers = []
    for w in range(nworkers):
        if pending[w]:
            wk = Worker(mod, w, nworkers, seeds_job(mod, prop, base, pending[w]))
            wk.todo = pending[w]
            workers.append(wk)
    stopped_early = False
    MAXV = 40
    known0 = load_known(prop)
    nunknown = 0
    while workers:
        select.select([w.fd for w in workers], [], [], 1.0)
        for w in list(workers):
            for m in w.read():
                if 'start' in m:
                    w.cur = m['start']
                elif 'harness' in m:
                    agg['harness'].append((m['harness'], m['tb']))
                    w.cur = None
                elif 'crash' in m:
                    agg['harness'].append((w.cur, m['crash']))
                elif 'done' in m:
                    w.finished = True
                else:
                    w.cur = None
                    agg['evals'] += 1
                    digs[m['i']] = m['digest']
                    for k, v in m['stats'].items():
                        agg['stats'][k] = agg['stats'].get(k, 0) + v
                    agg['simtime'] += m['simtime']
                    agg['yields'] += m['yields']
                    agg['switches'] += m['switches']
                    if m['sig']:
                        agg['sigs'].add(m['sig'])
                        if m['nontrivial']:
                            agg['nontriv'].add(m['sig'])
                    if 'case' in m and m['i'] < 3:
                        agg['samples'].append(m['case'])
                    for v in m['violations']:
                        viol.append((m['i'], m['case'], v[0], v[1]))
                        if not any(k['class'] == v[0] and re.search(k['match'], v[1]) for k in known0):
                            nunknown += 1
            if w.finished or w.eof:
                if not w.finished and w.cur is not None and not agg['harness']:
                    agg['harness'].append((w.cur, 'worker died during run %s' % w.cur))
                w.close()
                workers.remove(w)
            elif _time() - w.last > run_wall:
                # a single run did not come back
                agg['hangs'].append(w.cur)
                w.kill()
                workers.remove(w)
                rest = [i for i in w.todo if w.cur is not None and i > w.cur]
                if rest and len(agg['hangs']) < 3:
                    nw = Worker(mod, w.index, nworkers, seeds_job(mod, prop, base, rest))
                    nw.todo = rest
                    workers.append(nw)
        if _time() - t0 > cap or nunknown >= MAXV or len(agg['hangs']) >= 3:
            stopped_early = True
            for w in workers:
                w.kill()
            workers = []
    # real-time hangs: confirm alone
    for i in agg['hangs'][:1]:
        if i is None:
            agg['harness'].append((None, 'worker stuck outside of a run'))
            continue
        case = json.loads(json.dumps(mod.gen(random.Random(run_seed(base, prop, i)))))
        try:
            d = run_one_isolated(mod, case, run_wall)
        except HarnessError as e:
            agg['harness'].append((i, str(e)))
            continue
        if d is None:
            viol.append((i, case, 'real-time-hang',
                         'the run does not finish (endless loop without any blocking call)'))
    search_s = _time() - t0
    if digests is not None:
        digests.update(digs)
    rc = 0
    known = load_known(prop)
    lines = []
    reported = 0
    # known findings are identified by (class, regex over the text)
    unknown = []
    hit = {}
    for v in viol:
        k = next((k for k in known if k['class'] == v[2] and re.search(k['match'], v[3])), None)
        if k is None:
            unknown.append(v)
        else:
            hit[k['id']] = hit.get(k['id'], 0) + 1
    for k in known:
        print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (prop, k['what'], hit.get(k['id'], 0)))
    classes = {}
    for v in unknown:
        classes.setdefault(v[2], []).append(v)
    nonrepro = []
    for cls, vs in list(classes.items())[:3]:
        ok = False
        for (i, case, _, text) in vs[:3]:
            path = report(mod, prop, base, i, case, cls, text, 60 if tier == 'quick' else 200)
            if path:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                reported += 1
                rc = 1
                ok = True
                break
        if not ok:
            nonrepro.append((cls, vs[0][3]))
    if nonrepro and rc == 0:
        for cls, text in nonrepro:
            print('HARNESS: violation %s did not reproduce: %s' % (cls, text[:300]))
        rc = 2
    if agg['harness'] and rc == 0:
        for i, tb in agg['harness'][:3]:
            print('HARNESS ERROR in run %s:\n%s' % (i, tb))
        rc = 2
    if rc == 0 and agg['evals'] < min(n, max(1, n // 20)):
        print('HARNESS: only %d of %d runs in time' % (agg['evals'], n))
        rc = 2
    wall = _time() - t0
    write_evidence(mod, prop, tier, base, agg, n, nworkers, wall, search_s,
                   len(unknown), stopped_early, known)
    print('%s: %d runs, %d distinct, %.0f simulated s, %d switches, %d violations, %.1f s wall'
          % (prop, agg['evals'], len(agg['sigs']), agg['simtime'], agg['switches'],
             len(unknown), wall))
    return rc


def report(mod, prop, base, i, case, cls, text, budget):
    """Minimise, write the replay file, check that it reproduces in a fresh process."""
    got = {}

    def fn(emit):
        c, st = minimise(mod, case, cls, budget)
        emit({'min': c, 'st': st})
    best = case
    if cls != 'real-time-hang':
        w = Worker(mod, 0, 1, fn)
        end = _time() + budget + 60
        try:
            while _time() < end:
                select.select([w.fd], [], [], 0.5)
                for m in w.read():
                    if 'min' in m:
                        best = m['min']
                        got = m['st']
                if w.eof or 'tried' in got:
                    break
        finally:
            w.close()
    run_wall = getattr(mod, 'RUN_WALL', 60)
    for cand in ((best, case) if best != case else (case,)):
        try:
            if cls == 'real-time-hang':
                d = run_one_isolated(mod, cand, run_wall)
                ok = d is None
                digest, vtext = 'hang', text
            else:
                d = run_one_isolated(mod, cand, run_wall)
                ok = d is not None and any(v[0] == cls for v in d['violations'])
                if ok:
                    digest = d['digest']
                    vtext = [v[1] for v in d['violations'] if v[0] == cls][0]
        except HarnessError:
            ok = False
        if ok:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (
                prop, re.sub(r'[^A-Za-z0-9]+', '-', cls)[:40], i))
            rep = {'property': prop, 'class': cls, 'text': vtext, 'seed': base, 'run': i,
                   'digest': digest, 'minimised_after': got.get('tried', 0), 'case': cand}
            with open(path, 'w') as f:
                json.dump(rep, f, indent=1)
            print('  %s: %s' % (cls, vtext))
            return path
    return None


def write_evidence(mod, prop, tier, base, agg, n, nworkers, wall, search_s, nviol,
                   stopped, known):
    ev = {
        'property': prop, 'tier': tier, 'seed': base,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': agg['evals'],
            'distinct_nontrivial': len(agg['nontriv']),
            'rule': mod.RULE,
            'samples': agg['samples'][:2] or ['(none)'],
            'planned_runs': n,
            'stopped_early': bool(stopped),
            'runs_per_hour': round(agg['evals'] / max(search_s, 1e-6) * 3600),
            'workers': nworkers,
            'simulated_seconds': round(agg['simtime'], 1),
            'scheduling_decisions': agg['yields'],
            'context_switches': agg['switches'],
            'distinct_behaviours': len(agg['sigs']),
            'behaviour_measure': getattr(mod, 'MEASURE', 'hash of the event log of the run'),
            'faults_injected': {k[6:]: v for k, v in sorted(agg['stats'].items())
                                if k.startswith('fault:')},
            'probes': {k: v for k, v in sorted(agg['stats'].items())
                       if not k.startswith('fault:')},
            'components': getattr(mod, 'COMPONENTS', {}),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)


def cli(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--one', type=int, help='run a single index verbosely')
    ap.add_argument('--digests', help='write run digests to this file')
    a = ap.parse_args(argv)
    if a.replay:
        return replay_main(a.prop, a.replay)
    if a.one is not None:
        mod = load(a.prop)
        if getattr(mod, 'NEED_PROC', False):
            from . import proc
            proc.start_zygote()
        if hasattr(mod, 'worker_init'):
            mod.worker_init()
        base = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
        case = json.loads(json.dumps(mod.gen(random.Random(run_seed(base, a.prop, a.one)))))
        print(json.dumps(case, indent=1))
        d = execute(mod, case)
        d.pop('trace')
        print(json.dumps(d, indent=1))
        return 0
    dg = {}
    rc = main(a.prop, a.tier, a.workers, a.runs, a.seed, dg)
    if a.digests:
        with open(a.digests, 'w') as f:
            json.dump({str(k): dg[k] for k in sorted(dg)}, f, indent=0)
    return rc
