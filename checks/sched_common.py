"""Workload and oracles for the schedulers (S01, S02, S03)."""
import threading
import time

import mdp
import mdp.parallel as par

from vsim import core, vtasks
from vsim.driver import Result, Violation

TRACE = [core.REPO + '/mdp/parallel/', core.REPO + '/bimdp/parallel/']


def gen_sched(rng, trace_p=0.5):
    return {'seed': rng.randrange(1 << 30),
            'policy': rng.choice(['random', 'random', 'pct', 'slow', 'run']),
            'p': rng.choice([0.05, 0.2, 0.5, 0.9]),
            'q': rng.choice([0.0, 0.0, 0.01, 0.1]),
            'lines': rng.random() < trace_p}


def gen_case(rng, faults, kinds=('serial', 'thread', 'thread', 'process')):
    kind = rng.choice(kinds)
    case = {'kind': kind, 'n': rng.choice([1, 1, 2, 2, 3, 4]),
            'copy': rng.random() < 0.6, 'cache': rng.random() < 0.6,
            'container': rng.choice(['default', 'default', 'ordered', 'list', 'custom']),
            'verbose': rng.random() < 0.2,
            'ctx': rng.choice([False, False, True, 'raise']),
            'sched': gen_sched(rng)}
    if kind == 'process':
        case['n'] = rng.choice([1, 1, 2, 2, 3])
    ncall = rng.randint(1, 4)
    case['callables'] = []
    for k in range(ncall):
        kinds_c = ['v', 'v', 'v', 's', 'f']
        case['callables'].append([rng.choice(kinds_c), k])
    # functions are told apart by number
    nf = 0
    for c in case['callables']:
        if c[0] == 'f':
            c[1] = nf % 3
            nf += 1
    nsub = 1 if kind == 'serial' else rng.choice([1, 1, 2, 3])
    nrounds = rng.choice([1, 2, 2, 3]) if rng.random() > 0.04 or faults else 0
    durs = rng.choice([[0.0], [0.0, 0.05, 0.3], [0.01, 12.0], [5.0, 11.0, 20.0]])
    tid = 0
    rounds = []
    first = True
    for r in range(nrounds):
        subs = []
        for s in range(nsub):
            ops = []
            for _ in range(rng.choice([0, 1, 2, 3, 5, 8] if r else [1, 2, 3, 5, 8])):
                x = rng.random()
                if x < 0.12 and not first:
                    ops.append(['set', rng.randrange(ncall)])
                elif x < 0.2:
                    ops.append(['sleep', rng.choice([0.01, 0.5, 3.0])])
                else:
                    must = first and not ops
                    c = rng.randrange(ncall) if (must or rng.random() < 0.4) else None
                    if first and c is None and not any(o[0] == 'add' and o[3] is not None for o in ops):
                        c = rng.randrange(ncall)
                    f = None
                    if faults and rng.random() < 0.12:
                        f = rng.choice(['raise', 'raise', 'raise', 'exit'])
                    ops.append(['add', tid, rng.choice(durs), c, f])
                    tid += 1
            subs.append(ops)
        first = False
        rounds.append({'subs': subs, 'early': nsub > 1 and rng.random() < 0.3})
    case['rounds'] = rounds
    case['faults'] = []
    if faults:
        fl = []
        if rng.random() < 0.5 and kind in ('thread', 'process'):
            start = rng.randrange(0, 6)
            for j in range(rng.randint(1, 3)):
                fl.append(['nothread', start + j])
        if kind == 'process':
            for _ in range(rng.choice([0, 1, 1, 2])):
                fl.append([rng.choice(['before', 'during', 'torn', 'garbage', 'after']),
                           rng.randrange(case['n']), rng.randrange(4), rng.choice([0.0, 0.3, 0.7, 0.99])])
        case['faults'] = fl
        case['probe'] = True
    case['delays'] = [round(rng.choice([0.0, 0.001, 0.01, 0.3, 4.0]), 4) for _ in range(8)]
    case['split'] = rng.choice([None, None, 0.0, 0.4])
    return case


class CustomContainer(par.ResultContainer):
    def __init__(self):
        self.items = []

    def add_result(self, result, task_index):
        self.items.append((task_index, result))

    def get_results(self):
        items, self.items = self.items, []
        return [r for i, r in sorted(items, key=lambda t: t[0])]


class Run(object):
    """Executes a case; collects history; checks."""

    def __init__(self, case, want):
        self.case = case
        self.want = want              # set of oracle groups: 'S01','S02','S03'
        self.res = Result()
        self.hist = []                # add/set records
        self.collected = []           # get_results records
        self.seq = 0

    def stamp(self):
        self.seq += 1
        return self.seq

    def make_scheduler(self):
        c = self.case
        cont = {'default': None, 'ordered': par.OrderedResultContainer,
                'list': par.ListResultContainer, 'custom': CustomContainer}[c['container']]
        kw = {'result_container': cont() if cont else None, 'verbose': c['verbose']}
        if c['kind'] == 'serial':
            return par.Scheduler(**kw)
        if c['kind'] == 'thread':
            return par.ThreadScheduler(n_threads=c['n'], copy_callable=c['copy'], **kw)
        return par.ProcessScheduler(n_processes=c['n'], cache_callable=c['cache'], **kw)

    def callable_tag(self, k):
        typ, tag = self.case['callables'][k]
        return 'f%d' % tag if typ == 'f' else tag

    def scenario(self, sim):
        c = self.case
        self.sim = sim
        # faults
        nothread = set(f[1] for f in c['faults'] if f[0] == 'nothread')
        cnt = {'n': 0}
        self.armed = False

        def fail_start():
            if not self.armed or threading.current_thread().name.startswith('vsub'):
                pass
            if not self.armed:
                return False
            i = cnt['n']
            cnt['n'] += 1
            if i in nothread:
                sim.count('fault:thread-start-fails')
                return True
            return False
        sim.fault_start_thread = fail_start
        wf = {}
        for f in c['faults']:
            if f[0] != 'nothread':
                wf[(f[1], f[2])] = f

        def plan_for(proc):
            def plan(i, data):
                d = {'delay': c['delays'][(proc.index * 3 + i) % len(c['delays'])],
                     'split': c['split']}
                f = wf.get((proc.index, i))
                if f is not None:
                    d['fault'] = f[0]
                    d['cut'] = f[3]
                    d['delay'] += 0.01
                return d
            return plan
        sim.proc_plan = plan_for
        objs = []
        for typ, tag in c['callables']:
            if typ == 'v':
                objs.append(vtasks.VTask(tag))
            elif typ == 's':
                objs.append(vtasks.SelfTask(tag))
            else:
                objs.append(vtasks.FUNCS[tag])
        self.objs = objs
        sch = self.make_scheduler()
        if c['kind'] == 'process' and 'S03' in self.want and len(sim.procs) != c['n']:
            self.res.violate('wrong-number-of-workers', '%d workers started, %d configured' %
                             (len(sim.procs), c['n']))
        self.sch = sch
        self.n_started = len(sim.procs)
        if c['ctx']:
            marker = vtasks.TaskError('leaving the with block')
            try:
                with sch as s2:
                    if s2 is not sch:
                        self.res.violate('context-manager', 'entering returns another object')
                    self.body(sim, sch)
                    if c['ctx'] == 'raise':
                        raise marker
            except vtasks.TaskError as exc:
                if exc is not marker:
                    raise
            else:
                if c['ctx'] == 'raise':
                    self.res.violate('context-manager', 'an exception in the with block disappeared')
        else:
            self.body(sim, sch)
            sch.shutdown()
        # quiescence: everything must be over soon
        time.sleep(60.0)
        if c['kind'] == 'process':
            alive = [p.index for p in sim.procs if not p._dead]
            if alive:
                self.res.violate('worker-survives-shutdown',
                                 'workers %s still run 60 s after shutdown' % alive)

    def body(self, sim, sch):
        c = self.case
        for r, rnd in enumerate(c['rounds']):
            self.round(sim, sch, r, rnd)
        if c.get('probe'):
            # after all faults: the scheduler must still work
            self.armed = False
            sim.proc_plan_off = True
            self.round(sim, sch, len(c['rounds']), {'subs': [
                [['add', 9000, 0.0, 0, None], ['add', 9001, 0.01, 0, None]]], 'early': False})

    def round(self, sim, sch, r, rnd):
        ths = []
        start_len = len(self.hist)

        def submit(ops):
            # harness threads must not see injected thread start failures
            for op in ops:
                if op[0] == 'sleep':
                    time.sleep(op[1])
                    continue
                if op[0] == 'set':
                    rec = {'op': 'set', 'call': op[1], 'inv': self.stamp(), 'ret': None, 'exc': None}
                    self.hist.append(rec)
                    sch.set_task_callable(self.objs[op[1]])
                    rec['ret'] = self.stamp()
                    continue
                _, tid, dur, call, fault = op
                rec = {'op': 'add', 'tid': tid, 'call': call, 'inv': self.stamp(), 'ret': None,
                       'exc': None, 'fault': fault, 'round': r, 't0': sim.now, 'e0': len(sim.events)}
                self.hist.append(rec)
                sim.log('add', tid, call)
                try:
                    if call is None:
                        sch.add_task((tid, dur, fault))
                    else:
                        sch.add_task((tid, dur, fault), self.objs[call])
                except core.SimAbort:
                    raise
                except BaseException as e:
                    rec['exc'] = e
                    sim.log('add-raises', tid, type(e).__name__)
                    if fault == 'raise' or fault == 'exit':
                        sim.count('fault:task-' + fault)
                rec['ret'] = self.stamp()
                rec['t1'] = sim.now
                rec['e1'] = len(sim.events)
                sim.log('added', tid)
                sim.progress()

        if len(rnd['subs']) == 1:
            self.armed = True
            submit(rnd['subs'][0])
        else:
            self.armed = False
            gate = []
            for ops in rnd['subs']:
                th = threading.Thread(target=self._gated, args=(gate, submit, ops))
                th.start()
                ths.append(th)
            self.armed = True
            gate.append(1)
            if rnd['early']:
                self.collect(sim, sch, r)
            for th in ths:
                th.join()
        self.collect(sim, sch, r)
        self.armed = False

    def _gated(self, gate, submit, ops):
        while not gate:
            time.sleep(0.001)
        submit(ops)

    def collect(self, sim, sch, r):
        rec = {'inv': self.stamp(), 'ret': None, 'res': None, 'exc': None, 'round': r}
        self.collected.append(rec)
        sim.log('collect')
        try:
            out = sch.get_results()
            rec['res'] = list(out)
        except core.SimAbort:
            raise
        except BaseException as e:
            rec['exc'] = e
            sim.log('collect-raises', type(e).__name__)
        rec['ret'] = self.stamp()
        sim.log('collected', None if rec['res'] is None else
                [x[0] if isinstance(x, tuple) else repr(x) for x in rec['res']])
        sim.progress()

    # ---------------------------------------------------------------- oracles
    def check(self):
        c = self.case
        res = self.res
        sim = self.sim
        serial = c['kind'] == 'serial'
        adds = [h for h in self.hist if h['op'] == 'add']
        sets = [h for h in self.hist if h['call'] is not None]
        by_tid = {h['tid']: h for h in adds}
        if sim.hang:
            res.violate('hang', sim.hang)
            return
        if sim.aborted and sim.aborted != 'end':
            res.violate('hang', 'aborted: %s' % sim.aborted)
            return
        # executions
        execs = {}
        for e in sim.events:
            if e[3] == 'task-start':
                execs[e[4]] = execs.get(e[4], 0) + 1
            elif e[3] == 'child' and e[5] == 'task':
                execs[e[6]] = execs.get(e[6], 0) + 1
        worker_faults = sum(v for k, v in sim.stats.items() if k.startswith('fault:worker') or
                            k in ('fault:torn-answer', 'fault:garbage-answer'))
        for h in adds:
            n = execs.get(h['tid'], 0)
            if n > 1:
                res.violate('task-executed-twice', 'task %d was executed %d times' % (h['tid'], n))
            if n == 0 and not worker_faults and h['exc'] is None:
                res.violate('task-not-executed', 'task %d was never executed' % h['tid'])
        # results
        got = {}
        for k, rec in enumerate(self.collected):
            for x in rec['res'] or ():
                if not isinstance(x, tuple) or len(x) != 6 or x[0] not in by_tid:
                    res.violate('foreign-result', 'get_results returned %r' % (x,))
                    continue
                if x[0] in got:
                    res.violate('result-twice', 'result of task %d returned twice' % x[0])
                got[x[0]] = (k, x)
        refused = 0
        for h in adds:
            tid = h['tid']
            bad = h['fault'] in ('raise', 'exit') and execs.get(tid, 0) > 0
            if tid in got:
                if bad and h['fault'] == 'raise':
                    res.violate('result-of-failed-task', 'task %d raised but has a result' % tid)
                continue
            # no result: its failure must have been raised: by add_task itself, or
            # by a collection that could have seen it
            if h['exc'] is not None:
                if h['call'] is None and not any(
                        s['ret'] is not None and s['ret'] < h['inv'] for s in sets):
                    refused += 1         # no callable was known yet
                    continue
                if not serial and not isinstance(h['exc'], (vtasks.TaskError, SystemExit)) \
                        and 'S02' in self.want:
                    res.violate('add_task-fails', 'add_task of task %d raises %r' % (tid, h['exc']))
                elif serial and not bad:
                    res.violate('add_task-fails', 'add_task of task %d raises %r' % (tid, h['exc']))
                continue
            seen = [rec for rec in self.collected if rec['exc'] is not None and rec['ret'] > h['inv']]
            if not seen:
                res.violate('task-lost', 'task %d has no result and no error was raised' % tid)
        # a raising collection must have a reason
        for k, rec in enumerate(self.collected):
            if rec['exc'] is None:
                continue
            pool = [h for h in adds if h['inv'] < rec['ret'] and h['tid'] not in got]
            reason = any(h['fault'] in ('raise', 'exit') for h in pool) or worker_faults
            if not reason:
                res.violate('get_results-fails', 'get_results raises %r without any failure' % (rec['exc'],))
        # get_results waits for everything submitted before
        for k, rec in enumerate(self.collected):
            if rec['res'] is None:
                continue
            for h in adds:
                if h['exc'] is None and h['ret'] is not None and h['ret'] < rec['inv'] and h['tid'] in got:
                    if got[h['tid']][0] > k:
                        res.violate('get_results-too-early',
                                    'task %d was submitted before, its result came later' % h['tid'])
        # a collection after a failure round starts from empty: no stale results
        for k, rec in enumerate(self.collected):
            if rec['exc'] is None:
                continue
            for tid, (kk, x) in got.items():
                h = by_tid[tid]
                if kk > k and h['ret'] is not None and h['ret'] < rec['inv']:
                    res.violate('stale-result', 'result of task %d survived a failed collection' % tid)
        # order
        if c['container'] in ('default', 'ordered', 'custom'):
            for rec in self.collected:
                xs = [by_tid[x[0]] for x in rec['res'] or () if isinstance(x, tuple) and x[0] in by_tid]
                for i in range(len(xs)):
                    for j in range(i + 1, len(xs)):
                        if xs[j]['ret'] is not None and xs[j]['ret'] < xs[i]['inv']:
                            res.violate('result-order', 'task %d returned before task %d, which was '
                                        'submitted earlier' % (xs[i]['tid'], xs[j]['tid']))
        # the right callable, isolated state
        for tid, (k, x) in got.items():
            h = by_tid[tid]
            _, tag, depth, seen, calls, env = x
            if h['call'] is not None:
                allowed = {self.callable_tag(h['call'])}
            else:
                allowed = set()
                for s in sets:
                    if s['inv'] > h['ret']:
                        continue
                    over = any(s2 is not s and s2['inv'] > (s['ret'] or 1e18) and
                               s2['ret'] is not None and s2['ret'] < h['inv'] for s2 in sets)
                    if not over:
                        allowed.add(self.callable_tag(s['call']))
            if tag not in allowed:
                res.violate('wrong-callable', 'task %d ran with callable %r, allowed %r' %
                            (tid, tag, sorted(allowed, key=str)))
            if depth != 1:
                res.violate('fork-count', 'task %d ran on a callable forked %d times' % (tid, depth))
            if seen != [tid] or calls != 1:
                res.violate('state-leak', 'callable of task %d had seen tasks %r' % (tid, seen))
            if env is not None:
                want = 1 if c['kind'] == 'process' else 0
                if env != want:
                    res.violate('setup-environment', 'setup_environment ran %d times for task %d, '
                                'expected %d' % (env, tid, want))
        for o in self.objs:
            if isinstance(o, vtasks.VTask) and (o.calls or o.seen or o.depth or o.env):
                res.violate('callers-callable-changed', 'callable %r was called or changed' % (o.tag,))
        # bookkeeping visible to users
        if self.sch.n_open_tasks != 0:
            res.violate('open-task-count', 'n_open_tasks is %r when all is done' % self.sch.n_open_tasks)
        if self.sch.task_counter != len(adds) - refused and 'S01' in self.want:
            res.violate('task-counter', 'task_counter is %r after %d submissions' %
                        (self.sch.task_counter, len(adds)))
        if 'S03' in self.want:
            self.check_limits(adds)

    def check_limits(self, adds):
        c, sim, res = self.case, self.sim, self.res
        if c['kind'] == 'serial':
            return
        n = c['n']
        # running count over time
        running = 0
        times = []       # (event index, time, running)
        for e in sim.events:
            if c['kind'] == 'thread':
                if e[3] == 'task-start':
                    running += 1
                elif e[3] == 'task-end':
                    running -= 1
                else:
                    continue
            else:
                if e[3] == 'request':
                    running += 1
                elif e[3] == 'answer':
                    running -= 1
                else:
                    continue
            times.append((e[0], e[1], running))
            if running > n:
                res.violate('limit-exceeded', '%d tasks run at once, limit is %d' % (running, n))
                return
        if sim.stats.get('overlapping-requests'):
            res.violate('worker-overlap', 'a worker got a second task while busy')
        taken = c['sched']['trace'] if 'trace' in c['sched'] else sim.chooser.taken
        if c['faults'] or any(v == 'T' for i, v in taken):
            return       # the clock ran ahead of runnable threads
        # held back only while the limit is reached
        for h in adds:
            if h.get('t1') is None or h['t1'] - h['t0'] < 2.0:
                continue
            cur = 0
            last = None
            idle = 0.0
            turns = 0
            prev_t = h['t0']
            for (ei, t, run) in times:
                if ei < h['e0']:
                    cur = run
                    continue
                if ei >= h['e1']:
                    break
                if cur < n:
                    idle += t - prev_t
                if run < cur:
                    turns += 1
                prev_t = t
                cur = run
            if cur < n:
                idle += h['t1'] - prev_t
            if idle > 2.0 + 0.3 * turns:
                res.violate('parallelism-unused', 'submission of task %d waited %.1f s while fewer '
                            'than %d tasks were running' % (h['tid'], idle, n))
                return


def run_case(case, want):
    sim = core.Sim(case['sched'], TRACE if case['sched'].get('lines') else ())
    r = Run(case, want)
    sim.run(r.scenario)
    r.check()
    res = r.res
    for k, v in sim.stats.items():
        res.count(k, v)
    res.count('kind:' + case['kind'])
    res.simtime = sim.now
    res.trace = sim.chooser.taken if 'trace' not in case['sched'] else case['sched']['trace']
    res.yields = sim.yields
    res.switches = sim.switches
    res.digest = sim.digest()
    res.sig = sim.digest()
    res.nontrivial = len([h for h in r.hist if h['op'] == 'add']) > 1
    return res


def simplify(case):
    for key, val in (('verbose', False), ('ctx', False), ('container', 'default'), ('split', None)):
        if case.get(key) != val:
            yield dict(case, **{key: val})
    if case['n'] > 1:
        yield dict(case, n=case['n'] - 1)
    if len(case['rounds']) > 1:
        for i in range(len(case['rounds'])):
            yield dict(case, rounds=case['rounds'][:i] + case['rounds'][i + 1:])
    for i, r in enumerate(case['rounds']):
        for j, s in enumerate(r['subs']):
            for k in range(len(s)):
                subs = r['subs'][:j] + [s[:k] + s[k + 1:]] + r['subs'][j + 1:]
                yield dict(case, rounds=case['rounds'][:i] + [dict(r, subs=subs)] + case['rounds'][i + 1:])
            if len(r['subs']) > 1:
                subs = r['subs'][:j] + r['subs'][j + 1:]
                yield dict(case, rounds=case['rounds'][:i] + [dict(r, subs=subs)] + case['rounds'][i + 1:])
    if case['sched'].get('lines'):
        yield dict(case, sched={'trace': [], 'lines': False})
