"""B02: parallel bidirectional flows on simulated schedulers against serial ones."""
import random
import warnings

import numpy as np

import mdp
import bimdp
import bimdp.parallel
import mdp.parallel as par
from vsim import binodes, compare, core, pbnodes
from vsim.binodes import RouteFailure, build_msg, norm
from vsim.driver import Result
from checks import b01, hist
from checks import pflow_common as pc
from checks import sched_common as sc

NEED_PROC = True
RUNS = {'quick': 5000, 'thorough': 120000}
LEVEL = 'simulated schedules with fault injection, against the serial flow'
RULE = ('random bidirectional flows (layers, clone layers, nested flow nodes, coroutines) with messages, targets and '
        'stop messages are trained and executed on simulated thread, process and serial schedulers; distinct: event '
        'log and switch sequence differ')
SHRINK = ['ops']
COMPONENTS = {'real': ['bimdp.parallel', 'bimdp.hinet', 'bimdp.BiFlow', 'mdp.parallel schedulers and nodes',
                       'worker program (in forked child processes)', 'pickle'],
              'simulated': ['thread scheduling', 'clock', 'pipes and process life cycle'],
              'stub': ['programmed nodes', 'data sources']}
MEASURE = 'distinct event logs and switch sequences'


class SkipCase(Exception):
    pass


# ---------------------------------------------------------------- generation

def gen_node(rng, name, ids, depth, dim=2):
    r = rng.random()
    spec = {'name': name}
    if depth and r < 0.12:
        spec['kind'] = 'flow'
    elif depth and r < 0.24 and dim == 2:
        spec['kind'] = 'clone'
    elif depth and r < 0.28 and dim == 2:
        spec['kind'] = 'layer'
    else:
        spec['kind'] = rng.choice(['ab', 'ab', 'ab', 'am', 'co', 'loc', 'half', 'norm'])
    if spec['kind'] not in ('norm', 'layer') and rng.random() < 0.8:
        spec['id'] = name
        ids.append(name)
    if spec['kind'] == 'flow':
        spec['nodes'] = [gen_node(rng, '%s.%d' % (name, i), ids, 0, dim) for i in range(rng.randrange(1, 3))]
    elif spec['kind'] == 'clone':
        spec['n'] = rng.choice([1, 2])
        spec['copies'] = rng.random() < 0.4
        spec['node'] = gen_node(rng, name + '.c', ids, 0, dim // spec['n'])
        if spec['node']['kind'] == 'norm':
            spec['node']['kind'] = 'ab'
    elif spec['kind'] == 'layer':
        spec['nodes'] = []
        for i in range(2):
            s = {'name': '%s.%d' % (name, i), 'kind': 'norm'}
            spec['nodes'].append(s)
        ph = rng.choice([0, 1, 2])
        for s in spec['nodes']:
            s['phases'] = ph
            s['ef'] = rng.random() < 0.2
    else:
        if rng.random() < 0.55:
            spec['phases'] = rng.choice([1, 1, 2])
        if rng.random() < 0.25:
            spec['ef'] = True
    return spec


def walk(specs):
    for s in specs:
        if s['kind'] in ('flow', 'layer'):
            for x in walk(s['nodes']):
                yield x
        elif s['kind'] == 'clone':
            yield s['node']
        else:
            yield s


def fill(rng, specs, ids, wild):
    for pos, s in enumerate(specs):
        if s['kind'] == 'flow':
            fill(rng, s['nodes'], ids, wild)
            continue
        if s['kind'] == 'clone':
            fill1(rng, s['node'], ids, wild, None)
            continue
        if s['kind'] in ('norm', 'layer'):
            continue
        fill1(rng, s, ids, wild, (pos, len(specs)))


def act(rng, ids, wild, at, train=False):
    a = b01.rand_act(rng, ids, train, wild, at)
    a.pop('fail', None)
    a.pop('none', None)
    if rng.random() < 0.9:
        a.pop('mk', None)
    if a.get('msg'):
        for k in ('target', 'method'):
            a['msg'].pop(k, None)
        # one type per key, so that the messages can be merged
        a['msg'] = clean(a['msg'])
    return a


def clean(m):
    if m is None:
        return None
    kinds = {'a': 'i', 'b': 'l', 'c': 'i', 'q': 'A'}
    return dict((k, v) for k, v in m.items() if '->' in k and k.split('->')[1] in ('target', 'method') or
                (k.split('->')[-1] in kinds and v[0] == kinds[k.split('->')[-1]]))


def fill1(rng, s, ids, wild, at):
    prog = {}
    if rng.random() < 0.4:
        prog['execute'] = [act(rng, ids, wild, at) for _ in range(rng.randrange(1, 3))]
    if s['kind'] == 'co':
        prog['co'] = [act(rng, ids, wild, at) for _ in range(rng.randrange(1, 4))]
        prog.pop('execute', None)
        if rng.random() < 0.5:
            prog['co'][-1]['return'] = True
    for ph in range(s.get('phases', 0)):
        if rng.random() < 0.25:
            prog['train%d' % ph] = [act(rng, ids, wild, at, True) for _ in range(rng.randrange(1, 3))]
    if s.get('phases') and rng.random() < 0.25:
        prog['stop'] = [act(rng, ids, wild, at, True) for _ in range(s['phases'])]
    if s.get('phases') and rng.random() < 0.1:
        s['stop_result'] = [[clean(b01.rand_msg(rng, ids, 0.0, wild)), b01.rand_target(rng, ids, 0, at)]
                            for _ in range(s['phases'])]
    s['prog'] = prog


def rand_chunks(rng, ids, start, none=None, targets=False):
    n = rng.choice([1, 2, 3, 4])
    if none is None:
        none = rng.random() < 0.08
    res = []
    for _ in range(n):
        x = None if none else [[start[0] + i, rng.randrange(20)] for i in range(rng.randrange(1, 4))]
        start[0] += 5
        m = clean(b01.rand_msg(rng, ids, 0.04, 0)) if none or rng.random() < 0.6 else None
        if m:
            m.pop('target', None)
            m.pop('method', None)
        if none and not m:
            m = {'zz->c': ['i', start[0]]}
        c = {'x': x, 'm': m}
        if targets:
            c['t'] = rng.choice(ids + [1, 0]) if rng.random() < 0.15 else None
        res.append(c)
    return res


def gen(rng):
    ids = []
    specs = [gen_node(rng, 'n%d' % i, ids, 1) for i in range(rng.choice([1, 2, 2, 3, 3, 4]))]
    if not any(s.get('phases') for s in walk(specs)):
        for s in walk(specs):
            s['phases'] = 1
            break
    wild = rng.choice([0.0, 0.0, 0.02])
    fill(rng, specs, ids, wild)
    start = [1]
    ops = []
    n = len(specs)
    top = [s for s in specs]
    train = {'op': 'train', 'chunks': [rand_chunks(rng, ids, start) for _ in range(n)],
             'stops': [clean(b01.rand_msg(rng, ids, 0.0)) if rng.random() < 0.3 and top[i]['kind'] != 'norm' and
                       top[i]['kind'] != 'layer' else None for i in range(n)],
             'how': rng.choice(['direct', 'direct', 'direct', 'list', 'gen', 'manual', 'none']),
             'none': rng.random() < 0.5, 'over': rng.random() < 0.85,
             'form': rng.choice(['lists', 'lists', 'lists', 'class', 'array'])}
    if train['form'] == 'array':
        c = rand_chunks(rng, ids, start, False)[0]
        train['chunks'] = [[c]] * n
    for st in train['stops']:
        if st:
            # the routing of stop messages is the subject of B01
            for k in list(st):
                if '->' not in k and rng.random() < 0.7:
                    del st[k]
    if not any(train['stops']):
        train['stops'] = None
    if rng.random() < 0.2:
        train['checkpoints'] = [rng.random() < 0.6 for _ in range(n)]
    ops.append(train)
    for _ in range(rng.choice([0, 1, 1, 2])):
        op = {'op': 'exec', 'chunks': rand_chunks(rng, ids, start, None, True),
              'form': rng.choice(['lists', 'lists', 'iter', 'array']), 'over': rng.random() < 0.85,
              'how': rng.choice(['direct', 'direct', 'direct', 'manual', 'none'])}
        if op['form'] == 'array' and op['chunks'][0]['x'] is not None:
            del op['chunks'][1:]
        elif op['form'] == 'array':
            op['form'] = 'lists'
        ops.append(op)
    kind = rng.choice(['serial', 'thread', 'thread', 'process'])
    case = {'nodes': specs, 'ops': ops, 'kind': kind,
            'n': rng.choice([1, 2, 2, 3, 4]) if kind == 'thread' else rng.choice([1, 2, 2]),
            'cache': rng.random() < 0.7, 'container': rng.choice([None, None, 'list', 'ordered', 'custom']),
            'sched': sc.gen_sched(rng, 0.25),
            'delays': [round(rng.choice([0.0, 0.001, 0.01, 0.3, 4.0]), 4) for _ in range(8)],
            'split': rng.choice([None, None, 0.0, 0.4]), 'fault': None}
    if rng.random() < 0.45:
        case['fault'] = gen_fault(rng, case, ids)
        case['fault']['op'] = rng.randrange(len(ops))
        del ops[case['fault']['op'] + 1:]
    return case


def gen_fault(rng, case, ids):
    kinds = ['iter', 'iter', 'boom', 'boom', 'boom', 'stop', 'fork', 'join', 'join', 'add', 'get', 'msgiter']
    if case['ops'][0]['how'] in ('list', 'gen'):
        kinds += ['short', 'genraise']
    if case['kind'] == 'process':
        kinds += ['worker', 'worker', 'worker']
    k = rng.choice(kinds)
    return {'k': k, 'i': rng.randrange(8), 'j': rng.randrange(4), 'p': rng.randrange(2),
            'how': rng.choice(['before', 'during', 'torn', 'garbage', 'after']), 'cut': rng.choice([0.0, 0.3, 0.7])}


# ---------------------------------------------------------------- run

class Source(object):

    def __init__(self, items, fail=None):
        self.items = items
        self.fail = fail
        self.n = 0

    def __iter__(self):
        k = self.n
        self.n += 1
        for i, x in enumerate(self.items):
            if self.fail == [k, i]:
                raise pc.IterError('iteration %d fails at %d' % (k, i))
            yield x


def arr(x):
    return None if x is None else np.array(x, dtype=float)


class BRun(object):

    def __init__(self, case):
        self.case = case
        self.res = Result()
        self.schedulers = []
        self.shared = None
        self.faulty = False
        self.exc = None

    def build(self, cls):
        cps = any(op.get('checkpoints') for op in self.case['ops'])
        nodes = [pbnodes.make(s) for s in self.case['nodes']]
        if cls == 'serial':
            return (bimdp.BiCheckpointFlow if cps else bimdp.BiFlow)(nodes)
        return (bimdp.parallel.ParallelCheckpointBiFlow if cps else bimdp.parallel.ParallelBiFlow)(nodes)

    def setup(self):
        if not self.case['ops'] or self.case['ops'][0]['op'] != 'train':
            raise SkipCase('not trained')
        self.ref = self.build('serial')
        self.flow = self.build('parallel')
        # what the serial flow does with the same calls
        self.want = []
        self.states = []
        self.refused = None
        pbnodes.watch(5000)
        try:
            self.reference()
        except pbnodes.Endless:
            raise SkipCase('endless routing')
        except pbnodes.Untrained:
            raise SkipCase('untrained node executed')
        finally:
            pbnodes.watch(None)

    def reference(self):
        for k, op in enumerate(self.case['ops']):
            f = self.case['fault']
            if f is not None and f['op'] == k:
                self.before = self.ref.copy()
                bad = self.ref.copy()
                self.faulty = True
                try:
                    out = self.serial(bad, op)
                    self.must_fail = False
                    self.bad = norm(out), self.state(bad)
                except (pbnodes.Endless, pbnodes.Untrained):
                    raise
                except Exception as e:
                    # what else the serial flow refuses is the subject of B01
                    self.must_fail = isinstance(e, (RouteFailure, pc.IterError))
                    self.bad = None
                self.faulty = False
            try:
                out = self.serial(self.ref, op)
            except (pbnodes.Endless, pbnodes.Untrained):
                raise
            except Exception as e:
                if k == 0 or core.DEBUG and k == 0:
                    raise SkipCase('serial %s refuses: %s %s' % (op['op'], type(e).__name__, str(e)[:70]))
                if f is not None and f['op'] == k:
                    raise SkipCase('refused anyway')
                del self.case['ops'][k + 1:]
                self.refused = type(e).__name__, str(e)
                self.case['fault'] = None
                self.res.count('refused')
                break
            self.want.append(norm(out))
            self.states.append(self.state(self.ref))
        self.res.count('ops', len(self.want))

    def state(self, flow):
        res = []
        for n in pbnodes.leaves(flow):
            res.append({'name': n.spec['name'], 'seen': [sorted(map(repr, s)) for s in n.seen],
                        'stops': repr(n.stops), 'off': n.off, 'elog': sorted(map(repr, n.elog)),
                        'training': n.is_training()})
        return res

    def data(self, op):
        """(data, messages, targets) as given to the flows."""
        case, f = self.case, self.case['fault']
        faulty = self.faulty
        ids = [s['id'] for s in walk(case['nodes']) if s.get('id')]

        def boom(i, j, m):
            if faulty and f['k'] == 'boom' and f['i'] % n == i and f['j'] % len(op['chunks'][i] if n > 1 else ch) == j \
                    and ids:
                m = dict(m or {})
                m['%s->a' % ids[f['p'] % len(ids)]] = 'BOOM'
            return m
        if op['op'] == 'exec':
            n = 1
            ch = op['chunks']
            xs = [arr(c['x']) for c in ch]
            ms = [boom(0, j, build_msg(c['m'])) for j, c in enumerate(ch)]
            ts = [c.get('t') for c in ch]
            if op['form'] == 'array':
                return xs[0], ms[0], ts[0]
            fail = [0, f['j'] % len(xs)] if faulty and f['k'] == 'iter' else None
            mfail = [0, f['j'] % len(xs)] if faulty and f['k'] == 'msgiter' else None
            mk = Source if op['form'] == 'iter' or fail or mfail else (lambda s, f: list(s))
            return (mk(xs, fail), mk(ms, mfail) if any(ms) or mfail else None,
                    list(ts) if any(t is not None for t in ts) else None)
        n = len(op['chunks'])
        ch = op['chunks'][0]
        xs = [[arr(c['x']) for c in cc] for cc in op['chunks']]
        ms = [[boom(i, j, build_msg(c['m'])) for j, c in enumerate(cc)] for i, cc in enumerate(op['chunks'])]
        stops = None
        if op['stops'] is not None or faulty and f['k'] == 'stop':
            stops = [build_msg(s) for s in op['stops'] or [None] * n]
            if faulty and f['k'] == 'stop' and case['nodes'][f['i'] % n]['kind'] not in ('norm', 'layer'):
                s = case['nodes'][f['i'] % n]
                stops[f['i'] % n] = dict(stops[f['i'] % n] or {})
                stops[f['i'] % n]['c'] = 'BOOM'
        if op['form'] == 'array' and not (faulty and f['k'] in ('iter', 'msgiter')):
            return xs[0][0], ms[f['i'] % n if faulty and f['k'] == 'boom' else 0][0], stops
        d, m = [], []
        for i in range(n):
            fail = [f['p'], f['j'] % len(xs[i])] if faulty and f['k'] == 'iter' and f['i'] % n == i else None
            mfail = [f['p'], f['j'] % len(xs[i])] if faulty and f['k'] == 'msgiter' and f['i'] % n == i else None
            mk = Source if op['form'] == 'class' or fail or mfail else (lambda s, f: list(s))
            d.append(mk(xs[i], fail))
            m.append(mk(ms[i], mfail) if any(ms[i]) or mfail else None)
        if all(v is None for v in m):
            m = None
        return d, m, stops

    def checkpoints(self, flow, op):
        if not isinstance(flow, bimdp.BiCheckpointFlow):
            return None
        self.cplog = []
        # the parallel flow calls them for the nodes which it trains
        need = [n.is_training() for n in flow]

        def fn(i):
            def g(node):
                if need[i]:
                    self.cplog.append([i, node.is_training()])
            return g
        return [fn(i) if c else None for i, c in enumerate(op.get('checkpoints') or [False] * len(op['chunks']))]

    def serial(self, flow, op):
        d, m, t = self.data(op)
        if op['op'] == 'exec':
            return flow.execute(d, m, t)
        kw = {}
        cps = self.checkpoints(flow, op)
        if cps is not None:
            kw['checkpoints'] = cps
        flow.train(d, msg_iterables=m, stop_messages=t, **kw)
        if cps is not None:
            return self.cplog

    # -- schedulers
    def make_scheduler(self):
        c = self.case
        if c['kind'] == 'serial':
            s = pc.CSerial()
        elif c['kind'] == 'thread':
            s = pc.CThread(n_threads=c['n'], copy_callable=True)
        else:
            s = pc.CProcess(n_processes=c['n'], cache_callable=c['cache'])
        f = c['fault']
        if self.faulty and f['k'] == 'add':
            s.fail_add = f['i']
        if self.faulty and f['k'] == 'get':
            s.fail_get = f['j'] % 3
        pc.set_container(s, c.get('container'))
        self.schedulers.append(s)
        return s

    def direct(self):
        f = self.case['fault']
        if self.shared is None:
            self.shared = self.make_scheduler()
        if self.faulty and f['k'] == 'add':
            self.shared.fail_add = self.shared.n_add + f['i']
        if self.faulty and f['k'] == 'get':
            self.shared.fail_get = self.shared.n_get + f['j'] % 3
        return self.shared

    def scenario(self, sim):
        c = self.case
        self.sim = sim

        def plan_for(proc):
            def plan(i, data):
                d = {'delay': c['delays'][(proc.index * 3 + i) % len(c['delays'])], 'split': c['split']}
                f = c['fault']
                if self.faulty and f['k'] == 'worker' and not self.died and (f['j'] == i or f['i'] % 2):
                    self.died = True
                    d['fault'] = f['how']
                    d['cut'] = f['cut']
                    d['delay'] += 0.01
                return d
            return plan
        sim.proc_plan = plan_for
        self.died = False
        try:
            for k, op in enumerate(c['ops']):
                self.k = k
                self.faulty = c['fault'] is not None and c['fault']['op'] == k
                self.do(op)
                if self.res.violations:
                    break
        finally:
            for s in self.schedulers:
                if not s.n_shut:
                    par.Scheduler.shutdown(s) if c['kind'] == 'serial' else s.shutdown()
        if mdp.get_active_extensions():
            self.res.violate('extension-active', 'extensions %s are active at the end' % mdp.get_active_extensions())

    def do(self, op):
        sim = self.sim
        c = self.case
        f = c['fault']
        self.taken = []
        out, exc = None, None
        trained = [not n.is_training() for n in self.flow]
        if self.faulty and f['k'] in ('fork', 'join'):
            lv = list(pbnodes.leaves(self.flow))
            lv[f['i'] % len(lv)].plan = f['k']
        sim.log('op', self.k, op['op'], op['how'])
        try:
            out = self.parallel(op)
        except core.SimAbort:
            raise
        except Exception as e:
            exc = e
            sim.log('op-raises', type(e).__name__)
            if core.DEBUG:
                import traceback
                traceback.print_exc(file=open('/tmp/vsim_debug.log', 'a'))
        sim.progress()
        where = 'op %d (%s, %s)' % (self.k, op['op'], op['how'])
        if mdp.get_active_extensions():
            self.res.violate('extension-active', '%s: extensions %s stay active' % (where, mdp.get_active_extensions()))
            return
        self.check_schedulers(op)
        if self.refused and self.k == len(self.case['ops']) - 1:
            if exc is None:
                self.res.violate('not-refused', '%s returns %s, serial raises %s: %s' % ((where, norm(out)) + self.refused))
            return
        if exc is not None:
            if not self.faulty:
                self.res.violate('unexpected-error', '%s raises %s: %s' % (where, type(exc).__name__, str(exc)[-300:]))
                return
            sim.count('fault:' + f['k'])
            self.after_failure(op, trained)
            return
        if self.faulty and self.must_fail:
            self.res.violate('error-swallowed', '%s did not raise although the serial flow does: %s' % (where, f))
            return
        if self.faulty:
            for n in pbnodes.leaves(self.flow):
                n.plan = None
        want, states = self.want[self.k], self.states[self.k]
        if self.faulty:
            if self.bad is None:
                return
            want, states = self.bad
        if norm(out) != want:
            self.res.violate('result-differs', '%s: %s, serial: %s' % (where, norm(out), want))
            return
        self.check_state(states, where)
        if op['op'] == 'train' and op['how'] != 'manual':
            try:
                self.flow.copy()
                self.flow.save(None)
            except Exception as e:
                self.res.violate('not-copyable', '%s: flow cannot be copied or saved: %r' % (where, e))

    def check_state(self, want, where):
        for a, b in zip(self.state(self.flow), want):
            if a != b:
                k = [k for k in a if a[k] != b[k]][0]
                self.res.violate('nodes-differ', '%s: node %s: %s is %s, serial: %s' % (
                    where, a['name'], k, str(a[k])[:300], str(b[k])[:300]))
                return

    def parallel(self, op):
        flow = self.flow
        d, m, t = self.data(op)
        kw = {}
        if op['op'] == 'exec':
            if op['how'] == 'none':
                return flow.execute(d, m, t)
            if op['how'] == 'manual':
                with mdp.extension('parallel'):
                    flow.setup_parallel_execution(d, m, t)
                    try:
                        return flow.use_results(self.manual(flow, True))
                    except Exception:
                        flow._abort_parallel_run()
                        raise
            s = self.direct()
            return flow.execute(d, m, t, scheduler=s, overwrite_result_container=op['over'] or
                                not pc.keeps_order(s.result_container))
        cps = self.checkpoints(flow, op)
        if cps is not None:
            kw['checkpoints'] = cps
        out = lambda: self.cplog if cps is not None else None
        kw.update(msg_iterables=m, stop_messages=t)
        if op['how'] == 'none':
            flow.train(d, **kw)
            return out()
        if op['how'] == 'manual':
            with mdp.extension('parallel'):
                flow.setup_parallel_training(d, **kw)
                try:
                    while flow.is_parallel_training:
                        flow.use_results(self.manual(flow, False))
                except Exception:
                    flow._abort_parallel_run()
                    raise
            return out()
        kw['overwrite_result_container'] = op['over']
        if op['how'] == 'direct':
            s = self.direct()
            if isinstance(s.result_container, par.ExecuteResultContainer):
                kw['overwrite_result_container'] = True
            flow.train(d, scheduler=s, **kw)
            return out()
        f = self.case['fault']
        cut = f['i'] % (len(flow) + 1) if self.faulty and f['k'] in ('short', 'genraise') else None
        need = [nd.is_training() for nd in flow]

        def source():
            for i in range(len(flow)):
                if cut is not None and i >= cut:
                    if f['k'] == 'short':
                        return
                    raise pc.SchedError('no scheduler')
                if not need[i] and op['none']:
                    yield None
                    continue
                s = self.make_scheduler()
                self.taken.append(s)
                yield s
        src = source()
        if op['how'] == 'list' and not (self.faulty and f['k'] == 'genraise'):
            src = list(src)
        flow.train(d, scheduler=src, **kw)
        return out()

    def manual(self, flow, ordered):
        rng = random.Random(len(flow) * 7 + len(self.case['ops']))
        tasks = []
        call = None
        while flow.task_available:
            data, c = flow.get_task()
            call = c if c is not None else call
            tasks.append((len(tasks), data, call))
        rng.shuffle(tasks)
        got = [(i, c.fork()(data)) for i, data, c in tasks]
        if ordered:
            got.sort(key=lambda g: g[0])
        return [g[1] for g in got]

    def check_schedulers(self, op):
        if op['op'] == 'train' and op['how'] in ('list', 'gen'):
            pulled = self.taken
            if op['how'] == 'gen':
                bad = [i for i, s in enumerate(pulled) if s.n_shut != 1]
            else:
                bad = [i for i, s in enumerate(pulled) if s.n_shut > 1]
                last = max([-1] + [i for i, s in enumerate(pulled) if s.n_shut or s.n_add])
                bad += [i for i, s in enumerate(pulled[:last + 1]) if s.n_shut != 1]
            if bad:
                self.res.violate('scheduler-shutdown', 'schedulers %s (of %d taken) were shut down %s times' %
                                 (bad, len(pulled), [pulled[i].n_shut for i in bad]))
        elif self.shared is not None and self.shared.n_shut:
            self.res.violate('scheduler-shutdown', 'a scheduler passed directly was shut down')

    def after_failure(self, op, trained):
        """The flow must be usable again."""
        flow, res, f = self.flow, self.res, self.case['fault']
        self.faulty = False
        for n in pbnodes.leaves(flow):
            n.plan = None
        if self.shared is not None:
            self.shared.fail_add = self.shared.fail_get = None
        if op['how'] == 'none':
            return
        if flow.is_parallel_training or flow.is_parallel_executing or flow.task_available:
            res.violate('stuck', 'flow is stuck in a parallel state after %s' % f)
            return
        try:
            flow.copy()
            flow.save(None)
        except Exception as e:
            res.violate('not-copyable', 'flow cannot be copied or saved after a failure: %r' % e)
            return
        nested = any(s['kind'] in ('flow', 'clone', 'layer') for s in self.case['nodes'])
        for i, n in enumerate(flow):
            if trained[i] and n.is_training():
                res.violate('untrained', 'node %d lost its training' % i)
                return
        if f['k'] == 'stop' and nested:
            # an inner node may have been stopped by then
            return
        op2 = dict(op, how='direct', over=True)
        left = 1 if f['k'] == 'worker' else 0
        cont = op['op'] == 'train' and any(n.is_training() for n in flow)
        if op['op'] == 'train':
            # the trained nodes stay as they are
            done = [i for i, n in enumerate(flow) if not n.is_training()]
            snap = dict((i, self.state([flow[i]])) for i in done)
        while True:
            try:
                out = self.parallel(op2)
                break
            except core.SimAbort:
                raise
            except Exception as e:
                if left:
                    left -= 1
                    continue
                if op['op'] == 'train' and isinstance(e, (mdp.FlowException, bimdp.BiFlowException)) and trained_ok(e):
                    return
                res.violate('retry-fails', '%s again raises %s: %s' % (op['op'], type(e).__name__, str(e)[-300:]))
                return
        if op['op'] == 'exec':
            if norm(out) != self.want[self.k]:
                res.violate('result-differs', 'after a failure: %s, serial: %s' % (norm(out), self.want[self.k]))
            return
        bad = [i for i, n in enumerate(flow) if n.is_training()]
        if bad:
            res.violate('not-trained', 'nodes %s are not trained after training again' % bad)
            return
        for i in done:
            now = self.state([flow[i]])
            for a, b in zip(now, snap[i]):
                a.pop('elog')
                b.pop('elog')
                if a != b:
                    res.violate('retrained', 'trained node %d changed by training again' % i)
                    return
        if f['k'] not in ('stop', 'join', 'worker') and not any(
                s['kind'] in ('loc', 'half') for s in walk(self.case['nodes'])) and not nested:
            want = [dict(s, elog=None) for s in self.states[self.k]]
            got = [dict(s, elog=None) for s in self.state(flow)]
            # the results of the failed phase were not joined
            for a, b in zip(got, want):
                if a['seen'] != b['seen']:
                    res.violate('nodes-differ', 'after training again: node %s was trained with %s, should be %s' % (
                        a['name'], str(a['seen'])[:300], str(b['seen'])[:300]))
                    return


def trained_ok(e):
    return False


def run(case):
    case = dict(case, ops=list(case['ops']))
    warnings.simplefilter('ignore')
    tr = ()
    if case['sched'].get('lines'):
        tr = pc.TRACE_ALL if case['sched'].get('all') else pc.TRACE
    r = BRun(case)
    res = r.res
    try:
        r.setup()
    except SkipCase as e:
        res.count('skipped:%s' % e)
        res.sig = res.digest = 'skipped'
        return res
    sim = core.Sim(case['sched'], tr)
    sim.run(r.scenario)
    for name in list(mdp.get_active_extensions()):
        mdp.deactivate_extension(name)
    if sim.hang:
        res.violate('hang', sim.hang)
    elif sim.aborted and sim.aborted != 'end':
        res.violate('hang', 'aborted: %s' % sim.aborted)
    for k, v in sim.stats.items():
        res.count(k, v)
    res.count('kind:' + case['kind'])
    for s in case['nodes']:
        res.count('node:' + s['kind'])
    res.simtime = sim.now
    res.trace = sim.chooser.taken if 'trace' not in case['sched'] else case['sched']['trace']
    res.yields = sim.yields
    res.switches = sim.switches
    res.digest = res.sig = sim.digest()
    res.nontrivial = True
    return res


def simplify(case):
    if len(case['ops']) > 1 and (case['fault'] is None or case['fault']['op'] < len(case['ops']) - 1):
        yield dict(case, ops=case['ops'][:-1])
    if case['kind'] != 'serial':
        yield dict(case, kind='serial')
    nodes = case['nodes']
    if len(nodes) > 1 and case['fault'] is None:
        for i in range(len(nodes)):
            ops = []
            for op in case['ops']:
                if op['op'] == 'train':
                    op = dict(op, chunks=op['chunks'][:i] + op['chunks'][i + 1:],
                              stops=op['stops'] and op['stops'][:i] + op['stops'][i + 1:])
                    if op.get('checkpoints'):
                        op['checkpoints'] = op['checkpoints'][:i] + op['checkpoints'][i + 1:]
                ops.append(op)
            yield dict(case, nodes=nodes[:i] + nodes[i + 1:], ops=ops)
    for i, s in enumerate(nodes):
        for m in list(s.get('prog') or {}):
            yield dict(case, nodes=nodes[:i] + [dict(s, prog=dict((k, v) for k, v in s['prog'].items() if k != m))] +
                       nodes[i + 1:])
        for key in ('ef', 'copies', 'stop_result'):
            if s.get(key):
                yield dict(case, nodes=nodes[:i] + [dict((k, v) for k, v in s.items() if k != key)] + nodes[i + 1:])
        if s['kind'] == 'clone' and (s['node'].get('prog')):
            yield dict(case, nodes=nodes[:i] + [dict(s, node=dict(s['node'], prog={}))] + nodes[i + 1:])
        if s['kind'] == 'flow':
            for j, t in enumerate(s['nodes']):
                if len(s['nodes']) > 1:
                    yield dict(case, nodes=nodes[:i] + [dict(s, nodes=s['nodes'][:j] + s['nodes'][j + 1:])] +
                               nodes[i + 1:])
                if t.get('prog'):
                    yield dict(case, nodes=nodes[:i] + [dict(s, nodes=s['nodes'][:j] + [dict(t, prog={})] +
                                                             s['nodes'][j + 1:])] + nodes[i + 1:])
    for k, op in enumerate(case['ops']):
        if op['op'] == 'train':
            for i, cc in enumerate(op['chunks']):
                if op['form'] != 'array' and len(cc) > 1:
                    n = dict(op, chunks=op['chunks'][:i] + [cc[:-1]] + op['chunks'][i + 1:])
                    yield dict(case, ops=case['ops'][:k] + [n] + case['ops'][k + 1:])
            if op['stops']:
                yield dict(case, ops=case['ops'][:k] + [dict(op, stops=None)] + case['ops'][k + 1:])
            for key in ('checkpoints',):
                if op.get(key):
                    yield dict(case, ops=case['ops'][:k] + [dict((a, b) for a, b in op.items() if a != key)] +
                               case['ops'][k + 1:])
        elif len(op['chunks']) > 1:
            for i in range(len(op['chunks'])):
                n = dict(op, chunks=op['chunks'][:i] + op['chunks'][i + 1:])
                yield dict(case, ops=case['ops'][:k] + [n] + case['ops'][k + 1:])
