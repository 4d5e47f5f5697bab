"""Parallel flows on simulated schedulers (P01, P02, P03)."""
import random
import re
import time
import warnings

import numpy as np

import mdp
import mdp.parallel as par

from vsim import catalog, compare, core, vnodes, vtasks
from vsim.driver import Result

from . import sched_common as sc

TRACE = sc.TRACE
TRACE_ALL = [core.REPO + '/mdp/', core.REPO + '/bimdp/']

REC = ['VAcc', 'VAcc', 'VAcc', 'VCount', 'VPlain', 'VLocal', 'VHalf']
REC_FORK = ['VAcc', 'VAcc', 'VAcc', 'VCount', 'VPlain']
ALG = ['PCANode', 'WhiteningNode', 'NIPALSNode', 'SFANode', 'SFA2Node', 'VartimeSFANode', 'FDANode',
       'HistogramNode', 'AdaptiveCutoffNode', 'GaussianClassifier', 'NearestMeanClassifier',
       'KNNClassifier', 'EtaComputerNode', 'LinearRegressionNode', 'QuadraticExpansionNode',
       'IdentityNode', 'CutoffNode', 'PCANode', 'SFANode', 'FDANode', 'GaussianClassifier']
LOCAL = {'VLocal', 'VHalf', 'EtaComputerNode', 'LinearRegressionNode', 'NIPALSNode', 'VartimeSFANode'}


class IterError(Exception):
    """Raised by a data iterator."""


class SchedError(Exception):
    """Raised by a scheduler."""


# ------------------------------------------------------------------ generation

def gen_flow(rng, mode, d=None):
    d = d or rng.choice([3, 4, 4, 6])
    specs = []
    cd = d
    n = rng.choice([1, 2, 2, 3, 4])
    nrec = rng.choice([0, 1, n]) if mode != 'P03' else rng.choice([1, n, n])
    nrec = min(nrec, n)
    pool = REC_FORK if mode == 'P03' and rng.random() < 0.7 else REC
    for i in range(n):
        if i < nrec:
            s, cd2 = catalog.rand_stage(rng, cd, pool)
        else:
            p = [t for t in ALG if cd <= 6 or t not in ('SFA2Node', 'QuadraticExpansionNode')]
            s, cd2 = catalog.rand_stage(rng, cd, p)
        if cd2 > 14:
            continue
        if catalog.is_trainable_spec(s) and i >= nrec and rng.random() < 0.12 and s['t'] in catalog.NODES:
            s['pre'] = rng.randrange(1000)
        specs.append(s)
        cd = cd2
    if not specs:
        specs = [{'t': 'VAcc', 'p': {'input_dim': d}}]
    if all(not catalog.is_trainable_spec(s) for s in specs) and rng.random() < 0.8:
        specs.insert(0, {'t': 'VAcc', 'p': {'input_dim': d, 'name': 'first'}})
    its = []
    rec_only = nrec >= n
    for s in specs:
        big = not rec_only
        lens = [rng.randint(8, 20) if big else rng.randint(1, 5)
                for _ in range(rng.randint(4, 7) if big else rng.randint(1, 6))]
        its.append({'lens': lens, 'kind': rng.choice(['list', 'list', 'class', 'gen', 'tuples'])})
        if not catalog.is_trainable_spec(s) and rng.random() < 0.5:
            its[-1]['kind'] = 'none'
    f = {'d': d, 'specs': specs, 'its': its, 'seed': rng.randrange(1 << 20), 'array': rng.random() < 0.1 and mode != 'P03',
         'double': rng.random() < 0.15}
    return f


def gen_exec(rng, flow, fi):
    n = len(flow['specs'])
    return {'op': 'exec', 'flow': fi, 'nodenr': rng.choice([None, None, rng.randrange(n)]),
            'kind': rng.choice(['list', 'array', 'gen', 'class']),
            'lens': [rng.randint(2, 6) for _ in range(rng.randint(1, 6))],
            'over': rng.random() < 0.8, 'double': rng.random() < 0.15}


def gen(rng, mode):
    nfl = rng.choice([1, 1, 2]) if mode != 'P02' else rng.choice([1, 2, 2])
    flows = [gen_flow(rng, mode) for _ in range(nfl)]
    ops = []
    if mode == 'P01':
        for i in range(nfl):
            ops.append({'op': 'train', 'flow': i, 'over': rng.random() < 0.85,
                        'how': rng.choice(['direct', 'direct', 'direct', 'list', 'gen', 'manual']),
                        'none': rng.random() < 0.5})
            if rng.random() < 0.4:
                ops.append(gen_exec(rng, flows[i], i))
    elif mode == 'P02':
        for k in range(rng.choice([1, 2, 3, 4])):
            i = rng.randrange(nfl)
            x = rng.random()
            if x < 0.8:
                o = gen_exec(rng, flows[i], i)
                o['manual'] = rng.random() < 0.15
                ops.append(o)
            elif x < 0.9:
                ops.append({'op': 'raw', 'n': rng.randint(1, 3)})
            else:
                ops.append({'op': 'train', 'flow': i, 'over': True, 'how': 'direct', 'none': True})
    else:
        i = 0
        if rng.random() < 0.75:
            ops.append({'op': 'train', 'flow': 0, 'over': True,
                        'how': rng.choice(['direct', 'direct', 'list', 'gen']), 'none': rng.random() < 0.5})
        else:
            o = gen_exec(rng, flows[0], 0)
            o['over'] = True
            ops.append(o)
    kind = rng.choice(['serial', 'thread', 'thread', 'process'])
    case = {'mode': mode, 'flows': flows, 'ops': ops, 'kind': kind,
            'n': rng.choice([1, 2, 2, 3, 4]) if kind == 'thread' else rng.choice([1, 2, 2]),
            'copy': rng.random() < 0.7, 'cache': rng.random() < 0.7,
            'container': rng.choice([None, None, 'list', 'ordered', 'custom']),
            'sched': sc.gen_sched(rng, 0.25), 'active': rng.random() < 0.15,
            'delays': [round(rng.choice([0.0, 0.001, 0.01, 0.3, 4.0]), 4) for _ in range(8)],
            'split': rng.choice([None, None, 0.0, 0.4]), 'faults': []}
    if kind == 'thread' and rng.random() < 0.15:
        case['sched']['all'] = True
    if mode == 'P03':
        case['faults'] = [gen_fault(rng, case)]
        if rng.random() < 0.15:
            case['faults'].append(gen_fault(rng, case))
            if any(f[0] == 'get' for f in case['faults']):
                # a second failing call cannot be compensated
                case['faults'] = case['faults'][:1]
        if rng.random() < 0.08:
            # nothing to do: all nodes trained
            case['pretrained'] = True
            case['faults'] = []
    return case


def gen_fault(rng, case):
    f = case['flows'][0]
    op = case['ops'][0]
    n = len(f['specs'])
    kinds = ['iter', 'iter', 'chunk', 'node', 'node', 'node', 'add', 'get']
    if op['op'] == 'train' and op['how'] in ('list', 'gen'):
        kinds += ['short', 'short', 'genraise']
    if case['kind'] == 'process':
        kinds += ['worker', 'worker']
    k = rng.choice(kinds)
    if k in ('iter', 'chunk'):
        return [k, rng.randrange(n), rng.randrange(5), rng.randrange(3)]
    if k == 'node':
        opn = rng.choice(['train', 'train', 'exec', 'exec', 'stop', 'fork', 'join'])
        return ['node', rng.randrange(8), opn, rng.randrange(40), rng.randrange(2)]
    if k in ('add', 'get'):
        return [k, rng.randrange(8 if k == 'add' else 3)]
    if k in ('short', 'genraise'):
        return [k, rng.randrange(n + 1)]
    return ['worker', rng.randrange(4), rng.randrange(4),
            rng.choice(['before', 'during', 'torn', 'garbage', 'after']), rng.choice([0.0, 0.3, 0.7])]


# ------------------------------------------------------------------ data

class Iterable(object):
    """Restartable iterable; may fail in a given iteration and position."""

    def __init__(self, items, fail=None):
        self.items = items
        self.fail = fail          # [iteration, position]
        self.n = 0

    def __iter__(self):
        k = self.n
        self.n += 1
        for i, x in enumerate(self.items):
            if self.fail and self.fail == [k, i]:
                raise IterError('iteration %d fails at %d' % (k, i))
            yield x


def chunks_for(flow, lens, rs, start):
    out = []
    for n in lens:
        x = catalog.ints(rs, n, flow['d'])
        x[:, 0] = np.arange(start, start + n)
        start += n
        out.append(x)
    return out, start


def train_data(flow):
    """List (per node) of lists of (x, *args)."""
    rs = np.random.RandomState(flow['seed'])
    start = 1
    data = []
    for s, it in zip(flow['specs'], flow['its']):
        if it['kind'] == 'none':
            data.append(None)
            continue
        ch, start = chunks_for(flow, it['lens'], rs, start)
        kind = catalog.spec_args(s)
        data.append([(x,) + catalog.make_args(rs, x, kind) for x in ch])
    return data


def exec_data(flow, op):
    rs = np.random.RandomState(flow['seed'] + 77)
    ch, _ = chunks_for(flow, op['lens'], rs, 10000)
    return ch


def as_input(items, kind, fail=None, phases=1):
    if items is None:
        return None
    items = [x if len(x) > 1 else x[0] for x in items]
    if kind == 'tuples':
        items = [x if isinstance(x, tuple) else (x,) for x in items]
    if fail or kind == 'class':
        return Iterable(items, fail)
    if kind == 'gen' and phases == 1:
        return (x for x in items)
    return list(items)


# ------------------------------------------------------------------ schedulers

class CountMixin(object):
    n_shut = 0
    fail_add = None
    fail_get = None
    n_add = 0
    n_get = 0

    def shutdown(self):
        self.n_shut += 1
        super(CountMixin, self).shutdown()

    def add_task(self, *args, **kwargs):
        k = self.n_add
        self.n_add += 1
        if self.fail_add is not None and k == self.fail_add:
            raise SchedError('add_task fails')
        super(CountMixin, self).add_task(*args, **kwargs)

    def get_results(self):
        k = self.n_get
        self.n_get += 1
        if self.fail_get is not None and k == self.fail_get:
            raise SchedError('get_results fails')
        return super(CountMixin, self).get_results()


def set_container(s, kind):
    """The scheduler comes with a result container chosen by the user."""
    if kind == 'list':
        s.result_container = par.ListResultContainer()
    elif kind == 'ordered':
        s.result_container = par.OrderedResultContainer()
    elif kind == 'custom':
        s.result_container = sc.CustomContainer()


def keeps_order(container):
    return type(container) is not par.ListResultContainer and not isinstance(container, par.TrainResultContainer)


class CSerial(CountMixin, par.Scheduler):
    pass


class CThread(CountMixin, par.ThreadScheduler):
    pass


class CProcess(CountMixin, par.ProcessScheduler):
    pass


def close(flow):
    """Close last phases, which serial training leaves open until execution."""
    for n in flow:
        if n.is_training() and n._train_phase_started and n.get_remaining_train_phase() == 1:
            n.stop_training()


def trained_phases(node):
    return len(node._train_seq) if node.is_trainable() else 0


class PRun(object):

    def __init__(self, case):
        self.case = case
        self.res = Result()
        self.schedulers = []

    # -- construction
    def setup(self):
        """Build flows and serial references (outside of the simulation)."""
        c = self.case
        self.flows = []
        self.refs = []
        self.data = []
        for f in c['flows']:
            nodes = [catalog.make(s) for s in f['specs']]
            ref = mdp.Flow([catalog.make(s) for s in f['specs']])
            data = train_data(f)
            flow = par.ParallelFlow(nodes)
            if c['mode'] == 'P02' or c.get('pretrained') or (
                    c['mode'] == 'P03' and c['ops'][0]['op'] == 'exec'):
                self.train_ref(f, ref, data)
                t = mdp.Flow([n.copy() for n in ref])
                close(t)
                flow2 = mdp.Flow(nodes)
                self.train_ref(f, flow2, data)
                if any(op['op'] == 'train' for op in c['ops']):
                    close(ref)
                    close(flow2)
                self.trained0 = True
            self.flows.append(flow)
            self.refs.append(ref)
            self.data.append(data)

    def train_ref(self, f, ref, data):
        d = []
        for items in data:
            if items is None:
                d.append(None)
            else:
                items = [((vnodes.pre(x[0]) if f['double'] else x[0]),) + x[1:] for x in items]
                d.append([x if len(x) > 1 else x[0] for x in items])
        if self.use_array(f):
            a = data[0][0][0]
            ref.train(vnodes.pre(a) if f['double'] else a)
        else:
            ref.train(d)

    def use_array(self, f):
        return f['array'] and all(catalog.spec_args(s) is None for s in f['specs']) and \
            f['its'][0]['kind'] != 'none'

    def make_scheduler(self):
        c = self.case
        kw = {}
        if c['kind'] == 'serial':
            s = CSerial()
        elif c['kind'] == 'thread':
            s = CThread(n_threads=c['n'], copy_callable=c['copy'])
        else:
            s = CProcess(n_processes=c['n'], cache_callable=c['cache'])
        for f in c['faults']:
            if f[0] == 'add' and self.faulty:
                s.fail_add = f[1]
            if f[0] == 'get' and self.faulty:
                s.fail_get = f[1]
        set_container(s, c.get('container'))
        self.schedulers.append(s)
        return s

    # -- the simulated part
    def scenario(self, sim):
        c = self.case
        self.sim = sim
        self.faulty = c['mode'] == 'P03'
        wf = {(f[1], f[2]): f for f in c['faults'] if f[0] == 'worker'}

        def plan_for(proc):
            def plan(i, data):
                d = {'delay': c['delays'][(proc.index * 3 + i) % len(c['delays'])], 'split': c['split']}
                f = wf.get((proc.index, i))
                if f is not None and self.faulty:
                    d['fault'] = f[3]
                    d['cut'] = f[4]
                    d['delay'] += 0.01
                return d
            return plan
        sim.proc_plan = plan_for
        self.shared = None
        if c['active']:
            mdp.activate_extension('parallel')
        try:
            for k, op in enumerate(c['ops']):
                self.do(k, op)
                if self.res.violations:
                    break
            if c['mode'] == 'P03' and not self.res.violations:
                self.faulty = False
                self.after_failure()
        finally:
            if c['active']:
                mdp.deactivate_extension('parallel')
            for s in self.schedulers:
                if not s.n_shut:
                    par.Scheduler.shutdown(s) if c['kind'] == 'serial' else s.shutdown()
        if mdp.get_active_extensions():
            self.res.violate('extension-active', 'extensions %s are active at the end' %
                             mdp.get_active_extensions())

    def direct(self):
        if self.shared is None:
            self.shared = self.make_scheduler()
        return self.shared

    def do(self, k, op):
        c = self.case
        sim = self.sim
        sim.log('op', k, op['op'])
        before = list(mdp.get_active_extensions())
        exc = None
        if op['op'] == 'raw':
            self.raw(op)
            return
        self.flow_schedulers = []
        f = c['flows'][op['flow']]
        flow = self.flows[op['flow']]
        out = None
        if self.faulty:
            self.plant(op, f, flow)
        self.pre = None
        if op['op'] == 'exec' and not any(n.is_training() for n in flow):
            self.pre = [compare.snapshot(n) for n in catalog.leaves(flow)]
        self.trained_before = [not n.is_training() for n in flow]
        try:
            if op['op'] == 'train':
                self.train(op, f, flow)
            else:
                out = self.execute(op, f, flow)
        except core.SimAbort:
            raise
        except Exception as e:
            exc = e
            sim.log('op-raises', type(e).__name__)
            if core.DEBUG:
                import traceback
                traceback.print_exc(file=open('/tmp/vsim_debug.log', 'a'))
        sim.progress()
        self.exc = exc
        if exc is not None and numeric_noise(exc):
            self.noise = True
        if list(mdp.get_active_extensions()) != before:
            self.res.violate('extension-active', 'active extensions after %s: %s, before: %s' %
                             (op['op'], mdp.get_active_extensions(), before))
        self.check_schedulers(op)
        if exc is not None:
            if not self.faulty:
                self.res.violate('unexpected-error', '%s raises %s: %s' %
                                 (op['op'], type(exc).__name__, str(exc)[-300:]))
            return
        if self.must_fail(op, f):
            self.res.violate('error-swallowed', '%s did not raise although %s' %
                             (op['op'], c['faults']))
            return
        ref = self.refs[op['flow']]
        if op['op'] == 'train':
            if not getattr(self, 'trained0', False):
                self.train_ref_again(op, f, ref)
            for i, n in enumerate(flow):
                if n.is_training():
                    self.res.violate('not-trained', 'node %d is not trained' % i)
                    return
            self.check_nodes(flow, ref)
        else:
            self.check_exec(op, f, flow, ref, out)

    def train_ref_again(self, op, f, ref):
        if all(not n.is_training() for n in ref):
            return
        with self.sim.paused():
            self.train_ref(f, ref, self.data[op['flow']])
            close(ref)

    def train(self, op, f, flow):
        data = self.data[op['flow']]
        inp = []
        for i, (items, it) in enumerate(zip(data, f['its'])):
            fail = None
            if items is not None:
                items = list(items)
                for fl in self.case['faults'] if self.faulty else ():
                    if fl[0] == 'iter' and fl[1] == i:
                        fail = [fl[3] % max(1, trained_phases(flow[i])), fl[2] % len(items)]
                    if fl[0] == 'chunk' and fl[1] == i:
                        x = items[fl[2] % len(items)]
                        items[fl[2] % len(items)] = (np.ones((3, f['d'] + 1)),) + x[1:]
            inp.append(as_input(items, it['kind'], fail, trained_phases(flow[i])))
        if self.use_array(f) and not self.faulty:
            inp = data[0][0][0]
        kw = {}
        if f['double']:
            kw['train_callable_class'] = vnodes.DoubleTrainCallable
        if op['how'] == 'manual':
            with mdp.extension('parallel'):
                self.manual_train(flow, inp, kw)
            return
        kw['overwrite_result_container'] = op['over']
        if op['how'] == 'direct':
            if isinstance(self.direct().result_container, par.ExecuteResultContainer):
                kw['overwrite_result_container'] = True
            flow.train(inp, scheduler=self.direct(), **kw)
            return
        n = len(flow)
        cut = None
        boom = None
        for fl in self.case['faults'] if self.faulty else ():
            if fl[0] == 'short':
                cut = fl[1]
            if fl[0] == 'genraise':
                boom = fl[1]

        def source():
            for i in range(n):
                if cut is not None and i >= cut:
                    self.sim.count('fault:too-few-schedulers')
                    return
                if boom is not None and i == boom:
                    self.sim.count('fault:scheduler-generator-raises')
                    raise SchedError('no scheduler')
                if not self.need[i] and op['none']:
                    yield None
                    continue
                s = self.make_scheduler()
                self.flow_schedulers.append(s)
                yield s
        self.need = [nd.is_training() for nd in flow]
        src = source()
        if op['how'] == 'list' and boom is None:
            src = list(src)
        flow.train(inp, scheduler=src, **kw)

    def manual_train(self, flow, inp, kw):
        rng = random.Random(len(flow) * 7 + self.case['flows'][0]['seed'])
        flow.setup_parallel_training(inp, **kw)
        while flow.is_parallel_training:
            tasks = []
            while flow.task_available:
                tasks.append(flow.get_task())
            call = None
            pairs = []
            for data, c in tasks:
                call = c if c is not None else call
                pairs.append((data, call))
            rng.shuffle(pairs)
            flow.use_results([c.fork()(data) for data, c in pairs])

    def exec_input(self, op, f):
        ch = exec_data(f, op)
        fail = None
        for fl in self.case['faults'] if self.faulty else ():
            if fl[0] == 'iter' and op['kind'] != 'array':
                fail = [0, fl[2] % len(ch)]
            if fl[0] == 'chunk':
                ch[fl[2] % len(ch)] = np.ones((3, f['d'] + 1))
        if op['kind'] == 'array':
            return ch[0]
        return as_input([(x,) for x in ch], op['kind'], fail)

    def execute(self, op, f, flow):
        x = self.exec_input(op, f)
        kw = {'nodenr': op['nodenr']}
        if op['double']:
            kw['execute_callable_class'] = vnodes.DoubleExecCallable
        if op.get('manual'):
            with mdp.extension('parallel'):
                rng = random.Random(f['seed'])
                flow.setup_parallel_execution(x, **kw)
                res = []
                call = None
                while flow.task_available:
                    data, c = flow.get_task()
                    call = c if c is not None else call
                    res.append((data, call))
                order = list(range(len(res)))
                rng.shuffle(order)
                got = {}
                for i in order:
                    got[i] = res[i][1].fork()(res[i][0])
                return flow.use_results([got[i] for i in range(len(res))])
        return flow.execute(x, scheduler=self.direct(), overwrite_result_container=op['over'] or
                            not keeps_order(self.direct().result_container), **kw)

    def raw(self, op):
        s = self.direct()
        s.result_container = par.OrderedResultContainer()
        for i in range(op['n']):
            s.add_task((i, 0.0, None), vtasks.VTask(1))
        out = s.get_results()
        if [x[0] for x in out] != list(range(op['n'])):
            self.res.violate('raw-tasks', 'tasks on the same scheduler return %r' % (out,))

    # -- oracles
    def check_schedulers(self, op):
        if op['op'] == 'train' and op['how'] in ('list', 'gen'):
            pulled = self.flow_schedulers
            if op['how'] == 'gen':
                bad = [i for i, s in enumerate(pulled) if s.n_shut != 1]
            else:
                bad = [i for i, s in enumerate(pulled) if s.n_shut > 1]
                # all schedulers up to the last one used have been taken
                last = max([-1] + [i for i, s in enumerate(pulled) if s.n_shut or s.n_add])
                bad += [i for i, s in enumerate(pulled[:last + 1]) if s.n_shut != 1]
            if bad:
                self.res.violate('scheduler-shutdown', 'schedulers %s (of %d taken) were shut down %s times' %
                                 (bad, len(pulled), [pulled[i].n_shut for i in bad]))
        elif self.shared is not None and self.shared.n_shut:
            self.res.violate('scheduler-shutdown', 'a scheduler passed directly was shut down')

    def check_nodes(self, flow, ref, elog=True):
        tag = {'P01': 'training-differs'}.get(self.case['mode'], 'nodes-differ')
        if any(hasattr(n, 'pretrained') for n in catalog.leaves(flow)):
            # serial training executes nodes in front of trained ones
            elog = False
        for i, (a, b) in enumerate(zip(catalog.leaves(flow), catalog.leaves(ref))):
            d = compare_node(a, b, elog)
            if d:
                self.res.violate(tag, 'leaf %d (%s): %s' % (i, type(a).__name__, d))
                return
            if not isinstance(a, vnodes.VAcc) and compare_node(a, b, elog, sign=False):
                # later nodes see inverted signs
                self.sim.count('sign-flip')
                self.flipped = True
                return

    def check_exec(self, op, f, flow, ref, out):
        if getattr(self, 'flipped', False):
            return
        with self.sim.paused():
            ch = exec_data(f, op)
            if op['double']:
                ch = [vnodes.pre(x) for x in ch]
            exp = ref.execute(ch[0] if op['kind'] == 'array' else ch, nodenr=op['nodenr'])
        if isinstance(out, np.ndarray) and isinstance(exp, np.ndarray):
            d = compare.diff(out, exp, rtol=1e-9, sign=self.case['mode'] != 'P02')
            if d and self.case['mode'] == 'P01':
                # trained in parallel: rounding may be amplified
                d = compare.diff(out, exp, rtol=1e-4, atol=1e-6)
        else:
            d = 'result is %r' % type(out)
        if d:
            self.res.violate('result-differs', 'execution: %s' % d)
            return
        if self.pre is not None:
            self.check_unchanged(flow)
        for i, (a, b) in enumerate(zip(catalog.leaves(flow), catalog.leaves(ref))):
            if isinstance(a, vnodes.VCount) and sorted(a.elog) != sorted(b.elog) and \
                    not any(hasattr(n, 'pretrained') for n in catalog.leaves(flow)):
                self.res.violate('execute-fork-join', 'leaf %d has collected %s, expected %s' %
                                 (i, summary(a.elog, b.elog), len(b.elog)))

    def check_unchanged(self, flow):
        for i, (a, s) in enumerate(zip(catalog.leaves(flow), self.pre)):
            b = compare.snapshot(a)
            for z in (b, s):
                z.d.pop('elog', None)
            d = compare.diff(s, b, rtol=0, atol=0, sign=False, lazy=compare.LAZY)
            if d:
                self.res.violate('flow-changed', 'leaf %d (%s) changed by execution: %s' %
                                 (i, type(a).__name__, d))

    # -- faults
    def plant(self, op, f, flow):
        leaves = [n for n in catalog.leaves(flow) if isinstance(n, vnodes.VAcc)]
        self.planted = []
        for fl in self.case['faults']:
            if fl[0] == "node" and leaves and any(self.data[op["flow"]]):
                n = leaves[fl[1] % len(leaves)]
                ids = [int(i) for items in (self.data[op['flow']] if op['op'] == 'train' else
                                            [[(x,) for x in exec_data(f, op)]])
                       for it in (items or ()) for i in it[0][:, 0]]
                sid = ids[fl[3] % len(ids)]
                k = fl[4] % n.phases
                key = {'train': [k, sid], 'exec': sid, 'stop': k, 'fork': None, 'join': None}[fl[2]]
                n.plan = [[fl[2], key]]
                n.plan0 = fl[2] == 'stop'
                self.planted.append(n)

    def planted_leaves(self, flow):
        return [n for n in catalog.leaves(flow) if getattr(n, 'plan0', None)]

    def unplant(self, flow):
        for n in catalog.leaves(flow):
            if isinstance(n, vnodes.VAcc):
                n.plan = []

    def must_fail(self, op, f):
        if not self.faulty:
            return False
        for fl in self.case['faults']:
            if fl[0] in ('iter', 'chunk'):
                if op['op'] == 'exec':
                    if fl[0] == 'chunk' and op['kind'] == 'array' and fl[2] % len(op['lens']):
                        continue
                    if not (fl[0] == 'iter' and op['kind'] == 'array'):
                        return True
                elif not self.trained_before[fl[1]] and self.data[op['flow']][fl[1]] is not None:
                    return True
        return False

    def after_failure(self):
        """Everything must be usable again."""
        c = self.case
        op = c['ops'][0]
        f = c['flows'][0]
        flow = self.flows[0]
        ref = self.refs[0]
        res = self.res
        self.unplant(flow)
        if self.shared is not None:
            self.shared.fail_add = self.shared.fail_get = None
        if self.exc is not None:
            self.sim.count('failed-run')
            if flow.is_parallel_training or flow.is_parallel_executing:
                res.violate('stuck', 'flow is stuck in a parallel state after %s' % type(self.exc).__name__)
                return
            if flow.task_available:
                res.violate('stuck', 'tasks are still available after a failed run')
                return
            try:
                flow.copy()
                flow.save(None)
            except Exception as e:
                res.violate('not-copyable', 'flow cannot be copied or saved after a failure: %r' % e)
                return
        if self.exc is not None and any(n.plan0 for n in self.planted_leaves(flow)):
            # a node which cannot be closed is in an undefined state
            return
        done = [i for i, n in enumerate(flow) if not n.is_training()]
        snaps = {i: [compare.snapshot(n) for n in catalog.leaves(flow[i])] for i in done}
        if op['op'] == 'train':
            if self.exc is None:
                return
            for i in range(len(flow)):
                if self.trained_before[i] and i not in done:
                    res.violate('untrained', 'node %d lost its training' % i)
            op2 = dict(op, how=self.case.get('retry', 'direct'))
            try:
                self.train(op2, f, flow)
            except core.SimAbort:
                raise
            except Exception as e:
                res.violate('retry-fails', 'training again raises %s: %s' % (type(e).__name__, str(e)[-300:]))
                return
            bad = [i for i, n in enumerate(flow) if n.is_training()]
            if bad:
                res.violate('not-trained', 'nodes %s are not trained after training again' % bad)
                return
            for i in done:
                for a, s in zip(catalog.leaves(flow[i]), snaps[i]):
                    b = compare.snapshot(a)
                    for z in (b, s):
                        z.d.pop('elog', None)
                    d = compare.diff(s, b, rtol=0, atol=0, sign=False, lazy=compare.LAZY)
                    if d:
                        res.violate('retrained', 'trained node %d changed by training again: %s' % (i, d))
                        return
            loc = any(s['t'] in LOCAL for sp in f['specs'] for s in catalog.walk(sp))
            nodefault = any(fl[0] == 'node' and fl[2] in ('stop', 'join') for fl in c['faults'])
            if not loc and not nodefault:
                self.train_ref_again(op, f, ref)
                self.check_nodes(flow, ref, elog=False)
        # execution works on the same scheduler
        if res.violations:
            return
        op3 = {'op': 'exec', 'flow': 0, 'nodenr': None, 'kind': 'list', 'lens': [3, 2, 4], 'over': True,
               'double': False}
        with self.sim.paused():
            mine = mdp.Flow([n.copy() for n in flow])
            exp = mine.execute(exec_data(f, op3))
        left = sum(fl[0] == 'worker' for fl in c['faults'])
        while True:
            try:
                out = self.execute(op3, f, flow)
                break
            except core.SimAbort:
                raise
            except Exception as e:
                if left:
                    # a worker which died after its last task
                    left -= 1
                    continue
                err = e
            e = err
            res.violate('execute-fails', 'execution after the failure raises %s: %s' %
                        (type(e).__name__, str(e)[-300:]))
            return
        d = compare.diff(out, exp, rtol=1e-9, sign=False)
        if d:
            res.violate('result-differs', 'execution after the failure: %s' % d)


def summary(a, b):
    a, b = list(a), list(b)
    dup = sorted(set(x for x in a if a.count(x) > b.count(x)))[:5]
    mis = sorted(set(x for x in b if b.count(x) > a.count(x)))[:5]
    return '%d entries (too many: %s, missing: %s)' % (len(a), dup, mis)


def compare_node(a, b, elog=True, sign=True, rtol=1e-5):
    """Difference of two trained elementary nodes, or None."""
    if isinstance(a, vnodes.VAcc):
        for k in range(a.phases):
            if sorted(a.log[k]) != sorted(b.log[k]):
                return 'phase %d trained with %s' % (k, summary(a.log[k], b.log[k]))
            if sorted(map(tuple, a.args[k])) != sorted(map(tuple, b.args[k])):
                return 'phase %d: extra arguments differ' % k
        if a.closed != b.closed:
            return 'phases closed: %s, expected %s' % (a.closed, b.closed)
        if abs(a.off - b.off) > 1e-6:
            return 'trained offset %r, expected %r' % (a.off, b.off)
        if elog and isinstance(a, vnodes.VCount) and sorted(a.elog) != sorted(b.elog):
            return 'executed with %s' % summary(a.elog, b.elog)
        return None
    if isinstance(a, mdp.nodes.NearestMeanClassifier):
        skip = {'ordered_labels', 'ordered_means'}
    elif isinstance(a, mdp.nodes.KNNClassifier):
        for lab in a.ordered_labels:
            if lab not in b.ordered_labels:
                return 'labels %s, expected %s' % (a.ordered_labels, b.ordered_labels)
            xa = a.samples[a.sample_label_indices == a.ordered_labels.index(lab)]
            xb = b.samples[b.sample_label_indices == b.ordered_labels.index(lab)]
            d = compare.diff({'samples': xa}, {'samples': xb}, rtol=rtol, sign=sign, unordered=compare.UNORDERED)
            if d:
                return 'label %s%s' % (lab, d)
        skip = {'ordered_labels', 'samples', 'sample_label_indices'}
    else:
        skip = set()
    return compare.diff(a, b, rtol=rtol, atol=1e-7, sign=sign, skip=skip, unordered=compare.UNORDERED,
                        lazy=compare.LAZY)


def run_case(case):
    warnings.simplefilter('ignore')
    tr = ()
    if case['sched'].get('lines'):
        tr = TRACE_ALL if case['sched'].get('all') else TRACE
    r = PRun(case)
    res = r.res
    np.seterr(all='ignore')
    try:
        r.setup()
        if case['mode'] in ('P01', 'P03') and not getattr(r, 'trained0', False):
            for f, data in zip(case['flows'], r.data):
                t = mdp.Flow([catalog.make(s) for s in f['specs']])
                r.train_ref(f, t, data)
                check_conditioned(r, f, t, data)
    except Exception as e:
        # the serial run is not possible with these data
        res.count('skipped:%s' % type(e).__name__)
        res.sig = 'skipped'
        res.digest = 'skipped'
        return res
    sim = core.Sim(case['sched'], tr)
    sim.run(r.scenario)
    if getattr(r, 'noise', False):
        # a singular problem which rounding turned to the wrong side
        res.violations[:] = []
        res.count('skipped:singular')
    for name in list(mdp.get_active_extensions()):
        mdp.deactivate_extension(name)
    if sim.hang:
        res.violate('hang', sim.hang)
    elif sim.aborted and sim.aborted != 'end':
        res.violate('hang', 'aborted: %s' % sim.aborted)
    for k, v in sim.stats.items():
        res.count(k, v)
    for fl in case['faults']:
        if getattr(r, 'exc', None) is not None:
            res.count('fault:' + (fl[0] if fl[0] != 'node' else 'node-' + fl[2]))
    res.count('kind:' + case['kind'])
    for op in case['ops']:
        res.count('op:' + op['op'])
    for f in case['flows']:
        for s in f['specs']:
            for x in catalog.walk(s):
                res.count('node:' + x['t'])
    res.simtime = sim.now
    res.trace = sim.chooser.taken if 'trace' not in case['sched'] else case['sched']['trace']
    res.yields = sim.yields
    res.switches = sim.switches
    res.digest = sim.digest()
    res.sig = sim.digest()
    res.nontrivial = True
    return res


def numeric_noise(exc):
    """True if a matrix is reported as singular because of rounding errors."""
    m = re.search(r'Got negative eigenvalues: \[([^\]]*)\]', str(exc))
    if m:
        w = [float(v) for v in re.findall(r'-?[0-9.]+(?:e[-+]?[0-9]+)?', m.group(1))]
        return min(w) > -1e-9 * max(abs(v) for v in w)
    return False


class BadlyConditioned(Exception):
    pass


def check_conditioned(run, f, t, data):
    """Refuse data where tiny perturbations change the result of training."""
    close(t)
    if all(isinstance(n, vnodes.VAcc) for n in catalog.leaves(t)):
        return
    rs = np.random.RandomState(f['seed'])
    data2 = []
    for items in data:
        if items is None:
            data2.append(None)
            continue
        out = []
        for item in items:
            x = item[0].copy()
            x[:, 1:] *= 1 + 1e-9 * rs.randn(*x[:, 1:].shape)
            out.append((x,) + item[1:])
        data2.append(out)
    t2 = mdp.Flow([catalog.make(s) for s in f['specs']])
    run.train_ref(f, t2, data2)
    close(t2)
    for a, b in zip(catalog.leaves(t), catalog.leaves(t2)):
        for m in getattr(a, 'inv_covs', ()):
            if not np.all(np.isfinite(m)) or np.linalg.cond(m) > 1e8:
                raise BadlyConditioned
        if isinstance(a, vnodes.VAcc):
            if abs(a.off - b.off) > 1e-3:
                raise BadlyConditioned
        elif compare_node(a, b, sign=False, rtol=2e-7):
            raise BadlyConditioned
    rs = np.random.RandomState(f['seed'] + 5)
    x = catalog.ints(rs, 30, f['d'])
    y, y2 = t.execute(x), t2.execute(x)
    if compare.diff(y, y2, rtol=2e-7, sign=False):
        raise BadlyConditioned


def simplify(case):
    if len(case['ops']) > 1:
        for i in range(len(case['ops'])):
            if case['mode'] == 'P01' and case['ops'][i]['op'] == 'train' and \
                    any(o['op'] == 'exec' and o['flow'] == case['ops'][i]['flow'] for o in case['ops']):
                continue
            yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
    if case.get('active'):
        yield dict(case, active=False)
    if case['n'] > 1:
        yield dict(case, n=case['n'] - 1)
    for j, f in enumerate(case['flows']):
        def rep(g):
            return dict(case, flows=case['flows'][:j] + [g] + case['flows'][j + 1:])
        if f['double']:
            yield rep(dict(f, double=False))
        if f['array']:
            yield rep(dict(f, array=False))
        if len(f['specs']) > 1:
            for i in range(len(f['specs']) - 1, -1, -1):
                yield rep(dict(f, specs=f['specs'][:i] + f['specs'][i + 1:], its=f['its'][:i] + f['its'][i + 1:]))
        for i, it in enumerate(f['its']):
            if len(it['lens']) > 1:
                for k in range(len(it['lens'])):
                    yield rep(dict(f, its=f['its'][:i] + [dict(it, lens=it['lens'][:k] + it['lens'][k + 1:])] +
                                   f['its'][i + 1:]))
            if it['kind'] not in ('list', 'none'):
                yield rep(dict(f, its=f['its'][:i] + [dict(it, kind='list')] + f['its'][i + 1:]))
    for i, op in enumerate(case['ops']):
        if len(op.get('lens', [])) > 1:
            for k in range(len(op['lens'])):
                o = dict(op, lens=op['lens'][:k] + op['lens'][k + 1:])
                yield dict(case, ops=case['ops'][:i] + [o] + case['ops'][i + 1:])
    if case['sched'].get('lines'):
        yield dict(case, sched={'trace': [], 'lines': False})
