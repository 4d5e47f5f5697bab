"""C01: checkpoints."""
import os
import pickle

import numpy as np

import bimdp
import bimdp.parallel as bpar
import mdp
import mdp.parallel as par

from vsim import catalog, compare, core, disk, vnodes
from . import hist, pflow_common as pc
from .hist import Crash, CrashPlan, HRun, Skip

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('random checkpoint flow, checkpoint assignment (none, recording, returning dictionaries, saving open or '
        'closed nodes, raising) and scheduler; crashes at a random chunk, checkpoint or disk operation followed by '
        'restart from the saved files; disk errors while saving; distinct: workload or event log differs')
SHRINK = ['faults']
COMPONENTS = {'real': ['checkpoint flows (linear, parallel, bidirectional)', 'nodes, layers, flow nodes',
                       'serial and thread schedulers', 'pickle', 'CheckpointSaveFunction'],
              'simulated': ['disk operations (faults)', 'process death', 'thread scheduling', 'clock']}

CLASSES = {'serial': mdp.CheckpointFlow, 'parallel': par.ParallelCheckpointFlow,
           'bi': bimdp.BiCheckpointFlow, 'parbi': bpar.ParallelCheckpointBiFlow}


def gen(rng):
    cls = rng.choice(['serial', 'serial', 'parallel', 'parallel', 'bi', 'parbi'])
    f = pc.gen_flow(rng, 'P03' if rng.random() < 0.7 else 'P01')
    if cls in ('bi', 'parbi'):
        for s in f['specs']:
            catalog.strip_args(s)
        f['specs'] = [s for s in f['specs'] if catalog.spec_args(s) is None] or \
            [{'t': 'VAcc', 'p': {'input_dim': f['d']}}]
        # dimensions may no longer fit
        fix_dims(rng, f)
        for i, s in enumerate(f['specs']):
            if s['t'] == 'VAcc' and rng.random() < 0.5:
                s['t'] = 'VBi'
                s['p']['node_id'] = 'n%d' % i
                s['p'].pop('nargs', None)
    f['array'] = False
    f['double'] = False
    n = len(f['specs'])
    for it in f['its']:
        if it['kind'] == 'gen' and cls in ('bi', 'parbi'):
            it['kind'] = 'list'
    sched = 'none'
    if cls in ('parallel', 'parbi'):
        sched = rng.choice(['none', 'scheduler', 'scheduler', 'thread'])
    kinds = ['rec', 'rec', 'rec', 'dict', 'save0', 'save1', 'none', 'falsy', 'stop']
    if rng.random() < 0.3:
        one = rng.choice(['rec', 'dict', 'falsy'])
        cps = [one] * n
        single = True
    else:
        single = False
        cps = [rng.choice(kinds) for _ in range(n)]
    case = {'cls': cls, 'flow': f, 'sched_kind': sched, 'n': rng.choice([1, 2, 3]), 'cps': cps,
            'single': single, 'faults': [], 'verbose': rng.random() < 0.1,
            'stopmsg': cls in ('bi', 'parbi') and rng.random() < 0.5,
            'dflt': rng.random() < 0.6,
            'save': rng.choice([{}, {}, {'protocol': 4}, {'protocol': 0, 'binary': 0}, {'binary': 0}]),
            'sched': dict(pc.sc.gen_sched(rng, 0.1))}
    x = rng.random()
    if x < 0.35:
        # crash while training, at a chunk, or in a checkpoint, or at a disk operation
        if rng.random() < 0.5:
            case['faults'].append(['crash', rng.randrange(40)])
        else:
            case['faults'].append(['disk', rng.choice(['open', 'write', 'close']), rng.randrange(4), 'crash',
                                   rng.choice([0.0, 0.3, 0.9])])
        case['cps'] = [k if rng.random() < 0.3 else rng.choice(['save0', 'save1']) for k in case['cps']]
        case['single'] = False
    elif x < 0.45:
        case['faults'].append(['disk', rng.choice(['open', 'write', 'close']), rng.randrange(3), 'error',
                               rng.choice([0.0, 0.3, 0.9])])
    elif x < 0.55:
        case['faults'].append(['raise', rng.randrange(n)])
    return case


def fix_dims(rng, f):
    """Replace what no longer fits after nodes were removed."""
    d = f['d']
    specs = []
    for s in f['specs']:
        try:
            node = catalog.make(s)
        except Exception:
            continue
        if node.input_dim not in (None, d):
            continue
        specs.append(s)
        d = node.output_dim or out_dim(s, d)
    f['specs'] = specs or [{'t': 'VAcc', 'p': {'input_dim': f['d']}}]
    f['its'] = (f['its'] * 4)[:len(f['specs'])]


def out_dim(s, d):
    return d


class CollectDict(dict):
    """A checkpoint function which is false as long as it is empty."""

    def __init__(self, run, i):
        dict.__init__(self)
        self.run = run
        self.i = i

    def __call__(self, node):
        self.run.called(node, 'falsy')


class Run(HRun):

    def setup(self):
        c = self.case
        f = self.f = c['flow']
        self.data = pc.train_data(f)
        if c['cls'] in ('bi', 'parbi'):
            self.data = [d if d is None else [x[:1] for x in d] for d in self.data]
        try:
            ref = mdp.Flow([catalog.make(s) for s in f['specs']])
            self.train_ref(f, ref, self.data)
            pc.close(ref)
            pc.check_conditioned(self, f, mdp.Flow([n.copy() for n in self.fresh_trained()]), self.data)
        except Exception as e:
            raise Skip(type(e).__name__)
        self.ref = ref
        self.sched = []

    def fresh_trained(self):
        t = mdp.Flow([catalog.make(s) for s in self.f['specs']])
        self.train_ref(self.f, t, self.data)
        return t

    def train_ref(self, f, ref, data):
        ref.train([None if d is None else [x if len(x) > 1 else x[0] for x in d] for d in data])

    # pc.check_conditioned calls this
    def inputs(self, flow):
        out = []
        for i, (items, it) in enumerate(zip(self.data, self.f['its'])):
            if items is None:
                out.append(None)
                continue
            items = [x if len(x) > 1 else x[0] for x in items]
            kind = it['kind']
            if kind == 'gen' and pc.trained_phases(flow[i]) == 1 and flow[i].is_training():
                out.append(self.steps(items))
            else:
                out.append(Stepping(self, items))
        return out

    def steps(self, items):
        for x in items:
            self.plan.step('chunk')
            yield x

    # ---- checkpoint functions
    def called(self, node, kind):
        i = [k for k, n in enumerate(self.flow) if n is node]
        if len(i) != 1:
            self.violate('wrong-node', 'checkpoint got an object which is not a node of the flow')
            return None
        i = i[0]
        self.log('checkpoint', i, kind)
        self.calls.append(i)
        self.sim.count('checkpoint:' + kind)
        if self.case['cps'][i] != kind:
            self.violate('wrong-function', 'node %d got checkpoint function %r, given was %r' %
                         (i, kind, self.case['cps'][i]))
        if node.is_trainable():
            left = node.get_remaining_train_phase()
            if left > (1 if self.serial_unidir else 0):
                self.violate('too-early', 'checkpoint of node %d called with %d phases left' % (i, left))
            elif self.need[i]:
                # everything the node gets must have arrived
                with self.sim.paused():
                    a = node.copy()
                    if a.is_training():
                        a.stop_training()
                    for x, y in zip(catalog.leaves(a), catalog.leaves(self.ref[i])):
                        d = pc.compare_node(x, y, elog=False)
                        if d:
                            self.violate('state-at-checkpoint', 'node %d: %s' % (i, d))
                            break
        for j in range(i + 1, len(self.flow)):
            if not self.need[j]:
                continue
            for lf in catalog.leaves(self.flow[j]):
                if isinstance(lf, vnodes.VAcc) and not hasattr(lf, 'pretrained') and \
                        (any(lf.log) or getattr(lf, 'elog', None)):
                    self.violate('too-late', 'node %d saw data before the checkpoint of node %d' % (j, i))
        for fl in self.case['faults']:
            if fl[0] == 'raise' and fl[1] == i and self.armed:
                self.raised = True
                self.sim.count('fault:checkpoint-raises')
                raise vnodes.NodeFailure('checkpoint %d' % i)
        return i

    def make_cp(self, i):
        kind = self.case['cps'][i]
        run = self
        if kind == 'none':
            return None
        if kind == 'rec':
            def rec(node):
                run.called(node, 'rec')
            return rec
        if kind == 'falsy':
            return CollectDict(self, i)
        if kind == 'dict':
            def dct(node):
                k = run.called(node, 'dict')
                return {'ck_%s' % k: 'value %s' % k, 'ck_last': k}
            return dct
        if kind == 'stop':
            def stop(node):
                run.called(node, 'stop')
                if node.is_training():
                    node.stop_training()
            return stop
        save = mdp.CheckpointSaveFunction(self.disk.path('node%d.pic' % i),
                                          stop_training=1 if kind == 'save1' else 0,
                                          **self.case.get('save', {}))

        def saver(node):
            run.called(node, kind)
            run.plan.step('checkpoint')
            save(node)
            run.saved.append(i)
            run.log('saved', i)
            run.plan.step('saved')
        return saver

    # ---- the run
    def scheduler(self):
        k = self.case['sched_kind']
        if k == 'scheduler':
            return par.Scheduler()
        if k == 'thread':
            return par.ThreadScheduler(n_threads=self.case['n'])
        return None

    def scenario(self, sim):
        c = self.case
        faults = [dict(op=f[1], nth=f[2], how='error' if f[3] == 'error' else 'crash', cut=f[4])
                  for f in c['faults'] if f[0] == 'disk']
        self.raised = False
        self.armed = True
        with disk.Disk(faults, sim) as self.disk:
            self.saved = []
            self.plan = CrashPlan(next((f[1] for f in c['faults'] if f[0] == 'crash'), None))
            nodes = [catalog.make(s) for s in self.f['specs']]
            died = False
            exc = None
            try:
                self.train(nodes)
            except (Crash, disk.DiskCrash) as e:
                died = True
                sim.count('fault:process-dies')
                self.log('dies', type(e).__name__)
            except core.SimAbort:
                raise
            except Exception as e:
                exc = e
                if core.DEBUG:
                    import traceback
                    traceback.print_exc(file=open('/tmp/vsim_debug.log', 'a'))
            with self.disk.healthy():
                self.armed = False
                if died:
                    self.flow = None
                    self.restart()
                    return
                failed = self.raised or bool(self.disk.fired)
                if exc is not None and not failed:
                    self.violate('unexpected-error', '%s: %s' % (type(exc).__name__, str(exc)[-300:]))
                    return
                if exc is None and failed:
                    self.violate('error-swallowed', 'a failing checkpoint was not reported')
                    return
                if exc is None:
                    self.check_complete()
                else:
                    self.check_failed()

    def train(self, nodes, cps=None):
        c = self.case
        self.calls = []
        self.flow = flow = CLASSES[c['cls']](nodes, verbose=c['verbose'])
        self.need = [n.is_training() for n in flow]
        self.parallel = c['cls'] in ('parallel', 'parbi') and c['sched_kind'] != 'none'
        self.serial_unidir = c['cls'] == 'serial' or (c['cls'] == 'parallel' and not self.parallel)
        fns = [self.make_cp(i) for i in range(len(flow))]
        if c['single']:
            fns = fns[0]
        kw = {}
        if c['cls'] in ('parallel', 'parbi'):
            kw['scheduler'] = self.scheduler()
            if not c['dflt'] and self.parallel:
                kw['train_callable_class'] = par.FlowTrainCallable if c['cls'] == 'parallel' else \
                    bpar.BiFlowTrainCallable
        if c['stopmsg']:
            kw['stop_messages'] = [{'n%d->tag' % i: 't%d' % i} if isinstance(n, vnodes.VBi) else None
                                   for i, n in enumerate(flow)]
        self.inp = self.inputs(flow)
        flow.train(self.inp, fns, **kw)

    def expected(self):
        return [i for i, k in enumerate(self.case['cps'])
                if k != 'none' and (self.need[i] or not self.parallel)]

    def check_complete(self):
        c = self.case
        flow = self.flow
        if self.calls != self.expected():
            self.violate('calls', 'checkpoints were called for nodes %s, expected %s' %
                         (self.calls, self.expected()))
            return
        for i, n in enumerate(flow):
            if n.is_training() and not (n.get_remaining_train_phase() == 1 and n._train_phase_started):
                self.violate('not-trained', 'node %d is not trained at the end' % i)
                return
        pc.close(flow)
        self.compare(flow, self.ref)
        for i, k in enumerate(c['cps']):
            has = getattr(flow, 'ck_%d' % i, None)
            exp = 'value %d' % i if k == 'dict' and i in self.calls else None
            if has != exp:
                self.violate('dictionary', 'flow.ck_%d is %r, expected %r' % (i, has, exp))
        dicts = [i for i in self.calls if c['cps'][i] == 'dict']
        if dicts and flow.ck_last != dicts[-1]:
            self.violate('dictionary', 'flow.ck_last is %r, expected %r' % (flow.ck_last, dicts[-1]))
        if c['stopmsg']:
            for i, n in enumerate(flow):
                if isinstance(n, vnodes.VBi) and self.need[i]:
                    if n.stops != ['t%d' % i] * n.phases:
                        self.violate('stop-message', 'node %d got stop messages %r' % (i, n.stops))
        # every saved file is a faithful image
        for i in self.saved:
            self.check_file(i)

    def load(self, i):
        with open(self.disk.path('node%d.pic' % i), 'rb') as f:
            return pickle.load(f)

    def check_file(self, i):
        try:
            n = self.load(i)
        except Exception as e:
            self.violate('not-loadable', 'file of node %d: %r' % (i, e))
            return None
        was_open = n.is_training()
        if was_open:
            if not self.serial_unidir or self.case['cps'][i] == 'save1':
                self.violate('open-phase', 'saved node %d still has an open training phase' % i)
                return None
            n.stop_training()
        for x, y in zip(catalog.leaves(n), catalog.leaves(self.ref[i])):
            d = pc.compare_node(x, y, elog=False)
            if d:
                self.violate('saved-state', 'node %d from file: %s' % (i, d))
                return None
        return n

    def compare(self, flow, ref, elog=True):
        if any(hasattr(n, 'pretrained') for n in catalog.leaves(flow)):
            elog = False
        for i, (a, b) in enumerate(zip(catalog.leaves(flow), catalog.leaves(ref))):
            d = pc.compare_node(a, b, elog)
            if d:
                self.violate('training-differs', 'leaf %d (%s): %s' % (i, type(a).__name__, d))
                return
            if not isinstance(a, vnodes.VAcc) and pc.compare_node(a, b, elog, sign=False):
                self.sim.count('sign-flip')
                return

    def check_failed(self):
        """A checkpoint raised: nodes after it are untouched, the node itself is intact."""
        if not self.calls:
            self.violate('unexpected-error', 'training failed without a checkpoint')
            return
        if self.calls != self.expected()[:len(self.calls)]:
            self.violate('calls', 'checkpoints were called for nodes %s, expected %s' %
                         (self.calls, self.expected()))
        last = self.calls[-1]
        for j in range(last + 1, len(self.flow)):
            if self.flow[j].is_training() != self.need[j] or \
                    (self.need[j] and self.flow[j].get_current_train_phase() != 0):
                self.violate('goes-on', 'node %d was trained after a failing checkpoint' % j)
        for i in range(last + 1):
            a = self.flow[i].copy()
            if a.is_training() and (i < last or a.get_remaining_train_phase() == 1):
                a.stop_training()
            for x, y in zip(catalog.leaves(a), catalog.leaves(self.ref[i])):
                d = pc.compare_node(x, y, elog=False)
                if d:
                    self.violate('state-after-failure', 'node %d: %s' % (i, d))
                    return
        if mdp.get_active_extensions():
            self.violate('extension-active', str(mdp.get_active_extensions()))
        # the flow itself must not be stuck
        if getattr(self.flow, 'is_parallel_training', False):
            self.violate('stuck', 'flow is still in parallel training')

    def restart(self):
        """New process: continue from the files."""
        if mdp.get_active_extensions():
            # the interpreter died: class level state is gone
            mdp.deactivate_extensions(mdp.get_active_extensions())
        nodes = []
        saved = list(self.saved)
        self.sim.count('restart')
        for i, s in enumerate(self.f['specs']):
            if i in saved:
                n = self.check_file(i)
                if n is None:
                    return
                self.sim.count('restart-with-saved-node')
                nodes.append(n)
            else:
                nodes.append(catalog.make(s))
        self.plan = CrashPlan(None)
        c = self.case
        # saved nodes are complete
        try:
            self.train(nodes)
        except core.SimAbort:
            raise
        except Exception as e:
            self.violate('restart-fails', '%s: %s' % (type(e).__name__, str(e)[-300:]))
            return
        for i, n in enumerate(self.flow):
            if i in saved and n.is_training():
                self.violate('untrained', 'node %d lost its training' % i)
        if self.calls != self.expected():
            self.violate('calls', 'after restart checkpoints were called for nodes %s, expected %s' %
                         (self.calls, self.expected()))
        pc.close(self.flow)
        self.compare(self.flow, self.ref, elog=False)


class Stepping(object):
    def __init__(self, run, items):
        self.run = run
        self.items = items

    def __iter__(self):
        return self.run.steps(self.items)


def run(case):
    res = hist.run_hist(case, Run, pc.TRACE if case['sched'].get('lines') else ())
    res.count('class:' + case['cls'])
    return res


def simplify(case):
    f = case['flow']
    for i in range(len(f['specs'])):
        if len(f['specs']) > 1:
            yield dict(case, flow=dict(f, specs=f['specs'][:i] + f['specs'][i + 1:],
                                       its=f['its'][:i] + f['its'][i + 1:]),
                       cps=case['cps'][:i] + case['cps'][i + 1:])
    for i, it in enumerate(f['its']):
        if len(it['lens']) > 1:
            yield dict(case, flow=dict(f, its=f['its'][:i] + [dict(it, lens=it['lens'][:-1])] + f['its'][i + 1:]))
    if case['sched_kind'] == 'thread':
        yield dict(case, sched_kind='scheduler')
    for i, k in enumerate(case['cps']):
        if k not in ('none', 'rec') and not case['single']:
            yield dict(case, cps=case['cps'][:i] + ['rec'] + case['cps'][i + 1:])
    if case['stopmsg']:
        yield dict(case, stopmsg=False)
