"""N01: copy, save and reload of nodes and flows."""
import contextlib
import io
import pickle

import numpy as np

import bimdp
import mdp
import mdp.hinet as hinet
import mdp.parallel as par

from vsim import catalog, compare, core, disk, subjects, vnodes
from . import hist, pflow_common as pc
from .hist import HRun, Skip

RUNS = {'quick': 4000, 'thorough': 150000}
RULE = ('random node, container or flow; random history of training, execution and inversion interleaved with copies, '
        'saves (file, string, pickle protocols) and reloads of any replica, crashes which leave only the files, and '
        'disk errors while saving; distinct: workload or event log differs')
SHRINK = ['ops', 'faults']
COMPONENTS = {'real': ['all node classes in reach, layers, flow nodes, flows', 'copy, save, pickle'],
              'simulated': ['disk operations (faults)', 'process death']}
ASSUMPTIONS = ['the reference is a fresh object which replays the history of the replica without any copy']

FLOWS = {'Flow': mdp.Flow, 'CheckpointFlow': mdp.CheckpointFlow, 'ParallelFlow': par.ParallelFlow,
         'BiFlow': bimdp.BiFlow, 'ParallelCheckpointFlow': par.ParallelCheckpointFlow}
POOL = [t for t in subjects.CORE if t in catalog.NODES and t not in (
    'TDSEPNode', 'ISFANode', 'XSFANode', 'RBMNode', 'HitParadeNode', 'SFA2Node', 'TimeFramesNode',
    'PerceptronClassifier', 'SignumClassifier', 'FastICANode', 'EtaComputerNode', 'JADENode', 'CuBICANode')]


def gen(rng):
    kind = rng.choice(['node', 'node', 'stage', 'flow'])
    case = {'kind': kind, 'faults': [], 'sched': {'trace': []}}
    if kind == 'node':
        s, d = subjects.gen_node(rng)
        n = catalog.make(s)
        base = subjects.canonical(rng, s, d, n.is_training(), max(n.get_remaining_train_phase(), 1))
        case.update(spec=s, d=d)
    else:
        f = pc.gen_flow(rng, 'P01')
        f['array'] = f['double'] = False
        for it in f['its']:
            it['kind'] = 'list'
        if kind == 'stage':
            f['specs'] = f['specs'][:1]
            f['its'] = f['its'][:1]
            case.update(spec=f['specs'][0], d=f['d'])
            n = catalog.make(f['specs'][0])
            base = subjects.canonical(rng, None, f['d'], n.is_training(), max(n.get_remaining_train_phase(), 1))
        else:
            case.update(flow=f, cls=rng.choice(sorted(FLOWS)), d=f['d'], verbose=rng.random() < 0.2,
                        crash=rng.choice([None, None, None, True, 'c0']), twice=rng.random() < 0.2)
            base = []
            if rng.random() < 0.3:
                k = rng.randrange(len(f['specs']))
                base.append(['sub', k, ['train', rng.randrange(10 ** 6), rng.randint(20, 40)]])
            base.append(['ftrain', rng.randrange(100)])
            for _ in range(rng.randint(1, 3)):
                base.append([rng.choice(['exec', 'exec', 'inv']), rng.randrange(10 ** 6), rng.randint(3, 20)])
    # several replicas share the program; each step is taken by a random replica
    ops = []
    nrep = 1
    pos = {0: 0}
    saved = []
    steps = 0
    while steps < 40 and (any(p < len(base) for p in pos.values()) or rng.random() < 0.3):
        steps += 1
        x = rng.random()
        r = rng.choice(sorted(pos))
        if x < 0.15 and len(pos) < 5:
            ops.append(['copy', r])
            pos[nrep] = pos[r]
            nrep += 1
        elif x < 0.27:
            name = 'f%d' % rng.randrange(2)
            ops.append(['save', r, name, rng.choice([-1, -1, 2, 4, 0])])
            saved = [s for s in saved if s[0] != name] + [(name, pos[r])]
        elif x < 0.33 and len(pos) < 5:
            ops.append(['string', r, rng.choice([-1, 0, 2])])
            pos[nrep] = pos[r]
            nrep += 1
        elif x < 0.42 and saved and len(pos) < 5:
            name, p = rng.choice(saved)
            ops.append(['load', name])
            pos[nrep] = p
            nrep += 1
        elif x < 0.46 and saved:
            ops.append(['crash'])
            pos = {}
            for name, p in saved:
                ops.append(['load', name])
                pos[nrep] = p
                nrep += 1
        elif x < 0.5 and len(pos) > 1:
            ops.append(['drop', r])
            del pos[r]
        else:
            if pos[r] < len(base) and rng.random() < 0.93:
                op = base[pos[r]]
                pos[r] += 1
            else:
                op = rng.choice(base)
            ops.append(['do', r, op])
    case['ops'] = ops
    if rng.random() < 0.35:
        case['faults'].append([rng.choice(['open', 'write', 'write', 'close']), rng.randrange(3),
                               rng.choice(['error', 'short']), rng.choice([0.0, 0.5, 0.95])])
    return case


class Rep(object):
    def __init__(self, obj, history):
        self.obj = obj
        self.history = history


class Run(HRun):

    def shared_node(self, nodes):
        """Position of a node which the flow uses twice in a row, if any."""
        if not self.case.get('twice'):
            return None
        for i, n in enumerate(nodes):
            if not n.is_trainable() and n.input_dim == n.output_dim:
                return i

    def build(self):
        c = self.case
        if c['kind'] == 'flow':
            nodes = [catalog.make(s) for s in c['flow']['specs']]
            k = self.shared_node(nodes)
            if k is not None:
                nodes.insert(k + 1, nodes[k])
            kw = {}
            if c.get('verbose'):
                kw['verbose'] = True
            if c.get('crash') is not None and c['cls'] != 'BiFlow':
                kw['crash_recovery'] = c['crash'] if c['crash'] is True else self.disk.path(c['crash'])
            return FLOWS[c['cls']](nodes, **kw)
        return catalog.make(c['spec'])

    def name(self):
        c = self.case
        return c['cls'] if c['kind'] == 'flow' else c['spec']['t']

    def do(self, obj, op):
        c = self.case
        if op[0] == 'ftrain':
            f = dict(c['flow'], seed=c['flow']['seed'] + op[1])
            data = pc.train_data(f)
            k = self.shared_node([catalog.make(s) for s in f['specs']])
            if k is not None:
                data.insert(k + 1, None)
            np.random.seed(op[1])
            kw = {}
            if c['cls'].endswith('CheckpointFlow'):
                kw['checkpoints'] = None
            try:
                if c['cls'] == 'BiFlow':
                    data = [d if d is None else [x[0] for x in d] for d in data]
                else:
                    data = [d if d is None else [x if len(x) > 1 else x[0] for x in d] for d in data]
                with contextlib.redirect_stdout(io.StringIO()):
                    obj.train(data, **kw)
                return ('ok', None)
            except Exception as e:
                return ('error', type(e).__name__, str(e)[-200:])
        return subjects.run_op(obj, op, c.get('spec') if c['kind'] == 'node' else None, c['d'])

    def scenario(self, sim):
        c = self.case
        faults = [dict(op=f[0], nth=f[1], how=f[2], cut=f[3]) for f in c['faults']]
        reps = {}
        n = [0]

        def add(obj, history):
            reps[n[0]] = Rep(obj, history)
            n[0] += 1
        files = {}
        with disk.Disk(faults, sim) as d:
            self.disk = d
            add(self.build(), [])
            for op in c['ops']:
                kind = op[0]
                if kind in ('copy', 'save', 'string', 'drop', 'do') and op[1] not in reps:
                    if kind in ('copy', 'string'):
                        n[0] += 1
                    continue
                if kind == 'do':
                    rep = reps[op[1]]
                    res = self.do(rep.obj, op[2])
                    rep.history = rep.history + [(op[2], res)]
                    self.log('do', op[1], op[2][0], res[0])
                    sim.count('op:' + op[2][0])
                    if res[0] == 'error':
                        sim.count('op-refused')
                elif kind == 'copy':
                    rep = reps[op[1]]
                    try:
                        add(rep.obj.copy(), rep.history)
                    except Exception as e:
                        self.violate('copy-fails', '%s: %s: %s' % (self.name(), type(e).__name__, str(e)[:200]))
                        return
                    sim.count('copy')
                elif kind == 'string':
                    rep = reps[op[1]]
                    try:
                        add(pickle.loads(rep.obj.save(None, op[2])), rep.history)
                    except Exception as e:
                        self.violate('save-fails', '%s to a string: %s: %s' % (self.name(), type(e).__name__, str(e)[:200]))
                        return
                    sim.count('copy-by-string')
                elif kind == 'save':
                    rep = reps[op[1]]
                    before = len(d.fired)
                    try:
                        rep.obj.save(d.path(op[2]), op[3])
                        ok = True
                    except Exception as e:
                        ok = False
                        if len(d.fired) == before or not isinstance(e, OSError):
                            self.violate('save-fails', '%s: %s: %s' % (self.name(), type(e).__name__, str(e)[:200]))
                            return
                    if ok and len(d.fired) > before:
                        self.violate('error-swallowed', 'save returned although writing the file failed')
                        return
                    if ok:
                        files[op[2]] = rep.history
                        sim.count('save')
                    else:
                        files.pop(op[2], None)
                        sim.count('save-failed')
                        with d.healthy():
                            try:
                                rep.obj.save(d.path('again'), op[3])
                                with open(d.path('again'), 'rb') as f:
                                    add(pickle.load(f), rep.history)
                            except Exception as e:
                                self.violate('save-fails', '%s (retry): %s: %s' % (self.name(), type(e).__name__,
                                                                                  str(e)[:200]))
                                return
                            n[0] -= 1
                            reps[1000 + n[0]] = reps.pop(n[0])
                elif kind == 'load':
                    if op[1] not in files:
                        n[0] += 1
                        continue
                    try:
                        with open(d.path(op[1]), 'rb') as f:
                            add(pickle.load(f), files[op[1]])
                    except Exception as e:
                        self.violate('not-loadable', '%s: %s: %s' % (self.name(), type(e).__name__, str(e)[:200]))
                        return
                    sim.count('load')
                elif kind == 'crash':
                    reps.clear()
                    sim.count('fault:process-dies')
                elif kind == 'drop':
                    del reps[op[1]]
            with d.healthy():
                self.check(reps, sim)

    def check(self, reps, sim):
        # refinement: a fresh object with the same history
        cache = {}
        for r in sorted(reps):
            rep = reps[r]
            key = id(rep.history) if not rep.history else repr([h[0] for h in rep.history])
            ref = self.build()
            for i, (op, res) in enumerate(rep.history):
                exp = self.do(ref, op)
                if res[0] != exp[0] or (res[0] == 'error' and res[1] != exp[1]):
                    self.violate('behaviour', 'replica %d step %d (%s): %s, original: %s' %
                                 (r, i, op[0], show(res), show(exp)))
                    return
                if res[0] == 'ok':
                    dd = compare.diff(res[1], exp[1], rtol=1e-5, atol=1e-7, sign=False)
                    if dd:
                        self.violate('result', 'replica %d step %d (%s): %s' % (r, i, op[0], dd))
                        return
            dd = compare.diff(rep.obj, ref, rtol=1e-5, atol=1e-7, sign=False)
            if dd:
                self.violate('state', 'replica %d: %s' % (r, dd))
                return
            if self.case['kind'] == 'flow' and shape(rep.obj) != shape(ref):
                self.violate('state', 'replica %d: nodes of the flow are shared like %s, original: %s' % (
                    r, shape(rep.obj), shape(ref)))
                return
            sim.count('replica')
            self.log('replica', r, len(rep.history))


def shape(flow):
    """Which positions of the flow hold the same node."""
    first = {}
    return [first.setdefault(id(n), i) for i, n in enumerate(flow)]


def show(res):
    return res[0] if res[0] == 'ok' else '%s(%s)' % (res[1], res[2])


def run(case):
    res = hist.run_hist(case, Run)
    res.count('kind:' + case['kind'])
    if case['kind'] == 'node':
        res.count('class:' + case['spec']['t'])
    return res


def simplify(case):
    if case['kind'] == 'flow':
        f = case['flow']
        for i in range(len(f['specs'])):
            if len(f['specs']) > 1:
                yield dict(case, flow=dict(f, specs=f['specs'][:i] + f['specs'][i + 1:],
                                           its=f['its'][:i] + f['its'][i + 1:]))
