"""N04: phases of nodes in arbitrary call histories."""
import copy
import pickle
import random

import numpy as np

import mdp

from vsim import catalog, compare, subjects, vnodes
from . import hist, pflow_common as pc
from .hist import HRun, Skip

RUNS = {'quick': 4000, 'thorough': 300000}
RULE = ('random node, layer or flow node; 3-16 random calls (training, closing, execution, inversion, accessors, '
        'assignments, each well-formed, malformed or failing inside the node; continued with a copy at any point); '
        'distinct: workload or event log differs')
COMPONENTS = {'real': ['Node, OnlineNode, classifiers, all node classes in reach, layers, flow nodes'],
              'simulated': ['failures inside the algorithm (at the call of the training, closing, execution or '
                            'inversion method of a node)']}
ASSUMPTIONS = ['reference: phase automaton (number of phases known per class) and a second node which is given the '
               'accepted calls only',
               'a chunk which fails inside the training method of the node may count as training data',
               'ISFANode and XSFANode (several internal phases, need special data) not included']

POOL = [t for t in subjects.ALL if t not in ('ISFANode', 'XSFANode', 'RecursiveExpansionNode', 'TimeDelaySlidingWindowNode',
                                             'NeuralGasNode')]
GETS = {
    'PCANode': ['get_projmatrix', 'get_recmatrix'],
    'WhiteningNode': ['get_eigenvectors', 'get_recmatrix'],
    'FDANode': [],
    'CuBICANode': ['get_projmatrix', 'get_recmatrix'],
    'JADENode': ['get_projmatrix', 'get_recmatrix'],
    'EtaComputerNode': ['get_eta'],
    'HitParadeNode': ['get_maxima', 'get_minima'],
    'FANode': ['generate_input'],
}
REFUSALS = (mdp.TrainingFinishedException, mdp.IsNotTrainableException)
OPEN = 'not completed yet'
UNTRAINED = 'has not been trained'
BAD = ['rank', 'rank3', 'empty', 'dim', 'list', 'none', 'zero']
# the state depends on calls which are not part of the training
SKIPSTATE = {'VCount', 'NormalNoiseNode', 'NoiseNode', 'LibSVMClassifier'}


def gen(rng):
    if rng.random() < 0.3:
        f = pc.gen_flow(rng, 'P01')
        spec, d, stage = f['specs'][0], f['d'], True
    else:
        spec, d = subjects.gen_node(rng, POOL)
        stage = False
    inf = subjects.info(spec['t'])
    lo = max(inf['min'], 3) if not stage else 4
    ops = []
    style = rng.random()
    n = rng.randint(3, 16)
    while len(ops) < n:
        s = rng.randrange(10 ** 6)
        rows = rng.randint(lo + 15, lo + 30) + inf['total']
        x = rng.random()
        if x < 0.35 if style < 0.6 else x < 0.2:
            ops.append(['train', s, rows])
        elif x < 0.45:
            ops.append(['stop'])
        elif x < 0.58:
            ops.append(['exec', s, rng.choice([rows, rows, lo])])
        elif x < 0.64:
            ops.append(['inv', s, rng.randint(2, 6)])
        elif x < 0.68:
            ops.append(['get', rng.randrange(10)])
        elif x < 0.76:
            ops.append(['badtrain', s, rng.choice(BAD)])
        elif x < 0.84:
            ops.append([rng.choice(['badexec', 'badexec', 'badinv']), s, rng.choice(BAD)])
        elif x < 0.88:
            ops.append(['args', s, rows])
        elif x < 0.92:
            ops.append(['set', rng.choice(['input_dim', 'output_dim', 'dtype']), rng.randrange(5)])
        elif x < 0.97:
            ops.append(['fault', rng.choice(['train', 'stop', 'exec', 'inv']), s, rows, rng.randrange(8)])
        else:
            ops.append(['swap', rng.choice(['copy', 'pickle'])])
    return {'spec': spec, 'd': d, 'stage': stage, 'ops': ops, 'sched': {'trace': []}}


def nphases(spec):
    """Expected number of training phases."""
    if spec.get('pre'):
        return 0
    t = spec['t']
    if t in ('Layer', 'SameInputLayer'):
        return max(nphases(s) for s in spec['nodes'])
    if t == 'CloneLayer':
        return nphases(spec['node'])
    if t == 'FlowNode':
        return sum(nphases(s) for s in spec['nodes'])
    if t in ('VCount', 'VPlain'):
        return 0
    if t[0] == 'V' and t[1].isupper():
        return spec['p'].get('phases', 1)
    if subjects.info(t)['untrainable']:
        return 0
    return 2 if t == 'FDANode' else 1


class Boom(object):
    """Replaces a method of a node."""

    def __init__(self):
        self.n = 0

    def __call__(self, *a, **k):
        self.n += 1
        raise vnodes.NodeFailure('injected')


METHODS = {'train': ['_train', '_train_means', '_train_fda'], 'stop': ['_stop_training', '_stop_means', '_stop_fda'],
           'exec': ['_execute'], 'inv': ['_inverse']}


class Run(HRun):

    def scenario(self, sim):
        c = self.case
        self.spec, self.d = c['spec'], c['d']
        self.node = catalog.make(self.spec)
        self.N = nphases(self.spec)
        self.online = bool(subjects.info(self.spec['t'])['online'])
        self.p = 0 if self.N else -1
        if self.spec.get('pre') and not self.case['spec'].get('nodes') and 'node' not in self.spec:
            self.p = self.N = nphases(dict(self.spec, pre=None))
        self.started = False       # True, False or 'maybe'
        self.iteration = 0
        self.effective = []
        self.exact = True
        self.twin_ok = True
        self.shape()
        for i, op in enumerate(c['ops']):
            self.op = '%d: %s' % (i, op)
            before = self.snapshot()
            try:
                go = getattr(self, 'do_' + op[0])(op, before)
            except Skip:
                return
            self.shape()
            self.dims(before)
            sim.count('op:' + op[0])
            self.log(i, op[0], self.p, self.started)
            if self.res.violations:
                return
            if go is False:
                sim.count('ended-early')
                return
        self.twin()

    # -- observation

    def snapshot(self):
        n = self.node
        return dict(copy=None if self.spec['t'] in SKIPSTATE else copy.deepcopy(n), dims=(n.input_dim, n.output_dim, n.dtype))

    def shape(self):
        """The node reports the phase which the automaton is in."""
        n = self.node
        got = (n.is_trainable(), n.is_training(), n.get_current_train_phase(), n.get_remaining_train_phase())
        p = self.p
        want = (self.N > 0, 0 <= p < self.N, p, self.N - p if self.N else 0)
        if got != want:
            self.violate('phase', '%s after %s: (trainable, training, phase, remaining) is %s, expected %s' % (
                self.spec['t'], getattr(self, 'op', 'creation'), got, want))
        if n.has_multiple_training_phases() != (self.N > 1) and self.N:
            self.violate('phase', '%s: has_multiple_training_phases() is %s with %d phases' % (
                self.spec['t'], n.has_multiple_training_phases(), self.N))
        if self.online and self.iteration is not None and n.get_current_train_iteration() != self.iteration:
            self.violate('iteration', '%s after %s: %d, expected %d' % (
                self.spec['t'], getattr(self, 'op', 'creation'), n.get_current_train_iteration(), self.iteration))

    def dims(self, before):
        n = self.node
        for name, a, b in zip(('input_dim', 'output_dim', 'dtype'), before['dims'],
                              (n.input_dim, n.output_dim, n.dtype)):
            if a is not None and a != b:
                self.violate('dims', '%s after %s: %s changed from %s to %s' % (self.spec['t'], self.op, name, a, b))

    def unchanged(self, before, why):
        if self.spec['t'] in SKIPSTATE:
            return
        d = compare.diff(self.node, before['copy'], rtol=0, atol=0, sign=False, skip=('_train_phase_started', 'elog') + DIMS,
                         lazy=compare.LAZY)
        if d:
            self.violate('state', '%s: %s (%s) changed the node: %s' % (self.spec['t'], self.op, why, d))

    def good(self, op):
        return subjects.run_op(self.node, op, self.spec, self.d)

    # -- operations: return False if the history can not be continued

    def refused(self, r, before, kinds, why, text=None):
        if r[0] == 'ok':
            self.violate('accepted', '%s: %s should be refused (%s)' % (self.spec['t'], self.op, why))
            return False
        if kinds and r[1] not in kinds or text and text not in r[2]:
            self.violate('refusal', '%s: %s should be refused with %s (%s), got %s: %s' % (
                self.spec['t'], self.op, kinds, why, r[1], r[2]))
            return False
        self.unchanged(before, why)
        self.sim.count('refused:' + why.replace(' ', '-'))

    def failed(self, r, legal):
        """A legitimate call failed.  It must not have been refused."""
        if r[1] in ('TrainingFinishedException', 'IsNotTrainableException') or OPEN in r[2] or \
                UNTRAINED in r[2] and legal is True:
            self.violate('wrongly-refused', '%s: %s (phase %d of %d, started: %s) refused with %s: %s' % (
                self.spec['t'], self.op, self.p, self.N, self.started, r[1], r[2]))
        raise Skip('failed')

    def do_train(self, op, before):
        r = self.good(op)
        if not self.N:
            return self.refused(r, before, ('IsNotTrainableException',), 'not trainable')
        if self.p == self.N:
            return self.refused(r, before, ('TrainingFinishedException',), 'training finished')
        if r[0] != 'ok':
            self.failed(r, True)
        self.started = True
        if self.online:
            self.iteration += op[2]
        self.effective.append(op)

    def do_stop(self, op, before):
        r = self.good(op)
        if not self.N or self.p == self.N:
            return self.refused(r, before, ('TrainingFinishedException',), 'nothing to stop')
        if self.started is False:
            return self.refused(r, before, ('TrainingException',), 'no training data')
        if r[0] != 'ok':
            self.failed(r, self.started)
        self.closed(op)

    def closed(self, op=None):
        if op is None:
            op = ['stop']
            if any(subjects.info(s['t'])['rnd'] or s['t'] == 'TDSEPNode' for s in catalog.walk(self.spec)):
                self.twin_ok = False
        if self.started == 'maybe':
            self.twin_ok = False
        self.p = self.N if self.online else self.p + 1
        self.started = False
        self.effective.append(op)

    def closing(self, r, before, op):
        """A call which closes the last phase.  Returns True if it was refused or the history ends."""
        fresh = self.p == 0 and self.started is not True
        if fresh and self.started == 'maybe' and r[0] != 'ok':
            raise Skip('failed')
        if self.online:
            return None
        if not self.N or self.p == self.N:
            return None
        if self.p < self.N - 1:
            # (an untrained phase may be noticed first)
            return self.refused(r, before, ('TrainingException',), 'open phases') or True
        if self.started is False:
            return self.refused(r, before, ('TrainingException',), 'no training data') or True
        if r[0] != 'ok':
            self.failed(r, self.started)
        self.closed()
        return None

    def do_exec(self, op, before):
        r = self.good(op)
        if self.N and self.p == 0 and not self.started:
            # the node is trained with the data
            args = subjects.spec_args(self.spec) if not self.case['stage'] else catalog.args_of(self.node)
            if args is not None:
                # if the node needs arguments
                if r[0] == 'ok':
                    raise Skip('optional arguments')
                self.unchanged(before, 'no training arguments')
                self.started = 'maybe'
                return
            if r[0] != 'ok':
                self.failed(r, True)
            self.started = True
            if self.online:
                self.iteration += op[2]
            else:
                self.p, self.started = self.N, False
            self.effective.append(op)
            return
        if self.closing(r, before, op):
            return
        if r[0] != 'ok':
            self.failed(r, self.p == self.N)
        if self.spec['t'] in ('HitParadeNode',) or self.online or self.case['stage']:
            self.effective.append(op)

    def do_inv(self, op, before):
        if not self.node.is_invertible():
            if self.spec['t'].startswith('RBM'):
                raise Skip('sampling')
            r = self.good(op)
            return self.refused(r, before, ('IsNotInvertibleException',) if not self.case['stage'] else None,
                                'not invertible')
        if self.node.output_dim is None and self.node.input_dim is None:
            # dimension of y unknown
            raise Skip('dimension')
        r = self.good(op)
        if self.online and self.p < self.N and not self.started:
            raise Skip('untrained')
        if self.closing(r, before, op):
            return
        if r[0] != 'ok':
            self.failed(r, self.p == self.N)

    def do_get(self, op, before):
        g = GETS.get(self.spec['t'])
        if not g:
            return
        m = getattr(self.node, g[op[1] % len(g)])
        np.random.seed(3)
        try:
            r = ('ok', m())
        except Exception as e:
            r = ('error', type(e).__name__, str(e))
        if self.closing(r, before, op):
            return
        if r[0] != 'ok':
            self.failed(r, self.p == self.N)

    def bad(self, op, dim):
        rs = np.random.RandomState(op[1])
        x = catalog.ints(rs, 25, dim or self.d)
        kind = op[2]
        if kind == 'rank':
            return x[0]
        if kind == 'rank3':
            return x[None]
        if kind == 'empty':
            return x[:0]
        if kind == 'dim':
            return np.hstack([x, x[:, :1]]) if dim else None
        if kind == 'list':
            return x.tolist()
        if kind == 'zero':
            return x[:, :0] if dim else None
        return None

    def call(self, f, *a):
        try:
            return ('ok', f(*a))
        except Exception as e:
            return ('error', type(e).__name__, str(e)[:200])

    def do_badtrain(self, op, before):
        x = self.bad(op, self.node.input_dim)
        if x is None and op[2] != 'none':
            return
        rs = np.random.RandomState(op[1])
        kind = subjects.spec_args(self.spec) if not self.case['stage'] else catalog.args_of(self.node)
        a = subjects.make_args(rs, catalog.ints(rs, 25, 2), kind)
        if op[2] == 'empty':
            a = tuple(v[:0] if isinstance(v, np.ndarray) else v for v in a)
        r = self.call(self.node.train, x, *a)
        if not self.N:
            return self.refused(r, before, ('IsNotTrainableException',), 'not trainable')
        if self.p == self.N:
            return self.refused(r, before, ('TrainingFinishedException',), 'training finished')
        return self.refused(r, before, None if op[2] in ('list', 'none') or self.spec['t'].startswith('RBM') else
                            ('NodeException', 'TrainingException', 'InconsistentDimException'), 'malformed ' + op[2])

    def do_badexec(self, op, before):
        if self.spec['t'].startswith('RBMWith'):
            return
        x = self.bad(op, self.node.input_dim)
        if x is None and op[2] != 'none':
            return
        if self.started == 'maybe':
            raise Skip('maybe')
        if isinstance(self.node, mdp.ClassifierNode) and op[1] % 3:
            f = getattr(self.node, ['label', 'prob'][op[1] % 2])
        else:
            f = self.node.execute
        r = self.call(f, x)
        return self.refused(r, before, None, 'malformed ' + op[2])

    def do_badinv(self, op, before):
        n = self.node
        if not n.is_invertible():
            return
        if op[2] == 'dim' and n.output_dim is None:
            return
        y = self.bad(op, n.output_dim)
        if y is None and op[2] != 'none' or op[2] in ('empty',):
            return
        if n.output_dim is None and self.p == self.N - 1 and self.started:
            # the dimension is only known when the training is over
            return
        if self.started == 'maybe':
            raise Skip('maybe')
        r = self.call(n.inverse, y)
        return self.refused(r, before, None, 'malformed ' + op[2])

    def do_args(self, op, before):
        """Training without needed arguments."""
        kind = subjects.spec_args(self.spec) if not self.case['stage'] else catalog.args_of(self.node)
        if kind is None:
            return
        _, x = subjects.data(op, self.d)
        r = self.call(self.node.train, x)
        if r[0] == 'ok':
            raise Skip('optional arguments')
        if 0 <= self.p < self.N and not self.started:
            self.started = 'maybe'
        return self.refused(r, before, None, 'missing arguments')

    def do_set(self, op, before):
        n = self.node
        if self.case['stage']:
            return
        name = op[1]
        cur = getattr(n, name)
        if cur is None:
            return
        if name == 'dtype':
            new = ['d', 'f', 'i', 'F', str(cur)][op[2]]
            same = np.dtype(new) == cur
        else:
            new = [1, 2, 7, 50, cur][op[2]]
            same = new == cur
        r = self.call(setattr, n, name, new)
        if same:
            if r[0] != 'ok' and name != 'output_dim':
                self.violate('wrongly-refused', '%s: setting %s to its value: %s' % (self.spec['t'], name, r[1:]))
            self.unchanged(before, 'same value')
        else:
            return self.refused(r, before, ('NodeException', 'InconsistentDimException'), 'fixed ' + name)

    def do_swap(self, op, before):
        try:
            self.node = self.node.copy() if op[1] == 'copy' else pickle.loads(pickle.dumps(self.node))
        except Exception:
            raise Skip('unpicklable')      # N01

    def do_fault(self, op, before):
        """A failure inside the node at a legitimate call."""
        kind = op[1]
        t = self.spec['t']
        n = self.node
        if t in ('Layer', 'SameInputLayer', 'CloneLayer') or t == 'FlowNode' and any(
                s['t'] not in ('FlowNode',) and 'Layer' in s['t'] for s in catalog.walk(self.spec)):
            return
        if t[0] == 'V' and t[1].isupper():
            if kind in ('train', 'stop'):
                return
        if t in ('RBMWithLabelsNode', 'CCIPCAWhiteningNode'):
            return
        legal = {'train': 0 <= self.p < self.N, 'stop': 0 <= self.p < self.N and self.started is True,
                 'exec': self.p == self.N or not self.N or self.p == self.N - 1 and self.started is True,
                 'inv': (self.p == self.N or not self.N or self.p == self.N - 1 and self.started is True) and
                 n.is_invertible() and n.output_dim is not None}[kind]
        if not legal or self.online and kind in ('exec', 'inv') and self.p < self.N and not self.started:
            return
        lv = catalog.leaves(n)
        leaf = lv[op[4] % len(lv)]
        names = [m for m in METHODS[kind] if hasattr(leaf, m)]
        if any(m in leaf.__dict__ for m in names):
            return
        b = Boom()
        for m in names:
            setattr(leaf, m, b)
        try:
            r = self.good([kind, op[2], op[3]] if kind != 'stop' else ['stop'])
        finally:
            for m in names:
                delattr(leaf, m)
        if not b.n:
            # another phase of a flow node, or not called
            if r[0] != 'ok':
                raise Skip('failed')
            if kind == 'train':
                self.started = True
                self.effective.append([kind, op[2], op[3]])
                if self.online:
                    self.iteration += op[3]
            elif kind == 'stop':
                self.closed()
            elif 0 <= self.p < self.N and not self.online:
                self.closed()
            return
        self.sim.count('fault:failure-in-' + kind)
        if r[0] == 'ok':
            self.violate('swallowed', '%s: failure inside %s not reported' % (t, kind))
            return
        if kind == 'train':
            if not self.started:
                self.started = 'maybe'
            if self.online:
                self.twin_ok = False
            else:      # (the learning parameters are set from the chunk)
                self.unchanged(before, 'failing _train')
        elif kind == 'stop':
            self.unchanged(before, 'failing _stop_training')
        elif 0 <= self.p < self.N and not self.online:
            # execution closed the training first
            self.closed()
        else:
            self.unchanged(before, 'failing ' + kind)

    # -- a node with the accepted calls only

    def twin(self):
        if self.spec['t'] in SKIPSTATE or not self.N or not self.twin_ok:
            return
        tw = catalog.make(self.spec)
        for op in self.effective:
            r = subjects.run_op(tw, op, self.spec, self.d)
            if r[0] != 'ok':
                self.violate('twin', '%s: %s is accepted in this history but fails in %s: %s' % (
                    self.spec['t'], op, self.effective, r[1:]))
                return
        d = compare.diff(self.node, tw, rtol=1e-9, atol=1e-9, sign=False, skip=('_train_phase_started', 'elog') + DIMS,
                         lazy=compare.LAZY)
        if d:
            self.violate('twin', '%s: other state than with %s only: %s' % (self.spec['t'], self.effective, d))
        else:
            self.sim.count('twin-compared')


# (weights are cast when the dtype is set)
DIMS = ('_effective_input_dim', '_init_v', '_init_sf', '_init_pc', '_init_mc', 'pinv', 'icaweights', 'sfaweights', '_input_dim', '_output_dim', '_dtype', 'dtype', '_numx_rng', '_training_type')


def run(case):
    res = hist.run_hist(case, Run)
    res.count('class:' + case['spec']['t'])
    return res


def simplify(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op[0] in ('train', 'exec') and op[2] > 25:
            yield dict(case, ops=ops[:i] + [[op[0], op[1], 20]] + ops[i + 1:])
