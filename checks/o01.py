"""O01: online training uses every observation exactly once, with the current state of the nodes before."""
import copy
import os
import pickle
import random
import tempfile

import numpy as np

import mdp
import mdp.hinet as hinet
import mdp.nodes as mn

from vsim import catalog, compare, onodes
from vsim.onodes import Refused
from . import hist
from .hist import HRun, Skip

RUNS = {'quick': 4000, 'thorough': 150000}
RULE = ('random online flows (plain or circular) of recording and real online nodes, layers, flow nodes, trained, '
        'untrainable and terminal offline nodes; histories of 4-20 trainings from all kinds of sources, executions, '
        'inversions, operations on single nodes, container edits and copies or save-and-reload steps, with failing nodes '
        'and sources; distinct: workload or event log differs')
SHRINK = ['ops']
COMPONENTS = {'real': ['mdp.OnlineFlow, CircularOnlineFlow', 'OnlineNode and subclasses', 'online layers and flow nodes'],
              'simulated': ['data sources', 'random generators (seeded)', 'process restarts (save, forget, reload)']}
ASSUMPTIONS = ['reference: plain Python model driving the nodes one by one']

IND = 6


class SourceError(Exception):
    pass


# -- specifications: nodes and references from one description

def g_leaf(rng, d, known, real=True):
    """Online node which keeps the dimension."""
    k = rng.random()
    dim = {'input_dim': d} if known or rng.random() < 0.5 else {}
    if k < 0.6 or not real:
        p = dict(dim)
        if rng.random() < 0.4:
            p['rand'] = True
        if rng.random() < 0.4:
            p['tt'] = rng.choice(['batch', 'batch', 'incremental'])
        return {'t': 'VOn', 'p': p, 'rng': rng.randrange(1000)}
    t = rng.choice(['OnlineCenteringNode', 'OnlineTimeDiffNode', 'CCIPCANode', 'CCIPCAWhiteningNode', 'MCANode', 'IncSFANode'])
    p = dict(dim)
    s = {'t': t, 'p': p, 'rng': rng.randrange(1000)}
    if t == 'OnlineCenteringNode' and rng.random() < 0.5:
        p['avg_n'] = rng.choice([1, 2, 5])
    if t in ('CCIPCANode', 'CCIPCAWhiteningNode', 'MCANode', 'IncSFANode') and (known or rng.random() < 0.5):
        p['output_dim'] = d
    if t == 'IncSFANode':
        p['remove_mean'] = rng.random() < 0.6
        if known:
            p['whitening_output_dim'] = d
    if t in ('OnlineTimeDiffNode', 'MCANode', 'IncSFANode') and rng.random() < 0.3:
        s['tt'] = 'batch'
    return s


def g_static(rng, d, known):
    k = rng.random()
    if k < 0.3:
        return {'t': 'CutoffNode', 'p': {'lower_bound': -3, 'upper_bound': 6, 'input_dim': d}, 'static': 1}
    if k < 0.6:
        return {'t': 'IdentityNode', 'p': {'input_dim': d}, 'static': 1}
    if k < 0.8:
        return {'t': 'PCANode', 'p': {'input_dim': d}, 'pre': rng.randrange(1, 1000), 'static': 1}
    return {'t': 'VOn', 'p': {'input_dim': d}, 'rng': 1, 'closed': rng.randrange(1, 1000), 'static': 1}


def g_stage(rng, d, known, depth=0, circ=False):
    """Node which keeps the dimension d."""
    k = rng.random()
    if depth >= 2 or k < 0.55:
        return g_leaf(rng, d, known, real=depth == 0 or rng.random() < 0.7)
    if k < 0.7:
        return g_static(rng, d, known)
    kind = rng.choice(['layer', 'clone', 'same', 'flow', 'flow', 'circ'])
    s = {'t': kind}
    if rng.random() < 0.4:
        s['rng'] = rng.randrange(1000)
    if rng.random() < 0.3:
        s['tt'] = rng.choice(['batch', 'incremental'])
    if kind == 'layer' and d >= 2:
        cut = rng.randint(1, d - 1)
        s['nodes'] = [g_stage(rng, c, True, depth + 1) for c in (cut, d - cut)]
    elif kind == 'clone' and d % 2 == 0:
        s['node'] = g_stage(rng, d // 2, True, depth + 1)
        s['n'] = 2
    elif kind == 'same' and not circ and depth == 0:
        s['nodes'] = [g_stage(rng, d, True, depth + 1) for _ in range(rng.choice([1, 2]))]
    else:
        s['t'] = kind = kind if kind in ('flow', 'circ') else 'flow'
        s['nodes'] = [g_stage(rng, d, True if i == 0 else known, depth + 1) for i in range(rng.choice([1, 2, 2, 3]))]
        if kind == 'circ':
            s['iters'] = rng.choice([1, 1, 2, 3])
            s['ignore'] = rng.random() < 0.25
            s['out'] = rng.choice([None, None, 0, len(s['nodes']) - 1])
            if rng.random() < 0.8 or not s['ignore']:
                s['stored'] = [[rng.randint(-3, 3) for _ in range(d)] for _ in range(rng.choice([1, 1, 2]))]
    if not any_online(s) and s['t'] in ('flow', 'circ'):
        return g_leaf(rng, d, known)
    return s


def any_online(s):
    if 'nodes' in s:
        return any(any_online(x) for x in s['nodes'])
    if 'node' in s:
        return any_online(s['node'])
    return not s.get('static')


def has(s, pred):
    if pred(s):
        return True
    return any(has(x, pred) for x in s.get('nodes', []) + ([s['node']] if 'node' in s else []))


def g_terminal(rng, d):
    k = rng.random()
    if k < 0.5:
        return {'t': 'VAcc', 'p': {'input_dim': d, 'phases': rng.choice([1, 2, 3])}, 'term': 1}
    t = rng.choice(['PCANode', 'FDANode', 'LinearRegressionNode', 'SFANode', 'HistogramNode'])
    if t == 'FDANode':
        return {'t': t, 'p': {'input_dim': d, 'output_dim': 1}, 'term': 1}
    return {'t': t, 'p': {'input_dim': d}, 'term': 1}


def build(spec):
    """Return node and reference."""
    t = spec['t']
    if spec.get('term') or (spec.get('static') and t != 'VOn'):
        s = {k: v for k, v in spec.items() if k in ('t', 'p', 'pre')}
        n, m = catalog.make(s), catalog.make(s)
        if spec.get('term'):
            return n, onodes.RefTerminal(m, catalog.args_of(m) is not None)
        return n, onodes.RefStatic(m)
    p = dict(spec.get('p') or {})
    if t in ('VOn', 'VOnArg'):
        n = [getattr(onodes, t)(numx_rng=np.random.RandomState(spec['rng']), **dict(p, **({'nargs': 1} if t == 'VOnArg' else {})))
             for _ in range(2)]
        if spec.get('closed'):
            x = catalog.ints(np.random.RandomState(spec['closed']), 3, p['input_dim'])
            for m in n:
                m.train(x)
                m.stop_training()
            return n[0], onodes.RefStatic(n[1])
        if t == 'VOnArg':
            p['nargs'] = 1
        return n[0], onodes.RefVOn(p, np.random.RandomState(spec['rng']))
    if t in ('layer', 'same', 'flow', 'circ'):
        subs = [build(s) for s in spec['nodes']]
        nodes = [n for n, _ in subs]
        refs = [r for _, r in subs]
    rng = np.random.RandomState(spec['rng']) if 'rng' in spec else None
    if t == 'layer':
        node, ref = hinet.OnlineLayer(nodes, numx_rng=rng), onodes.RefLayer(refs, 'layer')
    elif t == 'same':
        node, ref = hinet.SameInputOnlineLayer(nodes, numx_rng=rng), onodes.RefLayer(refs, 'same')
    elif t == 'clone':
        n, r = build(spec['node'])
        node, ref = hinet.CloneOnlineLayer(n, spec['n'], numx_rng=rng), onodes.RefLayer([r] * spec['n'], 'clone')
    elif t == 'flow':
        node, ref = hinet.OnlineFlowNode(mdp.OnlineFlow(nodes), numx_rng=rng), onodes.RefFlowNode(refs)
    elif t == 'circ':
        f = mdp.CircularOnlineFlow(nodes)
        f.set_flow_iterations(spec['iters'])
        f.ignore_input(spec['ignore'])
        ref = onodes.RefCircNode(refs, spec['iters'], spec['ignore'])
        if spec.get('out') is not None:
            f.set_output_node(spec['out'])
            ref.out = spec['out']
        if spec.get('stored'):
            x = np.array(spec['stored'], dtype=float)
            f.set_stored_input(x)
            ref.stored = x.copy()
        node = hinet.CircularOnlineFlowNode(f, numx_rng=rng)
    else:
        n = [getattr(mn, t)(numx_rng=np.random.RandomState(spec['rng']), **p) for _ in range(2)]
        if spec.get('tt'):
            for m in n:
                m.set_training_type(spec['tt'])
        return n[0], onodes.RefReal(n[1], True)
    if rng is not None:
        ref.set_rng(np.random.RandomState(spec['rng']))
    if spec.get('tt'):
        try:
            node.set_training_type(spec['tt'])
            ref._tt = spec['tt']
            if ref.inferred not in (None, spec['tt']):
                ref.bad = 'training type changed to %s' % spec['tt']
        except mdp.NodeException:
            if ref.inferred in (None, spec['tt']):
                ref.bad = 'training type %s refused' % spec['tt']
    return node, ref


def gen(rng):
    circ = rng.random() < 0.35
    d = rng.choice([2, 3, 4])
    nodes = [g_stage(rng, d, i == 0 or rng.random() < 0.5, circ=circ) for i in range(rng.choice([1, 2, 2, 3, 3, 4]))]
    for s in nodes:
        if s['t'] == 'VOn' and not s.get('static'):
            if rng.random() < 0.15 and not circ:
                s['t'] = 'VOnArg'
            if rng.random() < 0.1:
                s['p']['fail'] = [rng.randint(1, 8)]
    # only the last node may change the dimension
    for s in nodes[:-1]:
        while s['t'] == 'same':
            s.clear()
            s.update(g_stage(rng, d, True, circ=True))
    if circ and nodes[-1]['t'] == 'same':
        nodes[-1] = g_leaf(rng, d, True)
    if not circ and rng.random() < 0.35 and nodes[-1]['t'] != 'same':
        nodes.append(g_terminal(rng, d))
    n0 = len(nodes)
    spare = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            spare.append(g_leaf(rng, rng.choice([d, d, d, 3]), True) if k < 0.5 else g_static(rng, d, True) if k < 0.75 else
                         g_terminal(rng, d))
    ops = []
    for _ in range(rng.choice([3, 5, 8, 12])):
        x = rng.choice(['train'] * 6 + ['exec'] * 3 + ['inv', 'ntrain', 'nexec', 'nexec', 'nstop', 'tt', 'copy', 'copy', 'ncopy']
                       + ['circ'] * (3 if circ else 0) + (['edit'] * 4 if spare else []))
        if not ops:
            x = rng.choice(['train', 'train', 'train', 'exec', x])
        seed = rng.randrange(10 ** 6)
        if x == 'train':
            f = None
            if rng.random() < 0.1:
                f = [rng.choice(['raise', 'empty', 'dim', 'count', 'noargs', 'extra']), rng.randrange(3)]
            ops.append([x, seed, rng.choice(['array2', 'array3', 'list', 'tuple', 'gen', 'iter', 'class']),
                        [rng.choice([1, 1, 2, 3, 5, 12]) for _ in range(rng.choice([1, 1, 2, 3, 4]))],
                        rng.choice(['plain', 'tuple', 'list']), f])
        elif x == 'exec':
            ops.append([x, seed, [rng.choice([1, 2, 4]) for _ in range(rng.choice([1, 1, 2]))],
                        rng.choice(['array', 'list', 'gen']), rng.choice([None, None, 0, 1, 2])])
        elif x == 'inv':
            ops.append([x, seed, rng.choice([1, 3])])
        elif x in ('ntrain', 'nexec'):
            ops.append([x, seed, rng.randrange(5), rng.choice([1, 2, 3])])
        elif x == 'nstop':
            if rng.random() < 0.5:
                ops.append([x, rng.randrange(5)])
        elif x == 'tt':
            ops.append([x, rng.randrange(5), rng.choice(['incremental', 'batch', 'other'])])
        elif x == 'copy':
            ops.append([x, rng.choice(['copy', 'deepcopy', 'save', 'string', 'reload0', 'slice'])])
        elif x == 'ncopy':
            ops.append([x, rng.randrange(5), rng.choice(['copy', 'save', 'deepcopy'])])
        elif x == 'edit':
            e = rng.choice(['set', 'setsl', 'del', 'delsl', 'insert', 'append', 'iadd', 'extend', 'add', 'pop'])
            ops.append([x, e, rng.choice([0, 1, -1, 2, 9]),
                        [rng.choice([None, 0, 1, -1]), rng.choice([None, 1, 2, -1]), rng.choice([None, None, 2, -1])],
                        [rng.randrange(8) for _ in range(rng.choice([0, 1, 1, 2]))],
                        rng.choice(['list', 'gen', 'flow', 'node', 'bad'])])
        else:
            k = rng.choice(['cin', 'cout', 'citer', 'cign', 'cstore', 'creset'])
            ops.append([k, {'cin': rng.choice([0, 1, 2, 3, -1, 9]), 'cout': rng.choice([0, 1, 2, 3, -1, 9]),
                            'citer': rng.choice([1, 2, 3]), 'cign': rng.random() < 0.5, 'cstore': rng.choice([1, 2]),
                            'creset': 0}[k], seed])
    return {'nodes': nodes, 'spare': spare, 'd': d, 'circ': circ, 'ops': ops, 'nseed': rng.randrange(10 ** 6),
            'sched': {'trace': []}}


class Source(object):
    def __init__(self, items, fail=None):
        self.items = items
        self.fail = fail
        self.starts = self.taken = 0

    def __iter__(self):
        self.starts += 1
        return self.walk()

    def walk(self):
        for i, x in enumerate(self.items):
            if self.fail == i:
                raise SourceError('planned')
            self.taken += 1
            yield x


class O01(HRun):

    def scenario(self, sim):
        case = self.case
        random.seed(case['nseed'])
        self.model = []
        self.spare = []
        try:
            for s in case['nodes']:
                self.model.append(build(s))
            for s in case['spare']:
                self.spare.append(build(s))
        except mdp.NodeException as e:
            self.violate('construction', '%s: %s' % (s, e))
            return
        for n, r in self.model:
            if r.bad:
                self.violate('training-type', r.bad)
                return
        self.circ = case['circ']
        self.cls = mdp.CircularOnlineFlow if self.circ else mdp.OnlineFlow
        self.flow = self.cls([n for n, _ in self.model])
        self.out = len(self.model) - 1
        self.iters = 1
        self.ignore = False
        self.stored = None
        self.old = []
        for op in case['ops']:
            what = '%s' % (op,)
            r = getattr(self, 'do_' + op[0])(*op[1:])
            if r is False or self.res.violations:
                break
            if not self.same_nodes(what) or not self.compare(what):
                break
        for flow, snap in self.old:
            for n, s in zip(flow, snap):
                df = compare.diff(n, s, sign=False)
                if df:
                    self.violate('copy-shares-state', 'continuing with the copy changes %s: %s' % (type(n).__name__, df))
                    return

    # -- comparison
    def same_nodes(self, what):
        if [id(n) for n in self.flow] != [id(n) for n, _ in self.model] or len(self.flow) != len(self.model):
            self.violate('nodes', '%s: wrong nodes or order' % what)
            return False
        if self.circ:
            if self.flow.output_node_idx != self.out:
                self.violate('output-node', '%s: output node %s, expected %s' % (what, self.flow.output_node_idx, self.out))
                return False
            s = self.flow.get_stored_input()
            df = compare.diff(s, self.stored, rtol=1e-9, sign=False)
            if df:
                self.violate('stored-input', '%s: %s' % (what, df))
                return False
        return True

    def compare(self, what):
        for i, (n, r) in enumerate(self.model):
            df = r.compare(n)
            if df:
                self.violate('state', '%s: node %d: %s' % (what, i, df))
                return False
        return True

    def outcome(self, what, f, ref):
        """Run both, return (ok, result, expected result)."""
        want = err = None
        got = None
        st = np.random.get_state()
        try:
            want = ref()
        except Refused as e:
            err = e
        except (ValueError, FloatingPointError, np.linalg.LinAlgError, mdp.utils.SymeigException, ZeroDivisionError, AttributeError, OverflowError):
            raise Skip('ill-conditioned')
        np.random.set_state(st)
        try:
            with np.errstate(all='ignore'):
                got = f()
            res = None
        except (mdp.MDPException, SourceError, onodes.OnFailure, AttributeError, TypeError, IndexError) as e:
            res = e
        self.log(what.split(',')[0], type(res).__name__, err and str(err))
        if (res is None) != (err is None):
            self.violate('outcome', '%s: %s, expected %s' % (what, str(res)[-300:] if res is not None else 'accepted',
                                                             err is None and 'success' or 'refusal (%s)' % err))
            return False, None, None
        if err is not None:
            self.sim.count('refused:%s' % str(err).split(' ')[0])
        return err is None, got, want

    def array(self, what, got, want, tol=1e-9):
        df = compare.diff(got, want, rtol=tol, sign=False)
        if df:
            self.violate('result', '%s: %s' % (what, df))
            return False
        return True

    @property
    def dim(self):
        return self.model[0][1].dim or self.case['d']

    # -- training
    def do_train(self, seed, kind, lens, wrap, fault):
        rs = np.random.RandomState(seed)
        d = self.dim
        refs = [r for _, r in self.model]
        need = [r.nargs for r in refs]
        f = fault[0] if fault else None
        term = isinstance(refs[-1], onodes.RefTerminal) and refs[-1].training()
        if term:
            lens = [max(n, 8) for n in lens]
        if any(need) and (kind.startswith('array') or wrap == 'plain'):
            wrap = 'tuple'
            if kind.startswith('array'):
                kind = 'list'
        if self.circ:
            wrap = 'plain'
            if f in ('empty', 'count', 'noargs', 'extra'):
                f = None
        if f in ('count', 'noargs', 'extra') and (kind.startswith('array') or wrap == 'plain'):
            f = None
        if f in ('noargs', 'extra') and not any(need):
            f = None
        fail = None
        if kind == 'array2':
            n = sum(lens)
            x = catalog.ints(rs, n, d)
            if f == 'dim':
                x = np.hstack([x, x])
            data = x
            items = [(x[i:i + 1], None) for i in range(n)]
            f = f if f == 'dim' else None
        elif kind == 'array3':
            x = np.array([catalog.ints(rs, lens[0], d) for _ in lens])
            data = x
            items = [(c, None) for c in x]
            f = None
        else:
            items, seq = [], []
            k = fault[1] % len(lens) if fault else None
            for c, n in enumerate(lens):
                x = catalog.ints(rs, n, d)
                if f == 'dim' and c == k:
                    x = np.hstack([x, x])
                args = [None] * len(refs)
                for i, (node, r) in enumerate(self.model):
                    if r.nargs:
                        args[i] = self.args(node, r, x, rs)
                    elif rs.randint(3) == 0:
                        args[i] = (1, 2)          # ignored
                if f == 'noargs' and c == k:
                    i = [i for i in range(len(refs)) if need[i]][0]
                    args[i] = ()
                if f == 'extra' and c == k:
                    i = [i for i in range(len(refs)) if need[i]][-1]
                    args[i] = tuple(args[i]) + (1,)
                if f == 'count' and c == k:
                    args = args[:-1] if rs.randint(2) else args + [None]
                items.append((x, args if wrap != 'plain' else None))
                seq.append(x if wrap == 'plain' else tuple([x] + args) if wrap == 'tuple' else [x] + args)
            if f == 'raise':
                fail = k
                kind = 'class' if kind != 'gen' else kind
            if f == 'empty':
                items, seq = [], []
            src = Source(seq, fail)
            data = {'list': lambda: list(seq), 'tuple': lambda: tuple(seq), 'gen': src.walk, 'iter': lambda: iter(seq),
                    'class': lambda: src}[kind]()
        before = [(it[0].copy(), copy.deepcopy(it[1])) for it in items]
        oneshot = kind in ('gen', 'iter')
        if self.circ:
            ref = lambda: self.ref_circ(items, fail)
        else:
            ref = lambda: self.ref_train(items, fail, oneshot)
        what = 'train, %s of %s%s' % (kind, lens, ' fault %s' % f if f else '')
        if f:
            self.sim.count('fault:%s' % f)
        self.sim.count('trainings')
        ok, _, _ = self.outcome(what, lambda: self.flow.train(data), ref)
        for a, b in zip(before, items):
            if a[0].shape != b[0].shape or (a[0] != b[0]).any():
                self.violate('data-changed', what)
                return False
        return not self.res.violations

    def args(self, node, r, x, rs):
        kind = catalog.args_of(r.n) if isinstance(r, onodes.RefTerminal) else 'num'
        if kind == 'label':
            lab = np.arange(len(x)) % 2
            return (lab,)
        return catalog.make_args(rs, x, kind)

    def ref_train(self, items, fail, oneshot):
        refs = [r for _, r in self.model]
        last = refs[-1]
        term = isinstance(last, onodes.RefTerminal)
        first = True
        while True:
            if not first and oneshot:
                raise Refused('empty')
            for c, (x, args) in enumerate(items):
                if c == fail:
                    raise Refused('source')
                if args is not None and len(args) != len(refs):
                    raise Refused('count')
                for i, r in enumerate(refs):
                    a = ()
                    if r.nargs:
                        a = tuple(args[i])
                        if len(a) != 1:
                            raise Refused('arguments')
                    if r.training() and (first or r is last):
                        r.train(x, *a)
                    if i < len(refs) - 1:
                        x = r.execute(x)
            if not items:
                raise Refused('empty')
            if term and last.training() and last.n.get_remaining_train_phase() > 1:
                last.stop()
                first = False
                continue
            break
        if term and last.training():
            last.stop()

    def ref_circ(self, items, fail):
        refs = [r for _, r in self.model]
        for c, (x, _) in enumerate(items):
            if c == fail:
                raise Refused('source')
            if self.ignore:
                x = self.stored
                if x is None:
                    raise Refused('nothing stored')
            for _ in range(self.iters):
                for r in refs:
                    if r.training():
                        r.train(x)
                    x = r.execute(x)
                self.stored = x

    # -- execution
    def do_exec(self, seed, lens, kind, nodenr):
        rs = np.random.RandomState(seed)
        d = self.dim
        xs = [catalog.ints(rs, n, d) for n in lens]
        if kind == 'array':
            xs = xs[:1]
        if nodenr is not None:
            nodenr = nodenr % len(self.model)
        last = nodenr if nodenr is not None else self.out if self.circ else len(self.model) - 1

        def ref():
            out = []
            for x in xs:
                for _, r in self.model[:last + 1]:
                    x = r.execute(x)
                out.append(x)
            return np.concatenate(out)
        data = {'array': lambda: xs[0], 'list': lambda: list(xs), 'gen': lambda: (x for x in xs)}[kind]()
        what = 'execute, %s of %s up to %s' % (kind, lens, nodenr)
        self.sim.count('executions')
        ok, got, want = self.outcome(
            what, lambda: self.flow.execute(data) if nodenr is None else self.flow.execute(data, nodenr=nodenr), ref)
        return self.array(what, got, want) if ok else not self.res.violations

    def do_inv(self, seed, n):
        last = self.out if self.circ else len(self.model) - 1
        r = self.model[last][1]
        if not r.trainable and r.dim is None:
            return True
        if any(isinstance(r, onodes.RefTerminal) for _, r in self.model):
            return True
        # the dimension of the output is that of the input except for layers which get the same input
        d = self.case['d']
        if any(not r.invertible for _, r in self.model[:last + 1]):
            d = d
        y = catalog.ints(np.random.RandomState(seed), n, d)

        def ref():
            x = y
            for _, r in reversed(self.model[:last + 1]):
                if not r.invertible:
                    raise Refused('not invertible')
                if not ready(r):
                    raise Skip('inverting an untrained node')
                x = r.inverse(x)
            return x
        what = 'inverse, %d' % n
        ok, got, want = self.outcome(what, lambda: self.flow.inverse(y), ref)
        return self.array(what, got, want) if ok else not self.res.violations

    # -- single nodes
    def do_ntrain(self, seed, k, n):
        node, r = self.model[k % len(self.model)]
        if isinstance(r, onodes.RefTerminal) or not r.dim:
            return True
        rs = np.random.RandomState(seed)
        x = catalog.ints(rs, n, r.dim)
        a = (5,) if r.nargs else ()
        what = 'node training, %s' % type(node).__name__

        def ref():
            if not r.online:
                raise Refused('training')
            r.train(x, *a)
        ok, _, _ = self.outcome(what, lambda: node.train(x, *a), ref)
        return not self.res.violations

    def do_nexec(self, seed, k, n):
        node, r = self.model[k % len(self.model)]
        if not r.dim:
            return True
        x = catalog.ints(np.random.RandomState(seed), n + (8 if isinstance(r, onodes.RefTerminal) else 0), r.dim)
        what = 'node execution, %s' % type(node).__name__
        ok, got, want = self.outcome(what, lambda: node.execute(x), lambda: r.execute(x))
        if ok and not self.array(what, got, want):
            return False
        if ok and r.online and r.invertible and ready(r):
            ok, got, want = self.outcome(what + ', inverse', lambda: node.inverse(got), lambda: r.inverse(want))
            return self.array(what, got, want) if ok else not self.res.violations
        return not self.res.violations

    def do_nstop(self, k):
        node, r = self.model[k % len(self.model)]
        ok, _, _ = self.outcome('node stop, %s' % type(node).__name__, node.stop_training, r.stop)
        return not self.res.violations

    def do_tt(self, k, tt):
        node, r = self.model[k % len(self.model)]
        if not r.online or not r.training():
            return True

        def ref():
            if tt not in node._get_supported_training_types():
                raise Refused('type')
            if isinstance(r, onodes.RefGroup):
                # set by the first training, cannot be changed then
                if r._tt is not None or r.started:
                    if tt != r.tt:
                        raise Refused('type')
                else:
                    r._tt = tt
            elif isinstance(r, onodes.RefVOn):
                r.tt = tt
            else:
                r.n.set_training_type(tt)
        self.outcome('training type, %s %s' % (type(node).__name__, tt), lambda: node.set_training_type(tt), ref)
        return not self.res.violations

    # -- copies and restarts
    def clone(self, obj, how):
        if how == 'copy':
            return obj.copy()
        if how == 'deepcopy':
            return copy.deepcopy(obj)
        if how == 'string':
            return pickle.loads(obj.save(None))
        if how == 'reload0':
            return pickle.loads(pickle.dumps(obj, 2))
        if how == 'save':
            d = tempfile.mkdtemp(prefix='vsim_o01_')
            fn = os.path.join(d, 'obj')
            try:
                obj.save(fn)
                with open(fn, 'rb') as f:
                    return pickle.load(f)
            finally:
                if os.path.exists(fn):
                    os.remove(fn)
                os.rmdir(d)
        if how == 'slice':
            return obj[:]

    def do_copy(self, how):
        if how == 'slice':
            # another flow with the same nodes
            try:
                f = self.flow[:]
            except ValueError as e:
                self.violate('slice', str(e))
                return False
            if type(f) is not self.cls or [id(n) for n in f] != [id(n) for n in self.flow]:
                self.violate('slice', type(f).__name__)
            return True
        new = self.clone(self.flow, how)
        self.sim.count('restarts' if how in ('save', 'string', 'reload0') else 'copies')
        self.log('copy', how)
        if type(new) is not self.cls or len(new) != len(self.flow):
            self.violate('copy', '%s: %s' % (how, type(new).__name__))
            return False
        if any(a is b for a, b in zip(new, self.flow)):
            self.violate('copy', '%s: same nodes' % how)
            return False
        self.old.append((self.flow, copy.deepcopy(list(self.flow))))
        self.spare = [p for p in self.spare if not any(p[0] is n for n in self.flow)]
        self.flow = new
        self.model = [(n, r) for n, (_, r) in zip(new, self.model)]
        return True

    def do_ncopy(self, k, how):
        k = k % len(self.model)
        node, r = self.model[k]
        new = self.clone(node, how)
        if type(new) is not type(node):
            self.violate('copy', '%s: %s' % (how, type(new).__name__))
            return False
        self.old.append(([node], [copy.deepcopy(node)]))
        self.spare = [p for p in self.spare if p[0] is not node]
        out = self.out
        self.flow[k] = new
        if self.circ:
            # the output node stays or is reset
            self.out = out if out != k else len(self.model) - 1
        self.model[k] = (new, r)
        self.log('ncopy', how)
        self.sim.count('copies')
        return True

    # -- container
    def do_edit(self, e, i, sl, ks, how):
        used = [id(n) for n, _ in self.model]
        free = [p for p in self.spare if id(p[0]) not in used]
        v = []
        for k in ks:
            if free:
                p = free[k % len(free)]
                if not any(p is q for q in v):
                    v.append(p)
        model = list(self.model)
        out_node = self.model[self.out][0] if self.circ else None
        flow = self.flow
        ret = False
        one = v[0] if v else None
        if e in ('set', 'insert', 'append') and one is None:
            return True
        nodes = [n for n, _ in v]
        err = None
        try:
            if e in ('set', 'insert', 'append') and how == 'bad':
                arg = 5
            else:
                arg = one and one[0]
            if e == 'set':
                def f():
                    flow[i] = arg
                model[i] = one
            elif e == 'insert':
                def f():
                    flow.insert(i, arg)
                model.insert(i, one)
            elif e == 'append':
                def f():
                    flow.append(arg)
                model.append(one)
            elif e == 'setsl':
                a = {'list': list, 'gen': iter, 'flow': list, 'node': tuple, 'bad': lambda v: list(v) + [5]}[how](nodes)

                def f():
                    flow[slice(*sl)] = a
                model[slice(*sl)] = v
                if how == 'bad':
                    raise TypeError
            elif e == 'del':
                def f():
                    del flow[i]
                del model[i]
            elif e == 'delsl':
                def f():
                    del flow[slice(*sl)]
                del model[slice(*sl)]
            elif e == 'pop':
                def f():
                    return flow.pop(i)
                ret = model.pop(i)[0]
            else:
                if how == 'node' and e != 'extend':
                    if not v:
                        return True
                    v = v[:1]
                    a = v[0][0]
                elif how == 'bad':
                    a = 5
                else:
                    how = 'flow'
                    if not v:
                        return True
                    if not self.valid(v) or (self.circ and any(isinstance(r, onodes.RefTerminal) and r.training() for _, r in v)):
                        v = v[:1]
                    if self.circ and isinstance(v[0][1], onodes.RefTerminal):
                        a = mdp.OnlineFlow([v[0][0]])
                    else:
                        a = self.cls([n for n, _ in v])

                def f():
                    if e == 'extend':
                        flow.extend(a)
                    elif e == 'iadd':
                        g = flow
                        g += a
                        if g is not flow:
                            self.violate('edit-result', 'in-place addition gives another flow')
                    else:
                        return flow + a
                if how == 'bad':
                    raise TypeError
                if how == 'node' and self.circ and not isinstance(a, mdp.OnlineNode):
                    raise TypeError
                if e == 'add':
                    ret = model + v
                else:
                    model = model + v
            if e in ('set', 'insert', 'append') and how == 'bad':
                raise TypeError
            if isinstance(ret, list):
                if not self.valid(ret):
                    raise ValueError
            elif not model:
                return True
            elif not self.valid(model):
                raise ValueError
        except (IndexError, ValueError, TypeError) as x:
            err = x
            model = list(self.model)
        if not model:
            return True
        try:
            got = f()
            res = None
        except (IndexError, ValueError, TypeError) as x:
            res = x
        what = 'edit %s, %s on %d nodes' % (e, [i, sl, len(v), how], len(self.model))
        self.log('edit', e, type(res).__name__)
        self.sim.count('edits' if res is None else 'refused-edits')
        if (res is None) != (err is None):
            self.violate('edit-outcome', '%s: %s, expected %s' % (what, type(res).__name__ + str(res), type(err).__name__))
            return False
        if err is None and isinstance(ret, list):
            if type(got) is not self.cls or [id(n) for n in got] != [id(n) for n, _ in ret]:
                self.violate('edit-result', what)
            return True
        if err is None and e == 'pop' and got is not ret:
            self.violate('edit-result', what)
        self.model = model
        if self.circ and err is None:
            pos = [k for k, (n, _) in enumerate(model) if n is out_node]
            self.out = pos[0] if pos else len(model) - 1
        return True

    def valid(self, model):
        for (a, _), (b, _) in zip(model, model[1:]):
            if a.output_dim is not None and b.input_dim is not None and a.output_dim != b.input_dim:
                return False
        for k, (n, r) in enumerate(model):
            if isinstance(r, onodes.RefTerminal) and r.training() and (self.circ or k < len(model) - 1):
                return False
        return True

    # -- circular flows
    def do_cin(self, k, seed):
        def ref():
            if not 0 <= k < len(self.model):
                raise Refused('index')
            self.model = self.model[k:] + self.model[:k]
            self.out = (self.out - k) % len(self.model)
        self.outcome('input node, %d' % k, lambda: self.flow.set_input_node(k), ref)
        return not self.res.violations

    def do_cout(self, k, seed):
        def ref():
            if not 0 <= k < len(self.model):
                raise Refused('index')
            self.out = k
        self.outcome('output node, %d' % k, lambda: self.flow.set_output_node(k), ref)
        return not self.res.violations

    def do_creset(self, k, seed):
        self.flow.reset_output_node()
        self.out = len(self.model) - 1

    def do_citer(self, k, seed):
        self.flow.set_flow_iterations(k)
        self.iters = k

    def do_cign(self, k, seed):
        self.flow.ignore_input(k)
        self.ignore = k

    def do_cstore(self, n, seed):
        d = self.dim
        x = catalog.ints(np.random.RandomState(seed), n, d)
        self.flow.set_stored_input(x.copy())
        self.stored = x
        try:
            self.flow.set_stored_input(np.hstack([x, x]))
            if self.model[0][1].dim is not None:
                self.violate('stored-input', 'wrong dimension accepted')
            self.flow.set_stored_input(x.copy())
        except mdp.MDPException:
            pass


def ready(r):
    if isinstance(r, onodes.RefGroup):
        return all(ready(s) for s in r.subs)
    return r.started


def run(case):
    return hist.run_hist(case, O01)


def simplify(case):
    for i, op in enumerate(case['ops']):
        if op[0] == 'train':
            for alt in ([op[0], op[1], 'list', op[3], op[4], op[5]], [op[0], op[1], op[2], [1], op[4], op[5]],
                        [op[0], op[1], op[2], op[3], op[4], None]):
                if alt != op:
                    yield dict(case, ops=case['ops'][:i] + [alt] + case['ops'][i + 1:])
    if len(case['nodes']) > 1:
        for i in range(len(case['nodes'])):
            yield dict(case, nodes=case['nodes'][:i] + case['nodes'][i + 1:])
    for i, s in enumerate(case['nodes']):
        for sub in s.get('nodes', []) + ([s['node']] if 'node' in s else []):
            if s['t'] not in ('layer', 'clone'):
                yield dict(case, nodes=case['nodes'][:i] + [sub] + case['nodes'][i + 1:])
        if len(s.get('nodes', [])) > 1 and s['t'] != 'layer':
            for k in range(len(s['nodes'])):
                t = dict(s, nodes=s['nodes'][:k] + s['nodes'][k + 1:])
                if any_online(t):
                    yield dict(case, nodes=case['nodes'][:i] + [t] + case['nodes'][i + 1:])
        for key in ('tt', 'rng'):
            if key in s and s['t'] in ('layer', 'clone', 'same', 'flow', 'circ'):
                yield dict(case, nodes=case['nodes'][:i] + [{k: v for k, v in s.items() if k != key}] + case['nodes'][i + 1:])
