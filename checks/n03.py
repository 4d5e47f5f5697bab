"""N03: cutting, rejecting and interleaving of data streams."""
import inspect
import random
import threading

import numpy as np

import mdp

from vsim import catalog, compare, core, subjects, vnodes
from . import hist, pflow_common as pc, sched_common as sc
from .hist import HRun, Skip

RUNS = {'quick': 3000, 'thorough': 120000}
RULE = ('1-4 random nodes, layers or flow nodes; random cuts of their streams, memory layouts, rejected chunks at any '
        'position; the nodes are trained and executed interleaved by a random sequence or in threads preempted at any '
        'line; distinct: workload or event log differs')
SHRINK = ['nodes']
COMPONENTS = {'real': ['all node classes in reach, layers, flow nodes'],
              'simulated': ['data sources', 'threads (line level preemption)']}
ASSUMPTIONS = ['reference: a second node given the same observations in one chunk per phase (nodes which use the '
               'temporal structure of chunks: the same cut), alone and without rejected chunks']

# trained state depends on how the stream is cut
CUT = {'SFANode', 'SFA2Node', 'EtaComputerNode', 'TDSEPNode', 'ISFANode', 'XSFANode', 'GSFANode', 'iGSFANode',
       'RBMNode', 'RBMWithLabelsNode', 'PerceptronClassifier', 'IncSFANode', 'NeuralGasNode',
       'VartimeSFANode', 'TimeDelaySlidingWindowNode', 'TimeFramesNode', 'TimeDelayNode'}
POOL = [t for t in subjects.ALL if t not in ('ISFANode', 'XSFANode', 'NoiseNode', 'NormalNoiseNode', 'VBi',
                                             'RecursiveExpansionNode')]
ICA = {'TDSEPNode', 'CuBICANode', 'JADENode', 'FastICANode', 'ISFANode', 'XSFANode', 'PerceptronClassifier'}
# executing a chunk depends on its other rows or on earlier calls
NOROWS = {'TimeFramesNode', 'TimeDelayNode', 'TimeDelaySlidingWindowNode', 'RBMNode', 'RBMWithLabelsNode',
          'EtaComputerNode', 'HitParadeNode', 'HistogramNode', 'GSFANode', 'iGSFANode', 'VCount', 'IncSFANode',
          'OnlineTimeDiffNode', 'TimeDelaySlidingWindowNode', 'NeuralGasNode', 'GrowingNeuralGasNode', 'VAcc', 'VPlain'}
KINDS = ['dim', 'rank', 'rank3', 'empty', 'args', 'extra', 'len', 'list', 'none', 'unseen', 'badlabel', 'cols'] * 3 + [
    'str', 'complex', 'short']

# these keep the chunks themselves until the end of the training (or longer)
KEEP = {'KNNClassifier', 'CloneLayer', 'VAcc', 'VPlain', 'VRec'}


def keeps(node):
    return any(hasattr(n, '_cumulator_fields') or isinstance(n, mdp.nodes.HistogramNode) or type(n).__name__ in KEEP for n in catalog.leaves(node))


def gen(rng):
    nodes = []
    threads = rng.random() < 0.15
    k = rng.choice([1, 2, 3]) if not threads else rng.choice([2, 3])
    for _ in range(k):
        nd = {}
        if rng.random() < 0.2:
            f = pc.gen_flow(rng, 'P01')
            s, d = f['specs'][0], f['d']
            nd['stage'] = 1
        else:
            s, d = subjects.gen_node(rng, POOL)
            if k > 1 and (subjects.info(s['t'])['rnd'] or s['t'] == 'TDSEPNode') and not subjects.info(s['t'])['online']:
                s, d = subjects.gen_node(rng, ['PCANode', 'FDANode', 'SFANode', 'KNNClassifier', 'CuBICANode',
                                               'GaussianClassifier', 'OnlineCenteringNode'])
        inf = subjects.info(s['t'])
        lo = max(inf['min'], 1) if not nd.get('stage') else 3
        phases = []
        for p in range(3):
            rows = [rng.randint(lo + 1, lo + 15) for _ in range(rng.randint(1, 5))]
            rows[0] += inf['total'] + 15
            ch = [[r, rng.choice(['C', 'C', 'F', 'stride', 'view'])] for r in rows]
            rej = []
            if rng.random() < 0.6:
                for _ in range(rng.randint(1, 3)):
                    rej.append([rng.randrange(len(rows) + 1), rng.choice(KINDS if rng.random() < .8 or not nd.get('stage')
                                                                   else ['short', 'args'])])
            phases.append([ch, rej])
        nd.update(spec=s, d=d, seed=rng.randrange(10 ** 6), phases=phases, reuse=rng.random() < 0.5,
                  ex=[[rng.randint(max(lo, 1), 9) for _ in range(rng.randint(1, 4))], rng.randrange(1, 3)])
        nodes.append(nd)
    sched = sc.gen_sched(rng) if threads else {'trace': []}
    if threads:
        sched['lines'] = True
    return {'nodes': nodes, 'threads': threads, 'order': rng.randrange(10 ** 6), 'sched': sched}


def layout(x, how):
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'stride':
        b = np.zeros((2 * x.shape[0], x.shape[1] + 1), dtype=x.dtype)
        b[::2, :-1] = x
        return b[::2, :-1]
    if how == 'view':
        return np.ascontiguousarray(x[::-1])[::-1]
    return x


def optional(node):
    try:
        spec = inspect.getfullargspec(node._train)
    except TypeError:
        return True
    return bool(spec.defaults or spec.varargs)


class Member(object):
    """One node with its stream."""

    def __init__(self, run, i, nd):
        self.run, self.i, self.nd = run, i, nd
        self.spec = nd['spec']
        self.t = self.spec['t']
        self.rng = random.Random(nd['seed'])

    def build(self):
        return catalog.make(self.spec)

    def arg_kind(self):
        if self.nd.get('stage'):
            return catalog.args_of(self.ref0)
        return subjects.spec_args(self.spec)

    def stream(self, p):
        """All observations and arguments of phase p."""
        nd = self.nd
        rs = np.random.RandomState((nd['seed'] + 977 * (p if self.t != 'FDANode' else 0)) % 2 ** 31)
        ch = nd['phases'][p % 3 if self.t != 'FDANode' else 0][0]
        n = sum(c[0] for c in ch)
        x = catalog.ints(rs, n, nd['d'])
        if self.t.startswith('RBM'):
            x = (x > 0).astype('d')
        kind = self.arg_kind()
        args = None
        if kind == 'label':
            lab = rs.randint(0, 2, size=n)
            lab[:4] = [0, 1, 0, 1]
            args = lab
        elif kind == 'num':
            args = 'num'
        elif kind is not None:
            args = subjects.make_args(rs, x, kind)[0]
        return x, args, [c[0] for c in ch], [c[1] for c in ch]

    def bad(self, kind, x, args, node, p, rs):
        """A chunk which the node should reject: (x, args, must)"""
        y = x[:4].copy()
        a = () if args is None else (np.array(args[:4]),) if not isinstance(args, str) else (1.0,)
        if kind == 'dim':
            if node.input_dim is None:
                return None
            return np.hstack([y, y[:, :1]]), a, True
        if kind == 'rank':
            return y[0], a, True
        if kind == 'rank3':
            return y[None], a, True
        if kind == 'empty':
            return y[:0], tuple(b[:0] if isinstance(b, np.ndarray) else b for b in a), True
        if kind == 'args':
            return (y, (), True) if a else None
        if kind == 'extra':
            if any(optional(n) for n in catalog.leaves(node)):
                return None
            return y, a + (np.arange(4.0),), not isinstance(node, mdp.hinet.Layer)
        if kind == 'len':
            return (y, (a[0][:3],), True) if a and isinstance(a[0], np.ndarray) else None
        if kind == 'list':
            return y.tolist(), a, True
        if kind == 'none':
            return None, a, True
        if kind == 'str':
            return y.astype(str), a, False
        if kind == 'complex':
            return y + 1j, a, False
        if kind == 'short':
            return y[:1], tuple(b[:1] if isinstance(b, np.ndarray) else b for b in a), False
        if kind == 'unseen':
            return (y, (np.array([0, 1, 7, 1]),), False) if a and p > 0 and self.t == 'FDANode' else None
        if kind == 'badlabel':
            return (y, (np.array([0, 1, 7, 3]),), False) if a and self.t == 'PerceptronClassifier' else None
        if kind == 'cols':
            return (y, (np.hstack([a[0], a[0]]),), False) if a and self.arg_kind() in ('target', 'onehot') else None

    def reference(self):
        """Train and execute a node alone."""
        nd = self.nd
        self.ref0 = node = self.build()
        np.random.seed(nd['seed'])
        random.seed(nd['seed'])
        p = 0
        self.phases = 0
        if node.is_training():
            while node.is_training():
                x, args, lens, lay = self.stream(p)
                if self.cut():
                    k = 0
                    for n in lens:
                        node.train(x[k:k + n].copy(), *self.slice(args, k, n))
                        k += n
                elif args is not None and isinstance(args, str):
                    node.train(x.copy(), 1.0)
                else:
                    node.train(x.copy(), *self.slice(args, 0, len(x)))
                node.stop_training()
                p += 1
        self.phases = p
        lens, s = nd['ex']
        rs = np.random.RandomState(nd['seed'] + s)
        x = catalog.ints(rs, sum(lens), nd['d'])
        if self.t.startswith('RBM'):
            x = (x > 0).astype('d')
        self.ex = x
        self.exargs = subjects.make_args(rs, x, 'onehot') if self.t == 'RBMWithLabelsNode' else ()
        self.exlens = lens if not self.norows() else [sum(lens)]
        if self.t == 'TimeDelaySlidingWindowNode':
            self.ex, self.exlens = x[:1], [1]
        try:
            self.expected = node.execute(self.ex.copy(), *self.exargs)
        except Exception as e:
            self.expected = type(e).__name__
        self.ref = node

    def specs(self):
        return [s['t'] for s in catalog.walk(self.spec)]

    def cut(self):
        # (the recorded order of samples in a clone layer depends on the cut)
        return any(t in CUT or t == 'CloneLayer' for t in self.specs()) or self.spec.get('train_type') == 'batch' or \
            'num' == self.arg_kind()

    def norows(self):
        return any(t in NOROWS for t in self.specs())

    @staticmethod
    def slice(args, k, n):
        if args is None:
            return ()
        if isinstance(args, str):
            return (1.0,)
        return (args[k:k + n],)

    def steps(self, sim):
        """Generator which performs one step of the real node after the other."""
        run = self.run
        self.node = node = self.build()
        what = '%s (node %d)' % (self.t if not self.nd.get('stage') else '/'.join(self.specs()), self.i)
        if len(run.case['nodes']) == 1:
            np.random.seed(self.nd['seed'])
            random.seed(self.nd['seed'])
        for p in range(self.phases):
            x, args, lens, lay = self.stream(p)
            rej = self.nd['phases'][p % 3][1]
            k = 0
            for c in range(len(lens) + 1):
                for pos, kind in rej:
                    if min(pos, len(lens)) != c:
                        continue
                    b = self.bad(kind, x, args, node, p, None)
                    if b is None:
                        continue
                    bx, ba, must = b
                    before = phase_info(node)
                    snap = repr(bx)
                    try:
                        node.train(bx, *ba)
                    except (Exception,) as e:
                        sim.count('fault:rejected-%s' % kind)
                        what += ', rejected: ' + kind
                        run.log('rejected', self.i, kind, type(e).__name__)
                    else:
                        if must:
                            run.violate('accepted', '%s: malformed chunk (%s) accepted' % (what, kind))
                        else:
                            sim.count('accepted-%s' % kind)
                        raise Skip('accepted')
                    if phase_info(node)[:3] != before[:3]:
                        run.violate('phase', '%s: rejected chunk (%s) changed %s to %s' % (
                            what, kind, before, phase_info(node)))
                        return
                    if repr(bx) != snap:
                        run.violate('modified', '%s: rejected chunk (%s)' % (what, kind))
                        return
                    yield
                if c == len(lens):
                    break
                n = lens[c]
                # rotations are chosen by comparing almost equal values: keep rounding errors the same
                ch = layout(x[k:k + n].copy(), 'C' if any(t in ICA for t in self.specs()) else lay[c])
                keep = ch.copy()
                a = self.slice(args, k, n)
                akeep = [np.array(v) for v in a]
                ch.flags.writeable = False
                try:
                    node.train(ch, *a)
                except Exception as e:
                    run.violate('not-trained', '%s: phase %d, chunk %d: %s: %s' % (
                        what, p, c, type(e).__name__, str(e)[-200:]))
                    return
                if not np.array_equal(ch, keep) or any(not np.array_equal(u, v) for u, v in zip(a, akeep)):
                    run.violate('modified', '%s: training changed its chunk' % what)
                    return
                run.log('train', self.i, p, n)
                sim.count('chunk')
                if self.nd.get('reuse') and not keeps(node):
                    # the caller uses its memory again
                    ch.flags.writeable = True
                    ch[...] = 77 - ch[::-1]
                    sim.count('reused-chunk')
                k += n
                yield
            try:
                node.stop_training()
            except Exception as e:
                run.violate('not-trained', '%s: stop_training of phase %d: %s: %s' % (
                    what, p, type(e).__name__, str(e)[-200:]))
                return
            yield
        out = []
        k = 0
        for n in self.exlens:
            ch = layout(self.ex[k:k + n].copy(), ['C', 'F', 'stride', 'view'][n % 4])
            keep = ch.copy()
            ch.flags.writeable = False
            k += n
            try:
                y = node.execute(ch, *self.exargs)
            except Exception as e:
                if self.expected == type(e).__name__:
                    out = self.expected
                    break
                run.violate('not-executed', '%s: %s: %s' % (what, type(e).__name__, str(e)[-200:]))
                return
            if not np.array_equal(ch, keep):
                run.violate('modified', '%s: execution changed its chunk' % what)
                return
            out.append(y)
            yield
        if isinstance(self.expected, str) or isinstance(out, str):
            if not isinstance(out, str):
                run.violate('not-executed', '%s: succeeded, reference: %s' % (what, self.expected))
            return
        if isinstance(out[0], np.ndarray):
            out = np.concatenate(out)
        else:
            out = sum(out, []) if isinstance(out[0], list) else out[0]
        f = getattr(node, 'dtype', None) == np.dtype('f')
        tol = dict(rtol=2e-3, atol=1e-2) if f else dict(rtol=1e-5, atol=1e-6)
        if not self.ill():
            dd = compare.diff(out, self.expected, sign=True, **tol)
            if dd:
                run.violate('result', '%s: %s' % (what, dd))
                return
            dd = compare.diff(node, self.ref, sign=True, lazy=compare.LAZY, skip=SKIPATTR, **tol)
            if dd:
                run.violate('state', '%s: %s' % (what, dd))
                return
        else:
            sim.count('ill-conditioned')
        sim.count('stream')

    def ill(self):
        try:
            return pc_ill(self.ref)
        except Exception:
            return True


SKIPATTR = ('_train_phase_started', 'elog')


def pc_ill(node):
    """Eigenvalues too close to each other or to zero."""
    for n in catalog.leaves(node):
        d = getattr(n, 'd', None)
        if d is None:
            d = getattr(getattr(n, 'white', None), 'd', None)
        if isinstance(d, np.ndarray) and d.ndim == 1 and len(d):
            d = np.sort(np.abs(d))
            if d[0] < 1e-7 * d[-1] or (len(d) > 1 and np.min(np.diff(d)) < 1e-5 * d[-1]):
                return True
    return False


def phase_info(node):
    return (node.is_training(), node.get_current_train_phase(), node.get_remaining_train_phase(),
            node.input_dim, node.output_dim)


class Run(HRun):

    def scenario(self, sim):
        c = self.case
        members = [Member(self, i, nd) for i, nd in enumerate(c['nodes'])]
        with sim.paused():
            for m in members:
                try:
                    m.reference()
                except Exception as e:
                    raise Skip('reference: %s' % type(e).__name__)
        if c['threads']:
            skip = []

            def body(m):
                try:
                    for _ in m.steps(sim):
                        pass
                except Skip:
                    skip.append(1)
            ts = [threading.Thread(target=body, args=(m,)) for m in members]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if skip:
                raise Skip('accepted')
        else:
            rng = random.Random(c['order'])
            live = [m.steps(sim) for m in members]
            while live:
                g = rng.choice(live)
                try:
                    next(g)
                except StopIteration:
                    live.remove(g)
                if self.res.violations:
                    return


def run(case):
    tr = pc.TRACE_ALL if case['threads'] and case['sched'].get('lines', True) else ()
    res = hist.run_hist(case, Run, tr)
    for nd in case['nodes']:
        res.count('class:' + nd['spec']['t'])
    res.count('threads:%s' % case['threads'])
    return res


def simplify(case):
    for i, nd in enumerate(case['nodes']):
        def put(new):
            return dict(case, nodes=case['nodes'][:i] + [new] + case['nodes'][i + 1:])
        for p, (ch, rej) in enumerate(nd['phases']):
            def put2(v):
                return put(dict(nd, phases=nd['phases'][:p] + [v] + nd['phases'][p + 1:]))
            for j in range(len(rej)):
                yield put2([ch, rej[:j] + rej[j + 1:]])
            if len(ch) > 1:
                for j in range(len(ch)):
                    yield put2([ch[:j] + ch[j + 1:], rej])
