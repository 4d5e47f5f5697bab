"""H01: layers and flow nodes against trees of single nodes."""
import copy
import pickle

import numpy as np

import mdp
import mdp.hinet as hinet

from vsim import catalog, compare, disk, vnodes
from checks import hist

RUNS = {'quick': 5000, 'thorough': 120000}
RULE = ('random tree of layers, same-input layers, clone layers and flow nodes over programmed and library nodes, some '
        'of them trained before; random history of training, stopping, executing, inverting, copying, saving, '
        'crashing with reload and assigning dimensions, with failing nodes; distinct: history or tree differs')
SHRINK = ['ops']
COMPONENTS = {'real': ['mdp.hinet containers', 'mdp.Flow', 'nodes', 'pickle'], 'simulated': ['disk'],
              'stub': ['programmed nodes']}
MEASURE = 'distinct trees and histories'

CONT = ('Layer', 'SameInputLayer', 'CloneLayer', 'FlowNode')
POOLS = [['VAcc'] * 3 + ['VPlain', 'VCount', 'VLocal'],
         ['VAcc', 'VAcc', 'PCANode', 'SFANode', 'WhiteningNode', 'FDANode', 'QuadraticExpansionNode', 'IdentityNode'],
         ['VAcc', 'FANode', 'RBMNode', 'HitParadeNode', 'NormalizeNode', 'CutoffNode', 'HistogramNode', 'VPlain',
          'PolynomialExpansionNode', 'LinearRegressionNode'],
         ['VAcc', 'GaussianClassifier', 'KNNClassifier', 'NearestMeanClassifier', 'FDANode']]


# ---------------------------------------------------------------- generation

def gen_tree(rng, d, pool, depth, name='n', inlayer=False):
    """(spec, output dim)"""
    r = rng.random()
    top = depth == 3
    if depth and (top or r < 0.45):
        kind = rng.choice(['Layer', 'Layer', 'SameInputLayer', 'CloneLayer', 'FlowNode', 'FlowNode', 'FlowNode'])
        plain = [t for t in pool if catalog.spec_args({'t': t}) is None] or ['VAcc']
        if kind == 'CloneLayer' and d % 2 == 0:
            s, o = gen_tree(rng, d // 2, pool, depth - 1, name + 'c', True)
            return {'t': kind, 'node': s, 'n': 2}, 2 * o
        if kind == 'Layer' and d >= 2:
            specs = []
            left, out = d, 0
            while left:
                k = left if len(specs) == 2 else rng.randint(1, left)
                s, o = gen_tree(rng, k, plain, depth - 1, '%s%d' % (name, len(specs)), True)
                catalog.strip_args(s)
                specs.append(s)
                left -= k
                out += o
            return {'t': kind, 'nodes': specs}, out
        if kind == 'SameInputLayer':
            specs, out = [], 0
            for i in range(rng.randint(1, 3)):
                s, o = gen_tree(rng, d, plain, depth - 1, '%s%d' % (name, i), True)
                catalog.strip_args(s)
                specs.append(s)
                out += o
            return {'t': kind, 'nodes': specs}, out
        specs, cd = [], d
        for i in range(rng.randint(1, 3)):
            s, cd = gen_tree(rng, cd, plain, depth - 1, '%s%d' % (name, i), inlayer and i == 0)
            catalog.strip_args(s)
            if not inlayer and s['t'] in ('VAcc', 'VLocal', 'VPlain', 'VCount', 'IdentityNode', 'PCANode', 'SFANode') \
                    and rng.random() < 0.2:
                s['p'].pop('input_dim', None)
            elif i and s['t'] in ('VAcc', 'VLocal', 'VPlain', 'VCount', 'IdentityNode', 'SFANode') and \
                    rng.random() < 0.3:
                s['p'].pop('input_dim', None)
            specs.append(s)
            if cd > 10:
                break
        return {'t': 'FlowNode', 'nodes': specs}, cd
    s, o = catalog.rand_node(rng, d, pool)
    if s['t'] == 'RBMNode':
        s['p'] = {'hidden_dim': 2, 'visible_dim': d}
    if s['t'] in ('PCANode', 'SFANode', 'WhiteningNode') and o == d and rng.random() < 0.5:
        # the output dimension is not known before the training
        s['p'].pop('output_dim', None)
    if 'name' in s['p']:
        s['p']['name'] = name
    return s, o


def n_phases(s):
    t = s['t']
    if t in ('VPlain', 'VCount') or t[0] != 'V' and catalog.info(t)['untrainable']:
        return 0
    if t[0] == 'V':
        return s['p'].get('phases', 1)
    return catalog.info(t)['phases']


def gen(rng):
    pool = rng.choice(POOLS)
    d = rng.choice([1, 2, 3, 4, 4, 6])
    tree, out = gen_tree(rng, d, pool, 3)
    for s in catalog.walk(tree):
        if s['t'] in CONT:
            if rng.random() < 0.06:
                s['pre'] = rng.choice([1, 2, 9])
            continue
        ph = n_phases(s)
        if ph and s['p'].get('input_dim') and not s['p'].get('nargs') and rng.random() < 0.2 and \
                catalog.spec_args(s) is None:
            # phases completed (and maybe started) before
            s['pre'] = rng.randint(1, ph) if rng.random() < 0.8 else 0
            s['open'] = s['pre'] < ph and rng.random() < 0.5
        if s['t'] == 'RBMNode':
            s.pop('open', None)
    total = sum(n_phases(s) for s in catalog.walk(tree) if s['t'] not in CONT)
    ops = []
    ordered = rng.random() < 0.75
    n = rng.randint(2, 14)
    ph = 0
    while len(ops) < n:
        r = rng.random()
        o = {'n': rng.choice([1, 2, 3, 8, 8, 20, 20]), 's': rng.randrange(10000)}
        if ordered and ph < min(total, 8):
            # mostly sensible
            for _ in range(rng.choice([1, 1, 2])):
                ops.append(dict(o, op='train', n=rng.choice([8, 20, 20]), s=rng.randrange(10000)))
            if rng.random() < 0.2:
                ops.append(gen_extra(rng))
            ops.append({'op': 'stop', 's': rng.randrange(10000)})
            if rng.random() < 0.25:
                ops[-1]['args'] = [rng.randint(1, 9) for _ in range(rng.choice([1, 1, 2]))]
            ph += 1
            n += 1
            if rng.random() < 0.2:
                ops.append(gen_extra(rng))
            continue
        if r < 0.25:
            o['op'] = 'train'
        elif r < 0.37:
            o['op'] = 'stop'
        elif r < 0.6:
            o['op'] = 'exec'
        elif r < 0.72:
            o['op'] = 'inverse'
        else:
            o = gen_extra(rng)
        ops.append(o)
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            o = rng.choice(ops)
            if o['op'] in ('train', 'exec', 'stop'):
                o['fail'] = [rng.randrange(100), rng.choice(['train', 'exec']) if o['op'] != 'stop' else 'stop']
    return {'tree': tree, 'd': d, 'ops': ops, 'dtype': rng.choice([None, None, 'd', 'f']) if rng.random() < 0.3 else None,
            'sched': {'trace': []}}


def gen_extra(rng):
    k = rng.choice(['copy', 'copy', 'save', 'crash', 'set', 'set', 'set'])
    o = {'op': k, 's': rng.randrange(10000)}
    if k == 'copy':
        o['keep'] = rng.choice(['copy', 'orig'])
    elif k == 'save':
        o['fault'] = rng.random() < 0.3
        o['protocol'] = rng.choice([0, 1, 2, -1])
    elif k == 'set':
        o['attr'] = rng.choice(['input_dim', 'output_dim', 'dtype'])
        o['v'] = rng.choice([1, 2, 3, 4, 5, 6, 8]) if o['attr'] != 'dtype' else rng.choice(['d', 'd', 'f', 'f', 'i', 'D'])
        o['same'] = rng.random() < 0.3
    return o


# ---------------------------------------------------------------- reference

def stack(parts):
    """Joined columns with a fixed memory layout (which matters for rounding)."""
    return np.ascontiguousarray(np.hstack(parts))


class Refused(Exception):
    pass


class R(object):
    """What a container is expected to do, in terms of its nodes."""

    def __init__(self, kind, kids=(), node=None, n=1):
        self.kind, self.kids, self.node, self.n = kind, list(kids), node, n
        self.begin()

    def begin(self):
        """Count the phases which are left."""
        self.phase = 0
        self.started = False
        if self.kind == 'leaf':
            return
        left = [k.remaining() for k in self.kids]
        self.total = sum(left) if self.kind == 'FlowNode' else max(left)

    def remaining(self):
        if self.kind == 'leaf':
            return self.node.get_remaining_train_phase() if self.node.is_training() else 0
        return self.total - self.phase

    def current(self):
        if self.kind == 'leaf':
            return self.node.get_current_train_phase()
        return self.phase if self.total else -1

    def training(self):
        return self.remaining() > 0

    def trainable(self):
        return self.node.is_trainable() if self.kind == 'leaf' else self.total > 0

    def invertible(self):
        if self.kind == 'leaf':
            return self.node.is_invertible()
        return self.kind != 'SameInputLayer' and all(k.invertible() for k in self.kids)

    def indim(self):
        if self.kind == 'leaf':
            return self.node.input_dim
        if self.kind == 'CloneLayer':
            return self.kids[0].indim() * self.n
        if self.kind == 'Layer':
            return sum(k.indim() for k in self.kids)
        return self.kids[0].indim()

    def outdim(self):
        if self.kind == 'leaf':
            return self.node.output_dim
        if self.kind == 'FlowNode':
            return self.kids[-1].outdim()
        o = [k.outdim() for k in self.kids]
        if None in o:
            return None
        return sum(o) * (self.n if self.kind == 'CloneLayer' else 1)

    def parts(self, x, out=False):
        """[(kid, columns)]"""
        if self.kind == 'SameInputLayer':
            return [(k, x) for k in self.kids]
        if self.kind == 'CloneLayer':
            kids = self.kids * self.n
        else:
            kids = self.kids
        res, a = [], 0
        for k in kids:
            b = a + (k.outdim() if out else k.indim())
            res.append((k, x[:, a:b]))
            a = b
        return res

    def train(self, x, *args):
        if self.kind == 'leaf':
            return self.node.train(x, *args)
        if not self.training():
            raise Refused('not trainable or finished')
        if self.indim() is not None and x.shape[1] != self.indim():
            raise Refused('dimension')
        self.check_args(x, *args)
        self.started = True
        if self.kind == 'FlowNode':
            i = [j for j, k in enumerate(self.kids) if k.training()][0]
            for k in self.kids[:i]:
                x = k.execute(x)
            self.kids[i].train(x, *args)
            return
        for k, y in self.parts(x):
            if k.training():
                k.train(y, *args)

    def check_args(self, x, *args):
        """Arguments are checked for all nodes before any of them is trained."""
        if self.kind == 'leaf':
            self.node._check_train_args(x, *args)
        elif self.kind != 'FlowNode':
            for k, y in self.parts(x):
                if k.training():
                    k.check_args(y, *args)

    def stop(self, *args):
        if self.kind == 'leaf':
            return self.node.stop_training(*args)
        if not self.training() or not self.started:
            raise Refused('finished or not started')
        if self.kind == 'FlowNode':
            [k for k in self.kids if k.training()][0].stop(*args)
        else:
            for k in self.kids:
                if k.training():
                    k.stop(*args)
        self.phase += 1
        self.started = False

    def close(self):
        if self.training():
            if self.remaining() > 1:
                raise Refused('phases left')
            self.stop()

    def execute(self, x):
        if self.kind == 'leaf':
            return self.node.execute(x)
        if self.current() == 0 and not self.started:
            while True:
                self.train(x)
                if self.remaining() <= 1:
                    break
                self.stop()
        if self.indim() is not None and x.shape[1] != self.indim():
            raise Refused('dimension')
        self.close()
        if self.kind == 'FlowNode':
            for k in self.kids:
                x = k.execute(x)
            return x
        return stack([k.execute(y) for k, y in self.parts(x)])

    def inverse(self, y):
        if self.kind == 'leaf':
            return self.node.inverse(y)
        if not self.invertible():
            raise Refused('not invertible')
        if self.outdim() is not None and y.shape[1] != self.outdim():
            raise Refused('dimension')
        self.close()
        if self.outdim() is not None and y.shape[1] != self.outdim():
            raise Refused('dimension')
        if self.kind == 'FlowNode':
            for k in self.kids[::-1]:
                y = k.inverse(y)
            return y
        return stack([k.inverse(x) for k, x in self.parts(y, True)])

    def leaves(self):
        if self.kind == 'leaf':
            return [self.node]
        return [n for k in self.kids for n in k.leaves()]


def build(spec):
    """A single node with the phases which were completed before it entered a container."""
    n = catalog.make({'t': spec['t'], 'p': spec['p']})
    if spec.get('pre') is not None:
        rs = np.random.RandomState(n.input_dim)
        np.random.seed(4)
        for _ in range(spec['pre']):
            n.train(catalog.ints(rs, 30, n.input_dim))
            n.stop_training()
        if spec.get('open'):
            n.train(catalog.ints(rs, 10, n.input_dim))
    return n


def make_pair(spec):
    """(container, reference); containers with 'pre' are trained before they are put into the next one."""
    t = spec['t']
    if t not in CONT:
        return build(spec), R('leaf', node=build(spec))
    pairs = [make_pair(s) for s in (spec.get('nodes') or [spec['node']])]
    nodes = [p[0] for p in pairs]
    r = R(t, [p[1] for p in pairs], n=spec.get('n', 1))
    if t == 'CloneLayer':
        n = hinet.CloneLayer(nodes[0], n_nodes=spec['n'])
    elif t == 'FlowNode':
        n = hinet.FlowNode(mdp.Flow(nodes))
    else:
        n = getattr(hinet, t)(nodes)
    if spec.get('pre') and n.input_dim is not None and catalog.spec_args(spec) is None:
        rs = np.random.RandomState(n.input_dim)
        for _ in range(spec['pre']):
            if not n.is_training():
                break
            x = catalog.ints(rs, 30, n.input_dim)
            for o, m in ((n, 'stop_training'), (r, 'stop')):
                np.random.seed(3)
                o.train(x)
                getattr(o, m)()
    return n, r


# ---------------------------------------------------------------- run

class HRun(hist.HRun):

    def setup(self):
        self.disk = disk.Disk([], self.sim)
        try:
            self.node, self.ref = make_pair(self.case['tree'])
        except Exception as e:
            raise hist.Skip('construction: %s %s' % (type(e).__name__, str(e)[:60]))
        self.d = self.case['d']
        self.saved = None
        only_v = self.only_v = all(isinstance(n, vnodes.VAcc) for n in self.ref.leaves())
        self.rtol = 1e-9 if only_v and self.case['dtype'] != 'f' else 1e-3
        if self.case['dtype'] == 'f' and not only_v:
            raise hist.Skip('rounding')
        if self.case['dtype']:
            try:
                self.node.dtype = self.case['dtype']
            except mdp.NodeException:
                raise hist.Skip('dtype')
            for a, b in self.pairs():
                b._dtype = a._dtype

    def pairs(self):
        return list(zip(catalog.leaves(self.node), self.ref.leaves()))

    def containers(self, node=None, r=None):
        """(container, reference) pairs, outer ones first."""
        node = self.node if node is None else node
        r = self.ref if r is None else r
        res = [(node, r)]
        if r.kind == 'CloneLayer':
            res += self.containers(node.node, r.kids[0])
        elif r.kind != 'leaf':
            for a, b in zip(list(node), r.kids):
                res += self.containers(a, b)
        return res

    def scenario(self, sim):
        self.check('construction')
        with self.disk:
            for i, op in enumerate(self.case['ops']):
                if self.res.violations:
                    return
                self.where = 'op %d (%s)' % (i, op['op'])
                getattr(self, 'op_' + op['op'])(op)
                if self.res.violations:
                    return
                self.check(self.where)

    # -- both sides
    def both(self, f, g, op):
        """Call both sides with the same random numbers and failures."""
        armed = []
        if op.get('fail'):
            k, what = op['fail']
            ps = [p for p in self.pairs() if isinstance(p[0], vnodes.VAcc)]
            if what == 'stop' and any(r.kind in ('Layer', 'SameInputLayer') for _, r in self.containers()):
                # a stop failing in the middle of a layer is not repeatable
                ps = []
            if ps:
                a, b = ps[k % len(ps)]
                a.plan, b.plan = [[what, None]], [[what, None]]
                armed = [a, b]
        outs = []
        for h in (f, g):
            if h is g:
                # containers tell their nodes the dimensions of the other ones
                self.sync_dims()
            np.random.seed(op['s'])
            try:
                outs.append((True, h()))
            except vnodes.NodeFailure as e:
                outs.append((False, e))
                if h is g:
                    self.sim.count('fault:node-fails')
            except Exception as e:
                outs.append((False, e))
        for n in armed:
            n.plan = []
        (ok, out), (rok, rout) = outs
        self.log(op['op'], ok, rok)
        if any('igenvalue' in str(o) or 'ingular' in str(o) for k, o in outs if not k):
            raise hist.Skip('numerics')
        if ok != rok:
            if isinstance(out, ValueError) and 'dimensions mismatch' in str(out):
                raise hist.Skip('dimensions')
            self.violate('refused' if rok else 'not-refused', '%s: %s, the nodes: %s' % (
                self.where, 'done' if ok else '%s: %s' % (type(out).__name__, str(out)[-200:]),
                'done' if rok else '%s: %s' % (type(rout).__name__, str(rout)[-200:])))
            return None
        if not ok:
            self.res.count('refusals')
            return None
        return out, rout

    def sensitive(self):
        """Did a node get data for which rounding decides the result?"""
        if sum(type(a).__name__ == 'FANode' for a, b in self.pairs()) > 1:
            # a factor analysis of (functions of) factors: degenerate
            return True
        for a, b in self.pairs():
            for n in (a, b):
                sf = getattr(n, 'sf', None)
                if sf is not None and np.abs(sf).max() > 30:
                    return True
                if any(isinstance(v, np.ndarray) and v.dtype.kind in 'fc' and not np.isfinite(v).all()
                       for v in vars(n).values()):
                    return True
                d = getattr(n, 'd', None)
                if d is None or not np.size(d):
                    continue
                d = np.sort(np.abs(np.ravel(np.real(d))))
                if not d[-1] or not np.isfinite(d).all() or d[0] < 1e-7 * d[-1] or \
                        (np.diff(d) < 1e-6 * d[-1]).any():
                    return True
        return False

    def data(self, op, dim):
        rs = np.random.RandomState(op['s'])
        x = catalog.ints(rs, op['n'], dim)
        if self.case['dtype'] == 'f':
            x = x.astype('f')
        return rs, x

    def op_train(self, op):
        rs, x = self.data(op, self.d)
        args = catalog.make_args(rs, x, catalog.spec_args(self.case['tree']))
        self.both(lambda: self.node.train(x.copy(), *args), lambda: self.ref.train(x.copy(), *args), op)

    def op_stop(self, op):
        # arguments are for the nodes whose phase is closed
        a = op.get('args', [])
        self.both(lambda: self.node.stop_training(*a), lambda: self.ref.stop(*a), op)

    def op_exec(self, op):
        rs, x = self.data(op, self.d)
        out = self.both(lambda: self.node.execute(x.copy()), lambda: self.ref.execute(x.copy()), op)
        if out is not None:
            self.res.count('executed')
            self.same_array('result-differs', *out)

    def op_inverse(self, op):
        dim = self.ref.outdim() or 2
        rs, y = self.data(op, dim)
        out = self.both(lambda: self.node.inverse(y.copy()), lambda: self.ref.inverse(y.copy()), op)
        if out is not None:
            self.res.count('inverted')
            self.same_array('result-differs', *out)

    def same_array(self, cls, a, b):
        a, b = np.asarray(a), np.asarray(b)
        d = compare.diff(a.astype('D') if a.dtype.kind == 'c' else a, b, rtol=self.rtol, sign=False)
        if d:
            if self.sensitive():
                raise hist.Skip('numerics')
            self.violate(cls, '%s: %s' % (self.where, d))

    # -- copies
    def op_copy(self, op):
        np.random.seed(op['s'])
        other = self.node.copy()
        ref2 = copy.deepcopy(self.ref)
        a, b = catalog.leaves(self.node), catalog.leaves(other)
        if len(a) != len(b) or set(map(id, a)) & set(map(id, b)):
            self.violate('copy-shares', '%s: nodes of the copy are those of the original' % self.where)
            return
        if op['keep'] == 'copy':
            self.node, other = other, self.node
        self.others = getattr(self, 'others', [])
        self.others.append((other, ref2))
        self.log('copy', op['keep'])

    def op_save(self, op):
        path = self.disk.path('node.pic')
        np.random.seed(op['s'])
        if op['fault']:
            self.disk.faults = [{'op': 'write', 'nth': 0, 'how': 'error', 'errno': 28}]
            self.disk.n = {}
            n = len(self.disk.fired)
        ok = True
        try:
            self.node.save(path, protocol=op['protocol'])
        except Exception as e:
            ok = False
            if not op['fault'] or not isinstance(e, OSError):
                self.violate('not-saved', '%s: %r' % (self.where, e))
                return
        self.disk.faults = []
        if op['fault'] and len(self.disk.fired) > n:
            if ok:
                self.violate('save-failure-hidden', '%s: the disk failed' % self.where)
            self.saved = None
        elif ok:
            self.saved = copy.deepcopy(self.ref)
            self.res.count('saved')

    def op_crash(self, op):
        """The process dies, another one continues with the saved container."""
        if self.saved is None:
            return
        self.sim.count('fault:crash')
        with open(self.disk.path('node.pic'), 'rb') as f:
            self.node = pickle.load(f)
        self.ref = copy.deepcopy(self.saved)
        self.others = []

    # -- assignments
    def op_set(self, op):
        node, r = self.node, self.ref
        attr = op['attr']
        if attr == 'output_dim' and r.indim() is None:
            # which dimensions are possible is not known yet
            return
        cur = getattr(node, attr)
        v = cur if op['same'] and cur is not None else op['v']
        if v == 'f' and cur is None and not self.only_v:
            return
        before = compare.snapshot(self.node)
        try:
            setattr(node, attr, v)
            ok = True
        except Exception as e:
            ok = False
            if not isinstance(e, (mdp.NodeException, ValueError)):
                self.violate('assignment', '%s: %s = %r raises %r' % (self.where, attr, v, e))
                return
        same = cur is not None and (v == cur if attr != 'dtype' else np.dtype(v) == cur)
        self.log('set', attr, str(v), ok)
        self.res.count('set:%s:%s' % (attr, ok))
        what = '%s: assigning %s = %s (was %s) to a %s' % (self.where, attr, v, cur, r.kind)
        if same and not ok:
            self.violate('assignment', what + ' is refused')
        elif cur is not None and not same and ok:
            self.violate('assignment', what + ' is accepted')
        elif not ok:
            d = compare.diff(before, compare.snapshot(self.node), sign=False)
            if d:
                self.violate('assignment', what + ' is refused but changes %s' % d)
        else:
            now = getattr(node, attr)
            if now != (v if attr != 'dtype' else np.dtype(v)):
                self.violate('assignment', what + ' gives %s' % now)
            # the nodes may have been given dimensions by this
            self.sync_dims(('input_dim', 'output_dim', 'dtype'), True)

    def sync_dims(self, keys=('input_dim', 'output_dim'), force=False):
        for a, b in self.pairs():
            for k in keys:
                if k == 'output_dim' and b.is_training() and not force:
                    continue
                if getattr(b, k) is None and getattr(a, k) is not None:
                    setattr(b, k, getattr(a, k))

    # -- invariants
    def check(self, where):
        self.check_pair(where, self.node, self.ref)
        for n, r in getattr(self, 'others', []):
            if not self.res.violations:
                self.check_pair(where + ', other copy', n, r)

    def check_pair(self, where, node, ref):
        v = self.violate
        for c, r in self.containers(node, ref):
            if r.kind == 'leaf':
                d = compare.diff(c, r.node, rtol=self.rtol, sign=False, lazy=compare.LAZY)
                if d:
                    if 'arrays differ' in d and self.sensitive():
                        raise hist.Skip('numerics')
                    v('nodes-differ', '%s: %s' % (where, d))
                    return
                continue
            got = [c.is_trainable(), c.is_training(), c.is_invertible(), c.get_current_train_phase() if c.is_trainable()
                   else -1, c.get_remaining_train_phase() if c.is_training() else 0]
            want = [r.trainable(), r.training(), r.invertible(), r.current(), r.remaining()]
            if got != want:
                v('phases', '%s: %s has trainable, training, invertible, phase, phases left %s, expected %s' % (
                    where, r.kind, got, want))
                return
            kids = list(c)
            if len(c) != len(kids) or any(k not in c for k in kids) or c[0] is not kids[0] or c[-1] is not kids[-1]:
                v('container', '%s: inconsistent sequence methods' % where)
                return
            if r.kind == 'CloneLayer':
                if len(kids) != r.n or any(k is not c.node for k in kids):
                    v('clone', '%s: a clone layer has different nodes' % where)
                    return
            elif len(kids) != len(r.kids):
                v('container', '%s: length' % where)
                return
            bad = self.dims(c, r, kids)
            if bad:
                v('dimensions', '%s: %s' % (where, bad))
                return

    def dims(self, c, r, kids):
        ind = [k.input_dim for k in kids]
        outd = [k.output_dim for k in kids]
        if r.kind == 'FlowNode':
            i, o = ind[0], outd[-1]
        else:
            i = ind[0] if r.kind == 'SameInputLayer' else sum(ind)
            o = sum(outd) if None not in outd else None
        if c.input_dim is not None and i is not None and c.input_dim != i:
            return 'a %s has input_dim %s, its nodes %s' % (r.kind, c.input_dim, ind)
        if c.output_dim is not None and o is not None and c.output_dim != o:
            return 'a %s has output_dim %s, its nodes %s' % (r.kind, c.output_dim, outd)
        if c.input_dim is not None and i is None or c.output_dim is not None and o is None:
            return 'a %s has dimensions %s, %s which its nodes do not have' % (r.kind, c.input_dim, c.output_dim)
        if c.dtype is not None and any(k.dtype is not None and k.dtype != c.dtype for k in kids):
            return 'a %s has dtype %s, its nodes %s' % (r.kind, c.dtype, [k.dtype for k in kids])
        return None


def run(case):
    return hist.run_hist(case, HRun)


def simplify(case):
    t = case['tree']
    for s in shrink_tree(t):
        yield dict(case, tree=s)
    if case['dtype']:
        yield dict(case, dtype=None)
    for i, o in enumerate(case['ops']):
        if o.get('fail'):
            yield dict(case, ops=case['ops'][:i] + [dict((k, v) for k, v in o.items() if k != 'fail')] +
                       case['ops'][i + 1:])
        if o.get('n', 0) > 2:
            yield dict(case, ops=case['ops'][:i] + [dict(o, n=o['n'] // 2)] + case['ops'][i + 1:])


def shrink_tree(t):
    if t.get('pre') is not None:
        yield dict((k, v) for k, v in t.items() if k not in ('pre', 'open'))
    if t['t'] == 'FlowNode' and len(t['nodes']) > 1:
        for i in range(len(t['nodes'])):
            yield dict(t, nodes=t['nodes'][:i] + t['nodes'][i + 1:])
    if t['t'] == 'SameInputLayer' and len(t['nodes']) > 1:
        for i in range(len(t['nodes'])):
            yield dict(t, nodes=t['nodes'][:i] + t['nodes'][i + 1:])
    for i, s in enumerate(t.get('nodes', [])):
        if s['t'] == 'FlowNode' and len(s['nodes']) == 1:
            yield dict(t, nodes=t['nodes'][:i] + [s['nodes'][0]] + t['nodes'][i + 1:])
        for u in shrink_tree(s):
            yield dict(t, nodes=t['nodes'][:i] + [u] + t['nodes'][i + 1:])
    if 'node' in t:
        for u in shrink_tree(t['node']):
            yield dict(t, node=u)
    p = t.get('p') or {}
    if p.get('phases', 1) > 1:
        yield dict(t, p=dict(p, phases=p['phases'] - 1))
