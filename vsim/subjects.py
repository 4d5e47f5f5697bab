"""A wide range of node classes with suitable parameters, data and operations.

An operation is a JSON list:
    ['train', seed, rows]      train with random data of this seed
    ['stop']                   stop_training
    ['exec', seed, rows]       execute
    ['inv', seed, rows]        invert
    ['sub', i, op]             operation on the i-th element of a flow
    ['ftrain', k]              train a flow (k: variation of the data)
"""
import random

import numpy as np

import mdp
import mdp.hinet as hinet
import mdp.nodes as mn

from . import catalog, compare, vnodes


def f_id(x):
    return x


def vnoise(a, b, size):
    # the default function is a bound method of the global generator, which is copied together with the node
    return np.random.normal(a, b, size)


def f_sq(x):
    return x ** 2


# name: (parameters(rng, d), properties)
#   args: as in catalog;  inv: invertible;  min: minimal chunk;  total: needed number of samples
#   online: OnlineNode;  slow: expensive;  labels: extra column data
EXTRA = {
    'TimeDelayNode': (lambda r, d: {'time_frames': 2, 'gap': r.choice([1, 2])}, dict(untrainable=1)),
    'TimeDelaySlidingWindowNode': (lambda r, d: {'time_frames': 2}, dict(untrainable=1, state=1, one=1)),
    'NormalNoiseNode': (lambda r, d: {'noise_args': (0, 0.5)}, dict(untrainable=1, rnd=1)),
    'NoiseNode': (lambda r, d: {'noise_type': r.choice(['additive', 'multiplicative']), 'noise_func': 'vnoise'},
                  dict(untrainable=1, rnd=1)),
    'RecursiveExpansionNode': (lambda r, d: {'degree': 2}, dict(untrainable=1)),
    'RBMWithLabelsNode': (lambda r, d: {'hidden_dim': 2, 'labels_dim': 2, 'visible_dim': d},
                          dict(rnd=1, args='onehot', noexec=1)),
    'NeuralGasNode': (lambda r, d: {'num_nodes': 3, 'max_epochs': 3}, dict(rnd=1)),
    'GrowingNeuralGasNode': (lambda r, d: {'max_nodes': 6, 'lambda_': 5}, dict(rnd=1)),
    'LLENode': (lambda r, d: {'k': 4, 'output_dim': 1}, dict(total=20)),
    'GSFANode': (lambda r, d: {'output_dim': 1, 'train_mode': 'regular'}, dict(min=3)),
    'iGSFANode': (lambda r, d: {}, dict(min=8)),
    'LibSVMClassifier': (lambda r, d: {'kernel': 'LINEAR', 'classifier': 'C_SVC'}, dict(args='label', cls=1)),
    'CCIPCANode': (lambda r, d: {'output_dim': r.randint(1, d)}, dict(online=1, inv=1, rnd=1)),
    'CCIPCAWhiteningNode': (lambda r, d: {'output_dim': r.randint(1, d)}, dict(online=1, inv=1, rnd=1)),
    'MCANode': (lambda r, d: {'output_dim': r.randint(1, d)}, dict(online=1, inv=1, rnd=1)),
    'IncSFANode': (lambda r, d: {'output_dim': 1, 'whitening_output_dim': r.randint(1, d)}, dict(online=1, rnd=1)),
    'OnlineCenteringNode': (lambda r, d: {'avg_n': r.choice([None, 3])}, dict(online=1, inv=1)),
    'OnlineTimeDiffNode': (lambda r, d: {}, dict(online=1)),
    'PCAScikitsLearnNode': (lambda r, d: {}, dict(noid=1)),
    'StandardScalerScikitsLearnNode': (lambda r, d: {}, dict(noid=1)),
    'GaussianNBScikitsLearnNode': (lambda r, d: {}, dict(args='label', cls=1)),
    'RandomForestClassifierScikitsLearnNode': (lambda r, d: {'n_estimators': 2}, dict(args='label', cls=1, rnd=1)),
}
CORE = ['PCANode', 'WhiteningNode', 'NIPALSNode', 'SFANode', 'SFA2Node', 'VartimeSFANode', 'FDANode',
        'HistogramNode', 'AdaptiveCutoffNode', 'GaussianClassifier', 'NearestMeanClassifier', 'KNNClassifier',
        'EtaComputerNode', 'LinearRegressionNode', 'CuBICANode', 'JADENode', 'FANode',
        'PolynomialExpansionNode', 'QuadraticExpansionNode', 'IdentityNode', 'CutoffNode', 'NormalizeNode',
        'HitParadeNode', 'KMeansClassifier', 'RBMNode', 'PerceptronClassifier', 'SignumClassifier',
        'TimeFramesNode', 'TDSEPNode', 'ISFANode', 'XSFANode', 'FastICANode', 'VAcc', 'VCount', 'VBi']
ALL = CORE + sorted(EXTRA)


def info(t):
    d = catalog.info(t)
    d.update(dict(online=0, noexec=0, total=0, state=0))
    if t in EXTRA:
        d.update(EXTRA[t][1])
    if t[0] == 'V' and t[1].isupper():
        d['untrainable'] = t in ('VCount', 'VPlain')
        d['inv'] = 1
    return d


def gen_node(rng, pool=None, d=None):
    """Return (spec, input dim)."""
    t = rng.choice(pool or ALL)
    d = d or rng.choice([2, 3, 4])
    if t in EXTRA:
        p = EXTRA[t][0](rng, d)
        if t not in ('RBMWithLabelsNode', 'RecursiveExpansionNode') and rng.random() < 0.8:
            p['input_dim'] = d
        if t == 'iGSFANode':
            d = p['input_dim'] = 4
            p['output_dim'] = 2
        s = {'t': t, 'p': p}
    else:
        s, _ = catalog.rand_node(rng, d, [t])
        if rng.random() < 0.2 and 'input_dim' in s['p'] and t != 'VBi':
            del s['p']['input_dim']
        if t == 'VBi':
            s['p'].pop('nargs', None)
            s['p']['node_id'] = 'n'
    if info(t)['online']:
        s['rng'] = rng.randrange(10000)
    if rng.random() < 0.15 and 'dtype' not in s['p'] and t not in (
            'LibSVMClassifier', 'RBMNode', 'RBMWithLabelsNode', 'GSFANode', 'iGSFANode', 'LLENode', 'JADENode', 'CuBICANode', 'TDSEPNode',
            'FastICANode', 'ISFANode', 'XSFANode', 'NIPALSNode'):
        s['p']['dtype'] = rng.choice(['d', 'd', 'f'])
    return s, d


def spec_args(s):
    t = s['t']
    if t in EXTRA:
        return info(t)['args']
    return catalog.spec_args(s)


def make_args(rs, x, kind):
    if kind == 'onehot':
        lab = rs.randint(0, 2, size=len(x))
        return (np.eye(2)[lab],)
    return catalog.make_args(rs, x, kind)


def data(op, d, binary=False):
    rs = np.random.RandomState(op[1])
    x = catalog.ints(rs, op[2], d)
    if binary:
        x = (x > 0).astype('d')
    return rs, x


def run_op(obj, op, spec, d):
    """Apply one operation; return ('ok', value) or ('error', class name)."""
    random.seed(op[1] if len(op) > 1 and isinstance(op[1], int) else 7)
    np.random.seed((op[1] if len(op) > 1 and isinstance(op[1], int) else 7) % (2 ** 31))
    try:
        return ('ok', _run_op(obj, op, spec, d))
    except (MemoryError, AssertionError, Exception) as e:
        return ('error', type(e).__name__, str(e)[:200])


def _run_op(obj, op, spec, d):
    kind = op[0]
    if kind == 'sub':
        node = obj[op[1] % len(obj)]
        sd = node.input_dim or d
        return _run_op(node, op[2], None, sd)
    if kind == 'stop':
        obj.stop_training()
        return None
    if kind == 'inv':
        od = obj[-1].output_dim if isinstance(obj, mdp.Flow) else obj.output_dim
        _, y = data(op, od or d)
        return obj.inverse(y)
    binary = spec is not None and spec['t'].startswith('RBM')
    rs, x = data(op, d, binary)
    if kind == 'exec':
        if binary and spec['t'] == 'RBMWithLabelsNode':
            return obj.execute(x, *make_args(rs, x, 'onehot'))
        return obj.execute(x)
    if kind == 'train':
        a = spec_args(spec) if spec is not None else catalog.args_of(obj)
        obj.train(x, *make_args(rs, x, a))
        return None
    raise ValueError(kind)


def canonical(rng, spec, d, trainable=True, phases=1, big=False):
    """A sensible sequence of operations: training phases, then execution."""
    t = spec['t'] if spec else None
    inf = info(t) if t else dict(min=3, total=0, inv=1)
    ops = []
    lo = max(inf['min'], 1)
    if trainable:
        for p in range(phases):
            n = rng.randint(1, 4)
            for k in range(n):
                rows = rng.randint(lo + 2, lo + 25) + (inf['total'] if k == 0 else 0)
                if k == 0:
                    rows += 20
                ops.append(['train', rng.randrange(10 ** 6), rows])
            ops.append(['stop'])
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if x < 0.7 or not inf['inv']:
            ops.append(['exec', rng.randrange(10 ** 6), 1 if inf.get('one') else rng.randint(max(lo, 3), 20)])
        else:
            ops.append(['inv', rng.randrange(10 ** 6), rng.randint(1, 10)])
    return ops
