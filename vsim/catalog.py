"""Descriptions (JSON) of nodes, their construction and suitable data."""
import random

import numpy as np

import mdp
import mdp.hinet as hinet
import mdp.nodes as mn

# name -> properties
#   args: extra training argument (label: class label(s), target: matrix)
#   fork: claims to be forkable for parallel training
#   stream: trained state does not depend on the cutting into chunks
#   min: minimal chunk length;  rows: execution works row by row
#   inv: invertible;  rnd: uses random numbers
NODES = {
    'PCANode': dict(fork=1, stream=1, inv=1),
    'WhiteningNode': dict(fork=1, stream=1, inv=1),
    'NIPALSNode': dict(fork=1, stream=1, inv=1),
    'SFANode': dict(fork=1, min=2, inv=1),
    'SFA2Node': dict(fork=1, min=2),
    'VartimeSFANode': dict(fork=1, min=2, stream=1),
    'FDANode': dict(fork=1, stream=1, args='label', phases=2),
    'HistogramNode': dict(fork=1, stream=1, inv=0),
    'AdaptiveCutoffNode': dict(fork=1, stream=1, inv=0),
    'GaussianClassifier': dict(fork=1, stream=1, args='label', cls=1, inv=0),
    'NearestMeanClassifier': dict(fork=1, stream=1, args='label', cls=1, inv=0),
    'KNNClassifier': dict(fork=1, stream=1, args='label', cls=1, inv=0),
    'EtaComputerNode': dict(min=3),
    'LinearRegressionNode': dict(stream=1, args='target'),
    'CuBICANode': dict(stream=1, inv=1),
    'JADENode': dict(stream=1, inv=1),
    'FANode': dict(stream=1, rnd=1, inv=1),
    'PolynomialExpansionNode': dict(untrainable=1),
    'QuadraticExpansionNode': dict(untrainable=1),
    'IdentityNode': dict(untrainable=1, inv=1),
    'CutoffNode': dict(untrainable=1),
    'NormalizeNode': dict(stream=1, inv=1),
    'HitParadeNode': dict(stream=1),
    'KMeansClassifier': dict(stream=1, rnd=1, cls=1),
    'RBMNode': dict(rnd=1),
    'PerceptronClassifier': dict(args='pm', cls=1),
    'SignumClassifier': dict(untrainable=1, cls=1),
    'TimeFramesNode': dict(untrainable=1, rows=0),
    'TDSEPNode': dict(inv=1),
    'ISFANode': dict(),
    'XSFANode': dict(),
    'FastICANode': dict(stream=1, rnd=1, inv=1),
}


def info(t):
    d = dict(args=None, fork=0, stream=0, min=1, rows=1, inv=0, rnd=0, phases=1, cls=0, untrainable=0)
    d.update(NODES.get(t, {}))
    return d


def make(spec):
    t = spec['t']
    p = dict(spec.get('p') or {})
    if 'rng' in spec:
        p['numx_rng'] = np.random.RandomState(spec['rng'])
    if p.get('noise_func') == 'vnoise':
        from . import subjects
        p['noise_func'] = subjects.vnoise
    if t == 'Layer':
        n = hinet.Layer([make(s) for s in spec['nodes']])
    elif t == 'SameInputLayer':
        n = hinet.SameInputLayer([make(s) for s in spec['nodes']])
    elif t == 'CloneLayer':
        n = hinet.CloneLayer(make(spec['node']), n_nodes=spec['n'])
    elif t == 'FlowNode':
        n = hinet.FlowNode(mdp.Flow([make(s) for s in spec['nodes']]))
    elif t.startswith('V') and t[1].isupper():
        from . import vnodes
        n = getattr(vnodes, t)(**p)
    else:
        n = getattr(mn, t)(**p)
    if spec.get('pre'):
        pretrain(n, spec['pre'])
        for x in leaves(n):
            x.pretrained = True
    return n


def pretrain(node, seed):
    """Train a node completely on its own random data."""
    rs = np.random.RandomState(seed)
    d = node.input_dim
    x = ints(rs, 60, d)
    kind = args_of(node)
    args = (np.arange(60) % 2,) if kind == 'label' else make_args(rs, x, kind)
    while node.is_training():
        node.train(x, *args)
        node.stop_training()


def args_of(node):
    if isinstance(node, hinet.Layer):
        return args_of(node[0])
    if isinstance(node, hinet.FlowNode):
        return None
    nargs = getattr(node, 'nargs', None)
    if nargs is not None:
        return 'num' if nargs else None
    return info(type(node).__name__)['args']


def spec_args(spec):
    t = spec['t']
    if t in ('Layer', 'SameInputLayer'):
        return spec_args(spec['nodes'][0])
    if t == 'CloneLayer':
        return spec_args(spec['node'])
    if t == 'FlowNode':
        return None
    if t[0] == 'V' and t[1].isupper():
        return 'num' if (spec.get('p') or {}).get('nargs') else None
    return info(t)['args']


def make_args(rs, x, kind):
    """Extra training arguments for the chunk x."""
    n = len(x)
    if kind is None:
        return ()
    if kind == 'num':
        return (float(rs.randint(1, 100)),)
    if kind == 'label':
        how = rs.randint(3)
        if how == 0 and n >= 6:
            return (int(rs.randint(2)),)
        lab = rs.randint(0, 2, size=n)
        lab[:2] = [0, 1][:n]
        return ([int(v) for v in lab],) if how == 1 else (lab,)
    if kind == 'pm':
        lab = rs.randint(0, 2, size=n) * 2 - 1
        return (lab,)
    if kind == 'target':
        w = np.arange(1.0, x.shape[1] + 1).reshape(-1, 1)
        return (np.dot(x, w) + rs.randint(-3, 4, size=(n, 2)),)
    raise ValueError(kind)


def ints(rs, n, d, scale=None):
    """Integer valued data with different variances, so that sums are exact."""
    x = rs.randint(-20, 21, size=(n, d)).astype('d')
    x *= 1 + np.arange(d)
    # some correlation in time and space
    if d > 1:
        x[:, 1:] += x[:, :-1]
    return x


def rand_node(rng, d, pool, phases_ok=True):
    """Return (spec, output dim) of a random node for input dim d."""
    t = rng.choice(pool)
    p = {'input_dim': d}
    out = d
    if t in ('PCANode', 'WhiteningNode', 'NIPALSNode'):
        if rng.random() < 0.7:
            out = rng.randint(1, d)
            p['output_dim'] = out
        if t != 'NIPALSNode' and rng.random() < 0.2:
            p['svd'] = True
    elif t in ('SFANode', 'SFA2Node', 'VartimeSFANode'):
        full = d + d * (d + 1) // 2 if t == 'SFA2Node' else d
        out = rng.randint(1, min(full, 6))
        p['output_dim'] = out
        if t != 'VartimeSFANode' and rng.random() < 0.4:
            p['include_last_sample'] = False
    elif t == 'FDANode':
        out = 1
        p['output_dim'] = 1
    elif t == 'AdaptiveCutoffNode':
        p['lower_cutoff_fraction'] = 0.1
        p['upper_cutoff_fraction'] = rng.choice([0.05, 0.2])
    elif t == 'KNNClassifier':
        p['k'] = rng.choice([1, 3])
    elif t == 'KMeansClassifier':
        p['num_clusters'] = 2
    elif t == 'LinearRegressionNode':
        out = 2
        p['output_dim'] = 2
    elif t in ('PolynomialExpansionNode',):
        p['degree'] = 2
        out = d + d * (d + 1) // 2
    elif t == 'QuadraticExpansionNode':
        out = d + d * (d + 1) // 2
    elif t == 'CutoffNode':
        p['lower_bound'] = -30.0
        p['upper_bound'] = 30.0
    elif t == 'HitParadeNode':
        p['n'] = 2
    elif t == 'TimeFramesNode':
        p['time_frames'] = 2
        out = 2 * d
    elif t == 'FANode':
        p['output_dim'] = out = max(1, d - 2)
        p['max_cycles'] = 5
    elif t == 'RBMNode':
        p = {'hidden_dim': 2, 'visible_dim': d}
        out = 2
    elif t[0] == 'V' and t[1].isupper():
        p['phases'] = rng.choice([1, 1, 2, 3]) if phases_ok else 1
        p['scale'] = float(rng.choice([1, 2, -1]))
        p['name'] = '%s%d' % (t, rng.randrange(1000))
        if t in ('VAcc', 'VLocal', 'VHalf') and rng.random() < 0.25:
            p['nargs'] = 1
    return {'t': t, 'p': p}, out


def rand_stage(rng, d, pool, depth=0, phases_ok=True):
    """A node, or a layer or flow node of nodes."""
    x = rng.random()
    if depth < 2 and d >= 2 and x < 0.12:
        k = rng.randint(1, d - 1)
        plain = [t for t in pool if spec_args({'t': t}) is None]
        a, oa = rand_stage(rng, k, plain or pool, depth + 1, phases_ok)
        b, ob = rand_stage(rng, d - k, plain or pool, depth + 1, phases_ok)
        strip_args(a)
        strip_args(b)
        if rng.random() < 0.2 and is_trainable_spec(a) and a['t'] != 'FlowNode':
            a['pre'] = rng.randrange(1000)
        return {'t': 'Layer', 'nodes': [a, b]}, oa + ob
    if depth < 2 and d % 2 == 0 and d >= 4 and x < 0.22:
        a, oa = rand_node(rng, d // 2, pool, phases_ok)
        return {'t': 'CloneLayer', 'node': a, 'n': 2}, oa * 2
    if depth < 2 and x < 0.28:
        plain = [t for t in pool if spec_args({'t': t}) is None]
        a, oa = rand_node(rng, d, plain or pool, phases_ok)
        b, ob = rand_node(rng, d, plain or pool, phases_ok)
        strip_args(a)
        strip_args(b)
        return {'t': 'SameInputLayer', 'nodes': [a, b]}, oa + ob
    if depth < 2 and x < 0.4:
        plain = [t for t in pool if spec_args({'t': t}) is None]
        n = rng.randint(1, 3)
        specs = []
        cd = d
        for _ in range(n):
            s, cd = rand_stage(rng, cd, plain or pool, depth + 1, phases_ok)
            strip_args(s)
            specs.append(s)
            if cd > 10:
                break
        return {'t': 'FlowNode', 'nodes': specs}, cd
    return rand_node(rng, d, pool, phases_ok)


def strip_args(spec):
    if spec.get('p'):
        spec['p'].pop('nargs', None)
    for s in spec.get('nodes', []) + ([spec['node']] if 'node' in spec else []):
        strip_args(s)


def walk(spec):
    yield spec
    for s in spec.get('nodes', []) + ([spec['node']] if 'node' in spec else []):
        for x in walk(s):
            yield x


def leaves(node):
    """All elementary nodes inside a node or flow."""
    if isinstance(node, mdp.Flow):
        subs = list(node)
    elif isinstance(node, hinet.CloneLayer):
        subs = [node.node] if getattr(node, 'node', None) is not None else list(node.nodes)
    elif isinstance(node, (hinet.Layer, hinet.FlowNode)):
        subs = list(node)
    else:
        return [node]
    out = []
    for s in subs:
        out.extend(leaves(s))
    return out


def is_trainable_spec(spec):
    if spec['t'] in ('Layer', 'SameInputLayer', 'CloneLayer', 'FlowNode'):
        return any(is_trainable_spec(s) for s in
                   spec.get('nodes', []) + ([spec['node']] if 'node' in spec else []))
    if spec.get('pre'):
        return False
    if spec['t'] in ('VCount', 'VPlain'):
        return False
    return not info(spec['t'])['untrainable']
