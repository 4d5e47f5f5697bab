"""R01: random numbers."""
import copy
import pickle
import random
import threading

import numpy as np

import mdp
import mdp.nodes as mn

from vsim import catalog, compare, core, disk, subjects, vnodes
from . import hist, pflow_common as pc, sched_common as sc
from .hist import HRun, Skip

RUNS = {'quick': 3000, 'thorough': 100000}
RULE = ('1-4 nodes with interleaved training, closing, execution and inversion.  Mode "global": everything is run '
        'twice from the same seed of the generator of the package, the second time in another environment (other '
        'state of the random module, clock jumps, unrelated nodes constructed and deterministic nodes executed in '
        'between, copies, failing saves, a concurrent thread which does not draw).  Mode "own": nodes with their own '
        'generators, alone versus together in one or several threads with consumers which draw from, reseed and '
        'fail on the global generator; crash and reload in between.  distinct: workload or event log differs')
COMPONENTS = {'real': ['node classes', 'OnlineNode generators', 'numpy generators', 'pickle'],
              'simulated': ['threads (every source line of mdp can be a switch)', 'clock', 'disk', 'crash']}
ASSUMPTIONS = ['concurrent threads which draw from the same generator get its numbers in the order of the schedule; '
               'this is not required to be repeatable',
               'online nodes without a given generator are seeded at random (documented)']
SHRINK = ['env']

RND = ['FANode', 'KMeansClassifier', 'RBMNode', 'RBMWithLabelsNode', 'NeuralGasNode', 'GrowingNeuralGasNode',
       'FastICANode', 'FastICANode', 'NoiseNode', 'NormalNoiseNode', 'PerceptronClassifier', 'ISFANode',
       'RandomForestClassifierScikitsLearnNode', 'HistogramNode', 'generate', 'sample', 'rot']
OWN = ['CCIPCANode', 'CCIPCAWhiteningNode', 'MCANode', 'IncSFANode', 'OnlineCenteringNode', 'OnlineTimeDiffNode',
       'NoiseNode', 'OnlineFlowNode', 'OnlineLayer', 'SameInputOnlineLayer']
DET = [t for t in subjects.CORE if t not in ('ISFANode', 'XSFANode', 'VBi', 'TDSEPNode')
       and not t.startswith('V') and not subjects.info(t)['rnd'] and t != 'PerceptronClassifier'] + ['TimeDelayNode', 'GSFANode', 'LLENode']
# these draw during execution or inversion
DRAWING = {'NoiseNode', 'NormalNoiseNode', 'RBMNode', 'RBMWithLabelsNode', 'generate', 'sample', 'rot', 'FANode'}


def gen_track(rng, pool):
    t = rng.choice(pool)
    if t in ('generate', 'sample', 'rot'):
        d = rng.choice([2, 3])
        ops = [['train', rng.randrange(10 ** 6), 30], ['stop']] if t != 'rot' else []
        ops += [['call', rng.randint(2, 5)] for _ in range(rng.randint(1, 4))]
        return {'spec': {'t': t, 'p': {'input_dim': d}}, 'd': d, 'ops': ops}
    if t in ('OnlineFlowNode', 'OnlineLayer', 'SameInputOnlineLayer'):
        d = rng.choice([2, 4])
        k = d // 2 if t == 'OnlineLayer' else d
        subs = []
        for _ in range(2):
            c = rng.choice(['CCIPCANode', 'MCANode', 'OnlineCenteringNode', 'CCIPCAWhiteningNode'])
            subs.append({'t': c, 'p': {'input_dim': k, 'output_dim': k} if c != 'OnlineCenteringNode' else
                         {'input_dim': k}, 'rng': rng.randrange(10000)})
        spec = {'t': t, 'nodes': subs, 'p': {}, 'shared': rng.random() < 0.5, 'rng': rng.randrange(10000)}
    else:
        spec, d = subjects.gen_node(rng, [t])
    if t == 'HistogramNode' and pool is RND:
        spec['p']['hist_fraction'] = rng.choice([1.0, 0.5])
    if t == 'NoiseNode' and pool is OWN:
        spec['own'] = rng.randrange(10000)
        spec['p'].pop('noise_func', None)
    if t == 'FastICANode':
        spec['p'].update(max_it=50)
        if rng.random() < 0.5:
            spec['p'].update(sample_size=0.7)
        if rng.random() < 0.5:
            spec['p'].update(approach='defl')
    inf = subjects.info(t) if 'nodes' not in spec else dict(min=1, total=0, inv=0, untrainable=0)
    ops = []
    if not inf['untrainable']:
        lo = max(inf['min'], 3) + 12 + inf['total']
        for ph in range(2 if t == 'FDANode' else 1):
            for _ in range(rng.randint(1, 3)):
                ops.append(['train', rng.randrange(10 ** 6), rng.randint(lo, lo + 20)])
            if rng.random() < 0.9 or ph == 0 and t == 'FDANode':
                ops.append(['stop'])
    for _ in range(rng.randint(1, 3)):
        k = 'inv' if inf['inv'] and rng.random() < 0.3 else 'exec'
        ops.append([k, rng.randrange(10 ** 6), rng.randint(4, 12)])
    if rng.random() < 0.15:
        # refused in between
        ops.insert(rng.randrange(len(ops) + 1), ['bad', rng.randrange(10 ** 6)])
    if 'rng' in spec and pool is OWN:
        # the generator is set (or replaced) after the construction
        if rng.random() < 0.3:
            spec['late'] = True
        if rng.random() < 0.15:
            ops.insert(rng.randrange(len(ops) + 1), ['setrng', rng.randrange(10 ** 6)])
    return {'spec': spec, 'd': d, 'ops': ops}


def gen_env(rng, mode, nt):
    kinds = ['make', 'det', 'clock', 'py', 'swap', 'swap', 'savefail']
    if mode == 'own':
        kinds += ['draw', 'draw', 'reseed', 'consumer-fails', 'crash', 'global']
    k = rng.choice(kinds)
    a = [k, rng.randrange(10 ** 6)]
    if k == 'make':
        a.append(subjects.gen_node(rng, [t for t in subjects.ALL if 'Scikits' not in t])[0])
    elif k == 'det':
        s, d = subjects.gen_node(rng, DET)
        a += [s, d]
    elif k == 'clock':
        a.append(rng.choice([1e-3, 10.0, -50.0, 1e6]))
    elif k in ('swap', 'savefail', 'crash'):
        a += [rng.randrange(nt), rng.choice(['copy', 'pickle'])]
    elif k == 'global':
        a.append(gen_track(rng, RND))
    return a


def gen(rng):
    mode = rng.choice(['global', 'own'])
    tracks = [gen_track(rng, (RND if mode == 'global' else OWN) if rng.random() < 0.8 else DET)
              for _ in range(rng.choice([1, 2, 2, 3]))]
    order = [i for i, t in enumerate(tracks) for _ in t['ops']]
    rng.shuffle(order)
    env = []
    for _ in range(rng.randint(1, 6)):
        env.append([rng.randrange(len(order) + 1), gen_env(rng, mode, len(tracks))])
    threads = rng.random() < 0.4
    sched = sc.gen_sched(rng) if threads else {'trace': []}
    if threads:
        sched['lines'] = True
    return {'mode': mode, 'tracks': tracks, 'order': order, 'env': env, 'nseed': rng.randrange(10 ** 6),
            'threads': threads, 'sched': sched}


class Helper(object):
    """The sampling functions of nodes and utilities."""

    def __init__(self, t, d):
        self.t = t
        self.d = d
        self.node = mn.FANode(input_dim=d, output_dim=1, max_cycles=5) if t == 'generate' else \
            mn.RBMNode(hidden_dim=2, visible_dim=d) if t == 'sample' else None

    def copy(self):
        return copy.deepcopy(self)

    def call(self, op):
        if op[0] == 'train':
            rs, x = subjects.data(op, self.d, self.t == 'sample')
            return self.node.train(x)
        if op[0] == 'stop':
            return self.node.stop_training()
        if op[0] == 'bad':
            raise mdp.NodeException('bad')
        n = op[1]
        if self.t == 'generate':
            return self.node.generate_input(n)
        if self.t == 'sample':
            x = np.ones((n, self.d))
            return [self.node.sample_h(x), self.node.sample_v(np.ones((n, 2)))]
        return [mdp.utils.random_rot(n), mdp.utils.symrand(n)]


def build(track):
    s = track['spec']
    t = s['t']
    if t in ('generate', 'sample', 'rot'):
        return Helper(t, track['d'])
    if s.get('late'):
        # containers: the nodes have no generator of their own either
        plain = {k: v for k, v in s.items() if k not in ('late', 'rng')}
        if 'nodes' in s:
            plain['shared'] = False
            plain['nodes'] = [{k: v for k, v in x.items() if k != 'rng'} for x in s['nodes']]
        n = build(dict(track, spec=plain))
        n.set_numx_rng(np.random.RandomState(s['rng']))
        return n
    if 'nodes' in s:
        subs = [catalog.make(x) for x in s['nodes']]
        kw = {'numx_rng': np.random.RandomState(s['rng'])} if s['shared'] else {}
        if t == 'OnlineFlowNode':
            n = mdp.hinet.OnlineFlowNode(mdp.OnlineFlow(subs), **kw)
        else:
            n = getattr(mdp.hinet, t)(subs, **kw)
        return n
    if 'own' in s:
        return mn.NoiseNode(noise_func=np.random.RandomState(s['own']).normal, noise_args=(0, 1.5),
                            **{k: v for k, v in s['p'].items() if k in ('noise_type', 'input_dim', 'dtype')})
    return catalog.make(s)


def step(node, op, track):
    """('ok', value) or ('error', class)."""
    try:
        if isinstance(node, Helper):
            return ['ok', node.call(op)]
        if op[0] == 'bad':
            node.train(np.zeros((3, track['d'] + 3)))
            return ['ok', None]
        if op[0] == 'setrng':
            node.numx_rng = np.random.RandomState(op[1])
            return ['ok', None]
        s = track['spec']
        return ['ok', subjects._run_op(node, op, s if 'nodes' not in s else {'t': 'IdentityNode'}, track['d'])]
    except (MemoryError, AssertionError, Exception) as e:
        return ['error', type(e).__name__]


def generators():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:]), random.getstate()


class Run(HRun):

    def setup(self):
        self.disk = disk.Disk([], self.sim)

    def drive(self, i, j, op):
        """One operation; nodes which are not stochastic do not draw when they are executed."""
        t = self.c['tracks'][i]
        watch = op[0] in ('exec', 'inv') and t['spec']['t'] not in DRAWING and 'own' not in t['spec'] and \
            self.closed(i)
        before = generators() if watch else None
        out = step(self.nodes[i], op, t)
        if watch and not self.concurrent:
            after = generators()
            if after != before:
                self.violate('execution-draws', 'track %d op %d %s of %s draws random numbers' % (
                    i, j, op[0], t['spec']['t']))
        self.log(i, j, op[0], out[0])
        return out

    def closed(self, i):
        n = self.nodes[i]
        return isinstance(n, Helper) or not n.is_training()

    concurrent = False

    def scenario(self, sim):
        c = self.c = self.case
        with self.disk:
            if c['mode'] == 'global':
                self.run_global(sim)
            else:
                self.run_own(sim)

    def make(self):
        try:
            return [build(t) for t in self.c['tracks']]
        except Exception as e:
            raise Skip('construction %s' % type(e).__name__)

    # -- the same seed twice
    def run_global(self, sim):
        c = self.c
        with sim.paused():
            self.nodes = self.make()
            np.random.seed(c['nseed'])
            random.seed(1)
            want = self.sequence(None)
            end = np.random.get_state()[1].tobytes()
            first = self.nodes
        if self.res.violations:
            return
        self.apply_env(['py', c['nseed'] + 17])
        for k, e in c['env']:
            if e[0] == 'make':
                # unrelated nodes created before
                self.apply_env(e)
        self.nodes = self.make()
        np.random.seed(c['nseed'])
        other = None
        if c['threads']:
            other = threading.Thread(target=self.bystander, args=(c['nseed'],))
            other.start()
        self.concurrent = c['threads']
        got = self.sequence(c['env'])
        if other:
            other.join()
        self.compare(want, got, first, 'the second run from the same seed')
        if np.random.get_state()[1].tobytes() != end and not self.res.violations:
            self.violate('draws-differ', 'the generator is in another state after the second run')

    def sequence(self, env):
        pos = [0] * len(self.nodes)
        out = []
        for k, i in enumerate(self.c['order']):
            for at, e in env or ():
                if at == k:
                    self.apply_env(e)
            if pos[i] >= len(self.c['tracks'][i]['ops']):
                continue
            out.append([i, pos[i], self.drive(i, pos[i], self.c['tracks'][i]['ops'][pos[i]])])
            pos[i] += 1
            if self.res.violations:
                break
        return out

    def compare(self, want, got, nodes, what):
        if self.res.violations:
            return
        for w, g in zip(want, got):
            i, j = w[:2]
            d = compare.diff(w[2], g[2], rtol=1e-7, sign=False) if w[:2] == g[:2] else 'order'
            if d:
                self.violate('results-differ', 'op %d (%s) of %s differs in %s: %s' % (
                    j, self.c['tracks'][i]['ops'][j][0], self.c['tracks'][i]['spec']['t'], what, d))
                return
        for a, b, t in zip(nodes, self.nodes, self.c['tracks']):
            a, b = getattr(a, 'node', a) if isinstance(a, Helper) else a, b.node if isinstance(b, Helper) else b
            if a is None:
                continue
            d = compare.diff(a, b, rtol=1e-7, sign=False, lazy=compare.LAZY,
                             skip={'_numx_rng'} if 'nodes' in t['spec'] and not t['spec']['shared'] else ())
            if d:
                self.violate('nodes-differ', '%s differs in %s: %s' % (t['spec']['t'], what, d))
                return
        self.res.count('compared')

    def bystander(self, seed):
        """Works without random numbers."""
        rs = np.random.RandomState(seed)
        n = mn.SFANode(input_dim=2)
        p = mn.PCANode(input_dim=3)
        for _ in range(3):
            n.train(catalog.ints(rs, 20, 2))
            p.train(catalog.ints(rs, 20, 3))
        n.execute(catalog.ints(rs, 5, 2))
        p.execute(catalog.ints(rs, 5, 3))

    # -- own generators
    def run_own(self, sim):
        c = self.c
        n = len(c['tracks'])
        with sim.paused():
            random.seed(1)
            self.nodes = self.make()
            want = []
            for i, t in enumerate(c['tracks']):
                np.random.seed(5 + i)
                want.append([[i, j, self.drive(i, j, op)] for j, op in enumerate(t['ops'])])
            first = self.nodes
        if self.res.violations:
            return
        self.nodes = self.make()
        np.random.seed(c['nseed'])
        random.seed(c['nseed'])
        if c['threads']:
            self.concurrent = True
            got = [[] for _ in range(n)]

            def body(i):
                for j, op in enumerate(c['tracks'][i]['ops']):
                    for at, e in c['env']:
                        if e[0] in ('swap', 'crash', 'savefail') and at == j and e[2] == i:
                            with sim.paused():
                                self.apply_env(e)
                    got[i].append([i, j, self.drive(i, j, op)])

            def consumer():
                for at, e in c['env']:
                    if e[0] not in ('swap', 'crash', 'savefail'):
                        self.apply_env(e)
                    sim.yield_point('consumer')
            ts = [threading.Thread(target=body, args=(i,)) for i in range(n)] + [threading.Thread(target=consumer)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            got = [g for gs in got for g in gs]
        else:
            got = self.sequence(c['env'])
            got.sort(key=lambda g: g[:2])
        self.compare([w for ws in want for w in ws], got, first, 'company')
        if self.res.violations or any(t['spec']['t'] not in OWN and
                                      subjects.info(t['spec']['t'])['rnd'] for t in c['tracks']):
            return
        # the consumers get the same numbers as without the nodes
        state = np.random.get_state()[1].tobytes()
        np.random.seed(c['nseed'])
        random.seed(c['nseed'])
        order = c['env']
        if not c['threads']:
            order = sorted(c['env'], key=lambda e: e[0])
            order = [e for e in order if e[0] < len(c['order'])]
        with sim.paused():
            for at, e in order:
                if e[0] not in ('swap', 'crash', 'savefail'):
                    self.apply_env(e)
        if np.random.get_state()[1].tobytes() != state:
            self.violate('draws', 'nodes with their own generators draw from the global one')

    # -- the environment
    def apply_env(self, e):
        k, s = e[:2]
        sim = self.sim
        self.res.count('env:' + k)
        if k == 'make':
            try:
                catalog.make(e[2])
            except Exception:
                pass
        elif k == 'det':
            self.deterministic(e)
        elif k == 'clock':
            sim.clock_off += e[2]
            sim.count('fault:clock-jump')
        elif k == 'py':
            random.seed(s)
        elif k in ('swap', 'crash'):
            i = e[2]
            n = self.nodes[i]
            before = generators()
            if k == 'crash':
                sim.count('fault:crash')
            if e[3] == 'copy' and k == 'swap' or isinstance(n, Helper):
                self.nodes[i] = n.copy()
            else:
                self.nodes[i] = pickle.loads(pickle.dumps(n))
            if generators() != before and not self.concurrent:
                self.violate('copy-draws', 'copying draws random numbers')
        elif k == 'savefail':
            n = self.nodes[e[2]]
            if isinstance(n, Helper):
                return
            self.disk.faults = [{'op': 'write', 'nth': 0, 'how': 'error', 'errno': 28}]
            self.disk.n = {}
            try:
                n.save(self.disk.path('n%d' % s))
            except Exception:
                sim.count('fault:save')
            self.disk.faults = []
        elif k == 'draw':
            np.random.normal(size=s % 7 + 1)
        elif k == 'reseed':
            np.random.seed(s)
        elif k == 'consumer-fails':
            try:
                np.random.permutation(s % 5 + 3)
                sim.count('fault:consumer')
                np.random.normal(scale=-1)
            except ValueError:
                pass
        elif k == 'global':
            t = e[2]
            try:
                n = build(t)
            except Exception:
                return
            for op in t['ops']:
                step(n, op, t)

    def deterministic(self, e):
        """A node which is not stochastic gives the same for all seeds and does not draw when executed."""
        s, spec, d = e[1:4]
        t = spec['t']
        rnd = subjects.info(t)['rnd'] or t == 'PerceptronClassifier'
        outs = []
        state = np.random.get_state(), random.getstate()
        track = {'spec': spec, 'd': d}
        inf = subjects.info(t)
        with self.sim.paused():
            for run in range(2):
                try:
                    n = catalog.make(spec)
                except Exception:
                    return
                np.random.seed(s % 1000 + (0 if rnd else run))
                random.seed(s % 1000 + (0 if rnd else run))
                res = []
                if not inf['untrainable']:
                    for _ in range(2 if t == 'FDANode' else 1):
                        res.append(step(n, ['train', s, max(inf['min'], 3) + inf['total'] + 20], track))
                        res.append(step(n, ['stop'], track))
                before = generators()
                res.append(step(n, ['exec', s + 1, 5], track))
                if inf['inv'] and t != 'FANode':
                    res.append(step(n, ['inv', s + 2, 5], track))
                if generators() != before and not self.concurrent:
                    self.violate('execution-draws', 'executing or inverting %s draws random numbers' % t)
                outs.append(res)
            if not rnd:
                d = compare.diff(outs[0], outs[1], rtol=1e-7, sign=False)
                if d:
                    self.violate('seed-matters', 'the result of a %s depends on the seed: %s' % (t, d))
        np.random.set_state(state[0])
        random.setstate(state[1])


def run(case):
    tr = pc.TRACE_ALL if case['threads'] and case['sched'].get('lines', True) else ()
    res = hist.run_hist(case, Run, tr)
    for t in case['tracks']:
        res.count('class:' + t['spec']['t'])
    res.count('mode:%s%s' % (case['mode'], ' threads' if case['threads'] else ''))
    return res


def simplify(case):
    ts = case['tracks']
    if case['threads']:
        yield dict(case, threads=False, sched={'trace': []})
    if len(ts) > 1:
        for i in range(len(ts)):
            order = [k - (k > i) for k in case['order'] if k != i]
            env = [[at, e] for at, e in case['env'] if e[0] not in ('swap', 'crash', 'savefail') or e[2] != i]
            env = [[at, e if e[0] not in ('swap', 'crash', 'savefail') else e[:2] + [e[2] - (e[2] > i)] + e[3:]]
                   for at, e in env]
            yield dict(case, tracks=ts[:i] + ts[i + 1:], order=order, env=env)
    for i, t in enumerate(ts):
        for j in range(len(t['ops'])):
            yield dict(case, tracks=ts[:i] + [dict(t, ops=t['ops'][:j] + t['ops'][j + 1:])] + ts[i + 1:])
