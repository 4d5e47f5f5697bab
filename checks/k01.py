"""K01: caching never changes results."""
import hashlib
import os
import pickle
import random
import shutil

import joblib
import numpy as np

import mdp
import mdp.caching
from mdp.caching import caching_extension as ce

from vsim import catalog, compare, disk, subjects, vnodes
from . import hist, pflow_common as pc
from .hist import HRun, Skip

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('1-4 random nodes, layers or flows; histories of 4-30 operations: training, executions (repeated data, extra '
        'arguments, bad input), copies, reloads and twins of nodes, activation, deactivation and contexts of the caching '
        'extension for everything, classes or instances, failing activations, changes of the directory, truncated and '
        'deleted cache files, failing, short and lost writes and crashes; distinct: workload or event log differs')
SHRINK = ['ops', 'nodes', 'faults']
COMPONENTS = {'real': ['mdp.caching', 'mdp.extension', 'joblib', 'all node classes which execute without randomness'],
              'simulated': ['cache disk', 'process crash']}
ASSUMPTIONS = ['reference: the same history executed without caching',
               'classes which define their own public execute method are not affected by the extension',
               'served from the cache: the hidden _execute method is not called']

BASE = ['PCANode', 'WhiteningNode', 'SFANode', 'SFA2Node', 'FDANode', 'HistogramNode', 'AdaptiveCutoffNode',
        'GaussianClassifier', 'NearestMeanClassifier', 'KNNClassifier', 'EtaComputerNode', 'LinearRegressionNode',
        'CuBICANode', 'FANode', 'PolynomialExpansionNode', 'QuadraticExpansionNode', 'IdentityNode', 'CutoffNode',
        'NormalizeNode', 'HitParadeNode', 'KMeansClassifier', 'PerceptronClassifier', 'SignumClassifier',
        'TimeFramesNode', 'TimeDelayNode', 'VAcc', 'VCount']
RELATED = [('PCANode', 'WhiteningNode'), ('SFANode', 'SFA2Node'), ('PolynomialExpansionNode', 'QuadraticExpansionNode')]
NARGS = {'PCANode', 'WhiteningNode', 'SFANode', 'FDANode'}


class Stop(Exception):
    """Raised by guarded code."""


def gen(rng):
    nodes = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        x = rng.random()
        if x < 0.2:
            f = pc.gen_flow(rng, 'P01')
            nodes.append({'spec': f['specs'][0], 'd': f['d'], 'stage': 1})
        else:
            s, d = subjects.gen_node(rng, BASE)
            nodes.append({'spec': s, 'd': d})
    related = rng.random() < 0.12
    if related:
        # a class and one derived from it
        nodes = []
        for t in rng.choice(RELATED):
            s, d = subjects.gen_node(rng, [t])
            nodes.append({'spec': s, 'd': d})
    # small sets of seeds and lengths: repeated data are frequent
    seeds = [rng.randrange(10 ** 6) for _ in range(3)]
    big = rng.random() < 0.5
    k = [len(nodes)]
    past = []

    def node_ops(i=None):
        i = rng.randrange(k[0]) if i is None else i
        x = rng.random()
        if x < 0.3 and past:
            return list(rng.choice(past[-4:]))
        if x < 0.55:
            bad = rng.choice(['dim', 'rank']) if rng.random() < 0.08 else None
            past.append(['exec', i, rng.choice(seeds), rng.choice([8, 8, 9]) if big else 8, rng.choice([0, 0, 0, 1, 2]),
                         bad])
            return list(past[-1])
        if x < 0.65:
            return ['train', i, rng.choice(seeds), rng.choice([25, 30])]
        if x < 0.72:
            return ['stop', i]
        if x < 0.8:
            k[0] += 1
            return ['copy', i]
        if x < 0.86:
            k[0] += 1
            return ['reload', i]
        if x < 0.92:
            k[0] += 1
            return ['new', i]
        if x < 0.95:
            return ['flow', i, rng.randrange(k[0]), rng.choice(seeds)]
        return ['inv', i, rng.choice(seeds)]

    def scope():
        x = rng.random()
        cls = inst = None
        if related and x < 0.6:
            return [rng.randrange(2)], rng.choice([None, None, []])
        if x < 0.5:
            return None, None
        if x < 0.85 or x > 0.95:
            inst = [rng.randrange(k[0]) for _ in range(rng.randint(0, 2))]
        if x > 0.8:
            cls = [rng.randrange(k[0]) for _ in range(rng.randint(0, 2))]
        return cls, inst

    def d():
        return rng.choice([None, 'a', 'a', 'a', 'b'])

    def block(n, depth):
        out = []
        for _ in range(n):
            x = rng.random()
            if x < 0.62:
                out.append(node_ops())
            elif x < 0.70:
                c, i = scope()
                out.append(['on', d(), c, i])
            elif x < 0.75:
                out.append(['off'])
            elif x < 0.78:
                out.append(['dir', d()])
            elif x < 0.84:
                i = rng.randrange(k[0])
                out.append(['inst', i, rng.random() < 0.6])
                if rng.random() < 0.3:
                    out.append(list(out[-1]))
            elif x < 0.90 and depth < 2:
                c, i = scope()
                out.append(['ctx', d(), c, i, block(rng.randint(1, 6), depth + 1), rng.choice([0, 0, 1])])
            elif x < 0.95:
                out.append(['hurt', rng.choice(['truncate', 'empty', 'delete', 'delete', 'rmdir']), rng.random(),
                            rng.random()])
            elif x < 0.97:
                out.append(['bad', d(), rng.choice(['file', 'collide'])])
        return out
    ops = []
    # the nodes start in different states
    for i in range(len(nodes)):
        t = rng.choice([0, 1, 1, 1, 2])
        for ph in range(rng.choice([1, 1, 3]) if t else 0):
            if ph:
                ops.append(['stop', i])
            ops.append(['train', i, seeds[0], 40])
        if t == 2:
            ops.append(['stop', i])
    if rng.random() < 0.7:
        c, i = scope()
        ops.append(['on', d(), c, i])
    ops += block(rng.randint(3, 22), 0)
    faults = []
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2, 4])):
            op = rng.choice(['write', 'write', 'open', 'close', 'openr', 'read'])
            faults.append({'op': op, 'nth': rng.randrange(40 if op in ('write', 'read') else 15),
                           'how': {'write': rng.choice(['error', 'short', 'lost', 'crash']), 'read': 'error',
                                   'openr': 'error'}.get(op) or rng.choice(['error', 'error', 'crash']),
                           'cut': rng.choice([0.0, 0.3, 0.9]), 'errno': rng.choice([28, 5])})
    return {'nodes': nodes, 'ops': ops, 'faults': faults, 'nseed': rng.randrange(10 ** 6), 'sched': {'trace': []}}


COUNT = {}


def counted(f):
    def _execute(self, *args, **kwargs):
        COUNT[id(self)] = COUNT.get(id(self), 0) + 1
        return f(self, *args, **kwargs)
    _execute.counted = True
    _execute.__name__ = '_execute'
    _execute.__doc__ = f.__doc__
    return _execute


def worker_init():
    for c in all_classes(mdp.Node):
        f = c.__dict__.get('_execute')
        if f is not None and not hasattr(f, 'counted') and callable(f):
            c._execute = counted(f)


def all_classes(c):
    out = [c]
    for s in c.__subclasses__():
        out += [x for x in all_classes(s) if x not in out]
    return out


class Other(mdp.ExtensionNode, mdp.Node):
    """Another extension which changes execute."""
    extension_name = 'vsim_k01_other'

    def execute(self, x, *args, **kwargs):
        return self._non_extension_execute(x, *args, **kwargs)


class Model(object):
    """Which nodes are cached: True, False, or None if it is left open."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.active = False
        self.glob = (False, False)        # (must, may)
        self.cls = {}
        self.inst = {}

    def on(self, cls, inst):
        if not self.active:
            self.reset()
        g = cls is None and inst is None
        was = self.active
        self.active = True
        # earlier selections may be kept or not while the extension stays active
        self.cls = {c: (False if was else m) for c, m in self.cls.items()}
        self.inst = {i: (False if was else m) for i, m in self.inst.items()}
        self.glob = (g, g)
        for c in cls or ():
            self.cls[c] = True
        for i in inst or ():
            self.inst[i] = True

    def uncertain(self):
        self.glob = (False, True)

    def cached(self, i, c):
        if not self.active:
            return False
        if self.glob[0] or self.cls.get(c) or self.inst.get(i):
            return True
        if self.glob[1] or c in self.cls or i in self.inst:
            return None
        return False


class K01(HRun):
    def scenario(self, sim):
        self.disk = None
        expected = self.play(False)
        faults = self.case['faults']
        with disk.Disk(faults, sim) as d:
            self.disk = d
            with d.healthy():
                for n in 'ab':
                    os.mkdir(d.path(n))
            try:
                self.play(True, expected)
            finally:
                d.enabled = False
                mdp.caching.deactivate_caching()
                for e in list(mdp.get_active_extensions()):
                    mdp.deactivate_extension(e)
                ce._cacheobj = None
                ce._cachedir = None
                ce._memory = None

    # -- operations on nodes
    def play(self, caching, expected=None):
        case = self.case
        self.caching = caching
        self.expected = expected
        self.results = []
        self.nodes = []
        self.model = Model()
        self.dir = None
        self.known = set()
        self.hurt = False
        self.nbad = 0
        for nd in case['nodes']:
            np.random.seed(case['nseed'])
            random.seed(case['nseed'])
            self.add(nd, catalog.make(nd['spec']) if nd.get('stage') else catalog.make(nd['spec']))
        self.block(case['ops'])
        return self.results

    def add(self, nd, obj):
        self.nodes.append((nd, obj))

    def block(self, ops):
        for op in ops:
            if self.res.violations:
                return
            self.op(op)

    def op(self, op):
        kind = op[0]
        if kind in ('exec', 'train', 'stop', 'copy', 'reload', 'new', 'flow', 'inv'):
            self.node_op(op)
        elif kind == 'ctx' and not self.caching:
            try:
                self.block(op[4])
            except Stop:
                pass
        elif self.caching:
            getattr(self, 'do_' + kind)(*op[1:])

    def node_op(self, op):
        if not self.nodes:
            return
        kind, i = op[0], op[1] % len(self.nodes)
        nd, node = self.nodes[i]
        if kind == 'copy':
            self.add(nd, node.copy())
            return
        if kind == 'reload':
            self.add(nd, pickle.loads(pickle.dumps(node)))
            return
        if kind == 'new':
            np.random.seed(self.case['nseed'])
            random.seed(self.case['nseed'])
            self.add(nd, catalog.make(nd['spec']))
            return
        seed = op[3] if kind == 'flow' else op[2] if len(op) > 2 else 7
        rs = np.random.RandomState(seed)
        x = catalog.ints(rs, op[3] if kind in ('train', 'exec') else 8, nd['d'])
        args = ()
        call = None
        if kind == 'train':
            a = catalog.args_of(node) if nd.get('stage') else subjects.spec_args(nd['spec'])
            targs = subjects.make_args(rs, x, a)

            def call():
                node.train(x, *targs)
        elif kind == 'stop':
            call = node.stop_training
        elif kind == 'inv':
            def call():
                return node.inverse(catalog.ints(rs, 8, node.output_dim or nd['d']))
        elif kind == 'exec':
            if op[5] == 'dim':
                x = np.concatenate([x, x], axis=1)
            elif op[5] == 'rank':
                x = x[0]
            kw = {}
            if op[4] and nd['spec']['t'] in NARGS:
                if op[4] == 1:
                    args = (1,)
                else:
                    kw = {'n': 1}

            def call():
                return node.execute(x, *args, **kw)
            self.data = (x, args, kw)
        elif kind == 'flow':
            other = self.nodes[op[2] % len(self.nodes)][1]

            def call():
                return mdp.Flow([node, other]).execute(x)
        r = self.run(kind, i, node, call, seed)
        self.results.append(r)
        if self.expected is not None and not self.res.violations:
            self.compare(kind, i, node, call, r, self.expected[len(self.results) - 1], seed)

    def call(self, call, seed):
        np.random.seed(seed)
        random.seed(seed)
        try:
            return ('ok', call())
        except disk.DiskCrash:
            return ('crash',)
        except (MemoryError, AssertionError, Exception) as e:
            return ('error', type(e).__name__, isinstance(e, OSError), str(e)[:200])

    def run(self, kind, i, node, call, seed):
        if not self.caching:
            return self.call(call, seed)
        self.sim.count('op:%s' % kind)
        cached = self.model.cached(id(node), type(node)) if kind == 'exec' else None
        key = None
        if kind == 'exec':
            if self.model.active:
                want = cached
                got = node.is_cached()
                if want is not None and got != want:
                    self.violate('selection', 'node %d (%s): is_cached() is %s, expected %s'
                                 % (i, type(node).__name__, got, want))
                    return ('ok', None)
            x, args, kw = self.data
            h0 = h2 = self.hash(node, x, args, kw)
            if node.is_training() or node.dtype is None or node.input_dim is None:
                c = pickle.loads(pickle.dumps(node))
                try:
                    c._pre_execution_checks(x)
                    h2 = self.hash(c, x, args, kw)
                except Exception:
                    h2 = None
        before = COUNT.get(id(node), 0)
        nf = len(self.disk.fired)
        r = self.call(call, seed)
        self.log(kind, i, type(node).__name__, r[0], cached, COUNT.get(id(node), 0) - before)
        calls = COUNT.get(id(node), 0) - before
        if len(self.disk.fired) != nf:
            self.hurt = True
            self.known.clear()
            self.call_hurt = True
        else:
            self.call_hurt = False
        if kind == 'exec' and r[0] == 'ok':
            h1 = self.hash(node, x, args, kw)
            if calls == 0:
                self.sim.count('cache-hits')
                if cached is False:
                    self.violate('cached-although-not-selected', 'node %d (%s)' % (i, type(node).__name__))
            elif cached is True and (self.dir, h0) in self.known and h0 is not None:
                self.violate('not-served-from-cache', 'node %d (%s), %d calls' % (i, type(node).__name__, calls))
            if cached is True and h1 == h2 and not self.call_hurt and h1 is not None:
                # the call changed nothing but what the checks before execution fix
                self.known.add((self.dir, h1))
        return r

    def hash(self, node, x, args, kw):
        try:
            return joblib.hash([type(node).__name__, node, x, args, kw])
        except Exception:
            return None

    def compare(self, kind, i, node, call, r, e, seed):
        if r[0] == 'crash':
            # the process is gone; a new one starts without caching and executes again
            self.sim.count('crashes')
            mdp.caching.deactivate_caching()
            self.model.reset()
            with self.disk.healthy():
                r = self.call(call, seed)
        what = '%s %d (%s)' % (kind, i, type(node).__name__)
        if r[0] == 'error' and r[2] and (self.call_hurt or self.hurt):
            self.sim.count('io-errors-raised')
            # cached or not, the node must be usable
            with self.disk.healthy():
                r = self.call(call, seed)
                if r[0] == 'error' and r[2] and self.model.active:
                    return
        if r[0] != e[0]:
            self.violate('different-outcome', '%s: %s, uncached: %s' % (what, short(r), short(e)))
            return
        if r[0] == 'error':
            if r[1] != e[1]:
                self.violate('different-error', '%s: %s, uncached: %s' % (what, short(r), short(e)))
            return
        df = compare.diff(r[1], e[1], rtol=1e-9, atol=1e-12, sign=False)
        if df:
            self.violate('wrong-result', '%s: %s' % (what, df))

    # -- operations on the cache
    def path(self, d):
        return None if d is None else self.disk.path(d)

    def sel(self, cls, inst):
        if not self.nodes:
            cls, inst = cls and [], inst and []
        c = None if cls is None else [type(self.nodes[k % len(self.nodes)][1]) for k in cls]
        i = None if inst is None else [self.nodes[k % len(self.nodes)][1] for k in inst]
        return c, i

    def guard(self, what, f):
        nf = len(self.disk.fired)
        try:
            f()
            return True
        except disk.DiskCrash:
            pass
        except OSError as e:
            if len(self.disk.fired) == nf:
                self.violate('activation-fails', '%s: %s: %s' % (what, type(e).__name__, e))
                return False
        self.known.clear()
        self.hurt = True
        mdp.caching.deactivate_caching()
        self.model.reset()
        return False

    def do_on(self, d, cls, inst):
        c, i = self.sel(cls, inst)
        self.log('on', d, cls, inst)
        if self.guard('on', lambda: mdp.caching.activate_caching(cachedir=self.path(d), cache_classes=c, cache_instances=i)):
            self.model.on(c, None if i is None else [id(x) for x in i])
            self.set_dir()
            self.check_on()

    def set_dir(self):
        new = ce._cachedir
        self.dir = new

    def check_on(self):
        if 'cache_execute' not in mdp.get_active_extensions():
            self.violate('not-active', 'extension inactive after activation')

    def check_off(self):
        if 'cache_execute' in mdp.get_active_extensions():
            self.violate('still-active', 'extension active after deactivation')
        for nd, n in self.nodes:
            if hasattr(n, 'is_cached'):
                self.violate('still-active', 'node has method is_cached after deactivation')
                break

    def do_off(self):
        self.log('off')
        mdp.caching.deactivate_caching()
        self.model.reset()
        self.check_off()

    def do_dir(self, d):
        self.log('dir', d)
        if self.guard('dir', lambda: mdp.caching.set_cachedir(self.path(d))):
            self.set_dir()

    def do_inst(self, i, flag):
        if not self.model.active or not self.nodes:
            return
        i = i % len(self.nodes)
        node = self.nodes[i][1]
        self.log('inst', i, flag)
        node.set_instance_cache(flag)
        if flag:
            self.model.inst[id(node)] = True
        else:
            self.model.inst.pop(id(node), None)

    def do_ctx(self, d, cls, inst, body, end):
        c, i = self.sel(cls, inst)
        self.log('ctx', d, cls, inst, end)
        entered = [False]
        nf = len(self.disk.fired)

        class Left(Exception):
            pass
        try:
            with mdp.caching.cache(cachedir=self.path(d), cache_classes=c, cache_instances=i):
                entered[0] = True
                self.model.on(c, None if i is None else [id(x) for x in i])
                self.set_dir()
                self.check_on()
                self.block(body)
                if end:
                    raise Stop()
            if end and not self.res.violations:
                self.violate('exception-swallowed', 'the context manager swallows the exception')
        except Stop:
            if not end:
                raise
        except (OSError, disk.DiskCrash) as e:
            if entered[0]:
                raise
            self.hurt = True
            self.known.clear()
            if len(self.disk.fired) == nf:
                self.violate('activation-fails', 'context: %s: %s' % (type(e).__name__, e))
            mdp.caching.deactivate_caching()
            self.model.reset()
            try:
                self.block(body)
            except Stop:
                pass
            mdp.caching.deactivate_caching()
        self.model.reset()
        if not self.res.violations:
            self.check_off()

    def do_bad(self, d, how):
        """An activation which fails."""
        active = self.model.active
        self.log('bad', d, how)
        if how == 'collide':
            if active:
                return
            mdp.activate_extension('vsim_k01_other')
            try:
                with self.disk.healthy():
                    mdp.caching.activate_caching(cachedir=self.path(d), cache_classes=[mdp.nodes.PCANode])
                self.violate('collision-accepted', '')
            except mdp.ExtensionException:
                pass
            finally:
                mdp.deactivate_extension('vsim_k01_other')
        else:
            self.nbad += 1
            name = self.disk.path('file%d' % self.nbad)
            with self.disk.healthy():
                with open(name, 'w') as f:
                    f.write('x')
                try:
                    mdp.caching.activate_caching(cachedir=name, cache_instances=[])
                    self.violate('bad-directory-accepted', '')
                except OSError:
                    pass
                os.remove(name)
        if active:
            self.model.on([], [])
            self.model.uncertain()
            self.known.clear()
        else:
            self.model.reset()
            self.check_off()
            if how == 'file' and not self.res.violations:
                # the directory is usable now
                with self.disk.healthy():
                    mdp.caching.activate_caching(cachedir=name)
                    try:
                        node = mdp.nodes.IdentityNode()
                        r = self.call(lambda: node.execute(np.ones((2, 2))), 1)
                        if r[0] == 'ok' and not os.path.exists(os.path.join(name, 'joblib', 'mdp')):
                            self.violate('wrong-directory', 'nothing is written to the given directory')
                        if r[0] != 'ok':
                            self.violate('unusable-after-failed-activation', short(r))
                    finally:
                        mdp.caching.deactivate_caching()
        self.set_dir()

    def do_hurt(self, how, a, b):
        self.known.clear()
        self.hurt = True
        self.log('hurt', how)
        self.sim.count('fault:cache-%s' % how)
        with self.disk.healthy():
            files = []
            for dp, dn, fn in os.walk(self.disk.root):
                files += [os.path.join(dp, f) for f in fn]
            files.sort(key=lambda f: (os.path.basename(f), f))
            if how == 'rmdir':
                if self.dir and self.dir.startswith(self.disk.root) and os.path.isdir(self.dir):
                    for n in os.listdir(self.dir):
                        p = os.path.join(self.dir, n)
                        shutil.rmtree(p, ignore_errors=True)
                return
            if not files:
                return
            n = max(1, int(b * 4))
            k = int(a * len(files))
            for f in (files + files)[k:k + n]:
                if not os.path.exists(f):
                    continue
                size = os.path.getsize(f)
                if how == 'delete':
                    os.remove(f)
                else:
                    with disk._real_open(f, 'r+b') as fh:
                        fh.truncate(0 if how == 'empty' else int(size * b))


def short(r):
    return ' '.join(str(v)[:150] for v in r)


def run(case):
    worker_init()
    COUNT.clear()
    return hist.run_hist(case, K01)


def simplify(case):
    for i, op in enumerate(case['ops']):
        if op[0] == 'ctx':
            for j in range(len(op[4])):
                o = list(op)
                o[4] = op[4][:j] + op[4][j + 1:]
                yield dict(case, ops=case['ops'][:i] + [o] + case['ops'][i + 1:])
            yield dict(case, ops=case['ops'][:i] + op[4] + case['ops'][i + 1:])
