"""N02: failures inside flows, their report and the crash dump."""
import copy
import os
import pickle
import traceback

import numpy as np

import mdp

from vsim import catalog, compare, core, disk, fnodes
from . import hist
from .hist import HRun, Skip

RUNS = {'quick': 4000, 'thorough': 150000}
RULE = ('random flow (also nested flow nodes and layers, online flows) with planned failures of any node operation at '
        'any call, malformed chunks, failing data sources and disk errors or unpicklable nodes while dumping; '
        'distinct: workload or event log differs')
SHRINK = ['ops', 'faults', 'disk']
COMPONENTS = {'real': ['Flow, CheckpointFlow, ParallelFlow (serial), OnlineFlow', 'crash recovery', 'nodes'],
              'simulated': ['node failures', 'data sources', 'disk']}
ASSUMPTIONS = ['the expected state is computed with a second set of nodes, operated one by one by a reference model']

CLS = ['Flow', 'Flow', 'CheckpointFlow', 'ParallelFlow', 'OnlineFlow']


def gen_leaf(rng, d, i, last):
    t = rng.choice(['FPCA', 'FWhitening', 'FSFA', 'FAcc', 'FAcc', 'FIdentity', 'FQuad', 'FHistogram', 'FSFA2'] +
                   (['FGaussian', 'FKNN'] if last else []))
    if t == 'FQuad' and d > 3 or t == 'FHistogram' and rng.random() < .5:
        t = 'FIdentity'
    p = {}
    if t in ('FPCA', 'FWhitening'):
        p['output_dim'] = d if t == 'FWhitening' else rng.choice([d, d, max(1, d - 1)])
    elif t == 'FSFA2':
        p['output_dim'] = 2
    elif t == 'FAcc':
        p['phases'] = rng.choice([1, 2, 2, 3])
        p['name'] = 'n%d' % i
    if rng.random() < 0.5:
        p['input_dim'] = d
    od = p.get('output_dim', d * (d + 3) // 2 if t == 'FQuad' else d)
    return [t, p, []], od


def gen(rng):
    cls = rng.choice(CLS)
    d0 = d = rng.choice([2, 3])
    specs = []
    k = rng.randint(1, 4)
    for i in range(k):
        if cls == 'OnlineFlow':
            t = rng.choice(['FCentering', 'FCCIPCA', 'FIdentity'] + (['FPCA', 'FAcc', 'FSFA'] if i == k - 1 else []))
            p = {'input_dim': d}
            if t == 'FCCIPCA':
                p['output_dim'] = d
            if t == 'FAcc':
                p['phases'] = rng.choice([1, 2])
            specs.append([t, p, []])
            continue
        x = rng.random()
        if x < 0.15:
            sub = []
            dd = d
            for j in range(rng.randint(1, 3)):
                s, dd = gen_leaf(rng, dd, j, False)
                if s[0] == 'FHistogram':
                    s[0] = 'FIdentity'
                s[1].setdefault('input_dim', d if j == 0 else s[1].get('input_dim'))
                if s[1]['input_dim'] is None:
                    del s[1]['input_dim']
                sub.append(s)
            specs.append(['FlowNode', {'crash_recovery': rng.random() < 0.1}, sub])
            d = dd
        elif x < 0.25 and d % 2 == 0:
            sub = []
            od = 0
            for j in range(2):
                t = rng.choice(['FPCA', 'FAcc', 'FIdentity'])
                sub.append([t, {'input_dim': d // 2}, []])
            specs.append(['Layer', {}, sub])
        else:
            s, d = gen_leaf(rng, d, i, i == k - 1)
            specs.append(s)
    if rng.random() < 0.05:
        specs.insert(rng.randrange(len(specs)), ['FUnpicklable', {}, []])
    leaves = []
    for i, s in enumerate(specs):
        leaves += fnodes.tags(s, str(i))
    ops = []
    for _ in range(rng.randint(1, 4)):
        o = rng.choice(['train', 'train', 'train', 'exec', 'inv', 'rec'])
        if not ops:
            o = 'train'
        if o == 'rec':
            ops.append(['rec', rng.choice([False, True, 'dump.pic'])])
            continue
        op = [o, rng.randrange(10 ** 6), rng.randint(1, 3)]
        if rng.random() < 0.25:
            op.append([rng.randrange(3), rng.choice(['dim', 'rank', 'empty', 'nan', 'raise', 'args', 'none']),
                       rng.randrange(k)])
        ops.append(op)
    ops.append(['train', rng.randrange(10 ** 6), 2])
    ops.append(['exec', rng.randrange(10 ** 6), 2])
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        tag, t = rng.choice(leaves)
        kind = rng.choice(fnodes.KINDS + (['interrupt'] if rng.random() < 0.2 else []))
        faults.append([tag, rng.choice(['train', 'train', 'exec', 'exec', 'stop', 'inv']), rng.randrange(6), kind,
                       rng.choice(['before', 'before', 'after'])])
    dk = []
    if rng.random() < 0.4:
        dk.append([rng.choice(['open', 'write', 'write', 'close']), rng.randrange(2), rng.choice(['error', 'short']),
                   rng.choice([0.0, 0.5, 0.95])])
    return {'cls': cls, 'specs': specs, 'd': d0, 'ops': ops, 'faults': faults, 'disk': dk,
            'rec': rng.choice([False, True, True, 'dump.pic']), 'sched': {'trace': []}}


class DataError(Exception):
    pass


class Source(object):
    """Iterable data source, which may fail."""

    def __init__(self, items, fail=None):
        self.items = items
        self.fail = fail

    def __iter__(self):
        for i, x in enumerate(self.items):
            if self.fail == i:
                raise DataError('source fails at %d' % i)
            yield x


class Model(object):
    """Flow semantics in terms of nodes."""

    class Failure(Exception):
        def __init__(self, nr, exc, training=None, base=False):
            self.nr, self.exc, self.training, self.base = nr, exc, training, base

    def __init__(self, nodes):
        self.nodes = nodes

    def call(self, nr, f, *a, **kw):
        training = kw.pop('training', None)
        try:
            return f(*a)
        except Exception as e:
            raise Model.Failure(nr, e, training)
        except KeyboardInterrupt as e:
            raise Model.Failure(nr, e, training, True)

    def seq(self, x, upto, training=None):
        for i in range(upto):
            x = self.call(i, self.nodes[i].execute, x, training=training)
        return x

    def train(self, data):
        for i, n in enumerate(self.nodes):
            it = data[i]
            if it is None:
                if n.is_training():
                    raise Model.Failure(None, None)
                continue
            if not n.is_trainable():
                continue
            if not self._train(i, n, it):
                continue
        last = self.nodes[-1]
        if last.is_training():
            self.call(len(self.nodes) - 1, last.stop_training)
        elif not last.is_trainable():
            # stop_training of an untrainable node is refused
            self.call(len(self.nodes) - 1, self._quiet(last))

    @staticmethod
    def _quiet(n):
        def f():
            try:
                n.stop_training()
            except mdp.TrainingFinishedException:
                pass
        return f

    def _train(self, i, n, it):
        nargs = 1 if type(n).__name__ in fnodes.LABELS else 0
        while True:
            count = 0
            src = iter(it)
            while True:
                try:
                    x = next(src)
                except StopIteration:
                    break
                except Exception as e:
                    raise Model.Failure(i, e)
                count += 1
                args = ()
                if type(x) in (tuple, list):
                    x, args = x[0], x[1:]
                if nargs and len(args) != nargs:
                    raise Model.Failure(i, mdp.FlowException('Wrong number of arguments'))
                x = self.seq(x, i, i)
                try:
                    n.train(x, *args)
                except mdp.TrainingFinishedException:
                    return False
                except Exception as e:
                    raise Model.Failure(i, e)
                except KeyboardInterrupt as e:
                    raise Model.Failure(i, e, None, True)
            if not count:
                raise Model.Failure(i, mdp.FlowException('empty'))
            if n.get_remaining_train_phase() > 1:
                self.call(i, n.stop_training)
            else:
                return True

    def train_online(self, data):
        last = self.nodes[-1]
        first = True
        while True:
            count = 0
            src = iter(data)
            while True:
                try:
                    x = next(src)
                except StopIteration:
                    break
                except Exception as e:
                    raise Model.Failure(None, e)
                count += 1
                for i, n in enumerate(self.nodes):
                    if n.is_training() and (first or n is last):
                        self.call(i, n.train, x)
                    if n is not last:
                        x = self.call(i, n.execute, x)
            if not count:
                raise Model.Failure(None, mdp.FlowException('empty'))
            if not last.is_training() or isinstance(last, mdp.OnlineNode) or last.get_remaining_train_phase() <= 1:
                break
            self.call(len(self.nodes) - 1, last.stop_training)
            first = False
        if not isinstance(last, mdp.OnlineNode):
            self.call(len(self.nodes) - 1, self._quiet(last))

    def inverse(self, y):
        for i in range(len(self.nodes) - 1, -1, -1):
            y = self.call(i, self.nodes[i].inverse, y)
        return y


class Run(HRun):

    def build(self):
        return [fnodes.make(s, str(i)) for i, s in enumerate(self.case['specs'])]

    def data(self, op, out_dim=None):
        rs = np.random.RandomState(op[1])
        bad = op[3] if len(op) > 3 else None
        d = out_dim or self.case['d']
        chunks = []
        fail = None
        for c in range(op[2]):
            x = catalog.ints(rs, rs.randint(12, 20), d)
            if bad is not None and bad[0] % op[2] == c:
                if bad[1] == 'dim':
                    x = np.hstack([x, x[:, :1]])
                elif bad[1] == 'rank':
                    x = x[0]
                elif bad[1] == 'empty':
                    x = x[:0]
                elif bad[1] == 'nan':
                    x[3] = np.nan
                elif bad[1] == 'raise':
                    fail = c
            chunks.append(x)
        return chunks, fail, bad

    def train_data(self, op):
        chunks, fail, bad = self.data(op)
        if self.case['cls'] == 'OnlineFlow':
            return Source(chunks, fail)
        out = []
        for i, s in enumerate(self.case['specs']):
            items = chunks
            mine = bad is None or bad[2] % len(self.case['specs']) == i
            if not mine:
                items = self.data(op[:3])[0]
            if s[0] in fnodes.LABELS:
                items = [(x, np.arange(len(x)) % 2) for x in items]
                if bad and bad[1] == 'args' and mine:
                    items[bad[0] % len(items)] = items[bad[0] % len(items)][:1]
            out.append(Source(items, fail if mine else None))
            if bad and bad[1] == 'none' and mine:
                out[-1] = None
        return out

    def perform(self, flow, op):
        """Real operation."""
        c = self.case
        if op[0] == 'train':
            data = self.train_data(op)
            if c['cls'] == 'CheckpointFlow':
                flow.train(data, None)
            else:
                flow.train(data)
        elif op[0] == 'exec':
            chunks, fail, bad = self.data(op)
            return flow.execute(chunks[0] if op[2] == 1 else chunks)
        elif op[0] == 'inv':
            chunks, fail, bad = self.data(op, flow[-1].output_dim)
            return flow.inverse(chunks[0] if op[2] == 1 else chunks)

    def reference(self, model, op):
        c = self.case
        if op[0] == 'train':
            data = self.train_data(op)
            (model.train_online if c['cls'] == 'OnlineFlow' else model.train)(data)
        elif op[0] == 'exec':
            return np.concatenate([model.seq(x, len(model.nodes)) for x in self.data(op)[0]])
        elif op[0] == 'inv':
            return np.concatenate([model.inverse(x) for x in self.data(op, model.nodes[-1].output_dim)[0]])

    def state(self, flow, model, what):
        for i, (a, b) in enumerate(zip(list(flow), model.nodes)):
            dd = compare.diff(a, b, rtol=1e-5, atol=1e-7)
            if dd:
                self.violate('state', '%s: node %d: %s' % (what, i, dd))
                return False
        return True

    def scenario(self, sim):
        c = self.case
        faults = [dict(op=f[0], nth=f[1], how=f[2], cut=f[3]) for f in c['disk']]
        real, ref = fnodes.Plan(c['faults']), fnodes.Plan(c['faults'])
        cls = mdp.parallel.ParallelFlow if c['cls'] == 'ParallelFlow' else getattr(mdp, c['cls'])
        with disk.Disk(faults, sim) as d:
            def path(rec):
                return d.path(rec) if isinstance(rec, str) else rec
            rec = c['rec']
            try:
                flow = cls(self.build(), crash_recovery=path(rec))
            except Exception as e:
                raise Skip('unbuildable')
            if c['cls'] == 'ParallelFlow':
                # documented to ignore the argument
                rec = False
            model = Model(self.build())
            dump = None
            for k, op in enumerate(c['ops']):
                if k >= len(c['ops']) - 2:
                    # the last operations are healthy
                    real.enabled = ref.enabled = False
                if op[0] == 'rec':
                    rec = op[1]
                    flow.set_crash_recovery(path(rec))
                    continue
                fnodes.set_plan(real)
                before = set(d.files())
                stamp = [(f, os.stat(d.path(f)).st_mtime_ns) for f in sorted(before)]
                nfired = len(d.fired)
                err = y = None
                np.random.seed(op[1])
                try:
                    y = self.perform(flow, op)
                except Exception as e:
                    err = e
                except KeyboardInterrupt as e:
                    err = e
                broken = len(d.fired) > nfired
                fnodes.set_plan(ref)
                exp = yr = None
                np.random.seed(op[1])
                try:
                    yr = self.reference(model, op)
                except Model.Failure as e:
                    exp = e
                sim.count('op:' + op[0])
                self.log(op[0], k, type(err).__name__, 'ok' if exp is None else exp.nr)
                what = 'operation %d (%s)' % (k, op[0])
                if (err is None) != (exp is None):
                    self.violate('outcome', '%s: %r, expected %s' % (
                        what, err, 'success' if exp is None else 'failure of node %s: %r' % (exp.nr, exp.exc)))
                    return
                new = sorted(set(d.files()) - before)
                changed = [f for f, t in stamp if f in d.files() and os.stat(d.path(f)).st_mtime_ns != t]
                if err is None:
                    dd = compare.diff(y, yr, rtol=1e-5, atol=1e-7)
                    if dd:
                        self.violate('result', '%s: %s' % (what, dd))
                        return
                    if new or changed:
                        self.violate('stray-file', '%s: %s' % (what, new + changed))
                        return
                elif exp.base:
                    sim.count('fault:interrupt')
                    if type(err) is not type(exp.exc):
                        self.violate('outcome', '%s: %r instead of %r' % (what, err, exp.exc))
                        return
                elif exp.nr is None:
                    sim.count('fault:refused')
                    if new or changed:
                        self.violate('stray-file', '%s: %s' % (what, new + changed))
                        return
                else:
                    sim.count('fault:node-%s' % op[0])
                    if not self.report(what, err, exp, model, d, rec, path, new, changed, broken):
                        return
                    if rec and not broken and not any(s[0] == 'FUnpicklable' for s in c['specs']):
                        with open(getattr(err, 'filename'), 'rb') as f:
                            try:
                                dump = pickle.load(f)
                            except Exception as e:
                                self.violate('dump', '%s: not loadable: %s' % (what, e))
                                return
                        if type(dump) is not cls or not self.state(dump, model, what + ', dump'):
                            self.violate('dump', '%s: %s' % (what, type(dump).__name__))
                            return
                        sim.count('dump')
                        fnodes.set_plan(fnodes.Plan())
                        self.resume(dump, Model([n.copy() for n in model.nodes]), what)
                if not self.state(flow, model, what):
                    return

    def report(self, what, err, exp, model, d, rec, path, new, changed, broken):
        """Is the exception a complete report?"""
        s = str(err)
        name = str(model.nodes[exp.nr])
        text = []
        if not isinstance(err, mdp.FlowException):
            self.violate('report', '%s: %r instead of a flow exception' % (what, err))
            return False
        if ('node #%d (%s)' % (exp.nr, name)) not in s:
            text.append('node #%d (%s) not named' % (exp.nr, name))
        if type(exp.exc).__name__ not in s:
            text.append('class of the exception not named')
        msg = str(exp.exc)
        if not isinstance(exp.exc, mdp.FlowException) and msg not in s:
            text.append('text of the exception lost')
        if 'Traceback' not in s:
            text.append('no traceback')
        if exp.training is not None and 'While training node #%d (%s)' % (exp.training, model.nodes[exp.training]) not in s:
            text.append('trained node #%d not named' % exp.training)
        parent = getattr(err, 'parent_exception', None)
        if type(parent) is not type(exp.exc):
            text.append('parent exception is %r instead of %r' % (parent, type(exp.exc).__name__))
        elif not isinstance(parent, mdp.FlowException) and parent.args != exp.exc.args:
            text.append('parent exception has arguments %r instead of %r' % (parent.args, exp.exc.args))
        if text:
            self.violate('report', '%s: %s (%s)' % (what, '; '.join(text), type(err).__name__))
            return False
        if rec and not broken:
            unp = any(x[0] == 'FUnpicklable' for x in self.case['specs'])
            fn = getattr(err, 'filename', None)
            if isinstance(rec, str):
                ok = os.path.exists(path(rec)) and (fn == path(rec) or unp)
            else:
                ok = unp or (fn is not None and os.path.dirname(fn) == d.root and os.path.basename(fn) in new)
            extra = [f for f in new + changed if f != rec]
            if rec is True:
                extra = extra[1:]
            # inner flows may also write one
            if extra and not any(x[0] == 'FlowNode' and x[1].get('crash_recovery') for x in self.case['specs']):
                ok = False
            if not ok:
                self.violate('dump', '%s: dump file %s, new files %s %s, message ends with %s' % (
                    what, fn, new, changed, s[-120:]))
                return False
            if not unp and fn not in s:
                self.violate('dump', '%s: dump file not named' % what)
                return False
        elif not rec and (new or changed) and not any(
                x[0] == 'FlowNode' and x[1].get('crash_recovery') for x in self.case['specs']):
            self.violate('stray-file', '%s: %s without crash recovery' % (what, new + changed))
            return False
        return True

    def resume(self, dump, model, what):
        """The reloaded dump goes on like the flow would."""
        dump.set_crash_recovery(False)
        for op in (['train', 77, 2], ['exec', 78, 1]):
            err = exp = y = yr = None
            np.random.seed(3)
            try:
                y = self.perform(dump, op)
            except Exception as e:
                err = e
            np.random.seed(3)
            try:
                yr = self.reference(model, op)
            except Model.Failure as e:
                exp = e
            if (err is None) != (exp is None):
                self.violate('dump', '%s: reloaded flow, %s: %r, expected %r' % (what, op[0], err, exp))
                return
            if err is None:
                dd = compare.diff(y, yr, rtol=1e-5, atol=1e-7)
                if dd:
                    self.violate('dump', '%s: reloaded flow, %s: %s' % (what, op[0], dd))
                    return
        self.state(dump, model, what + ', reloaded')


def run(case):
    try:
        res = hist.run_hist(case, Run)
    finally:
        fnodes.set_plan(fnodes.Plan())
    res.count('class:' + case['cls'])
    return res
