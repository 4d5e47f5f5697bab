"""I01: inspected flows against identical flows without inspection."""
import copy
import os
import pickle
import random
import re
import warnings

import numpy as np

import mdp
import bimdp
import bimdp.inspection as insp

from vsim import binodes, catalog, compare, disk, pbnodes, vnodes
from vsim.binodes import build_msg, norm
from checks import b01, b02, h01, hist
from checks.hist import HRun, Skip

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('random flows (normal ones with layers, clone layers and nested flows; bidirectional ones with routing, '
        'coroutines and clone layers) with histories of training and executions, with and without inspection, copies '
        'and reloads; failing nodes, failing, short and lost writes at any point; distinct: workload or event log differs')
SHRINK = ['ops', 'faults']
LEVEL = 'simulated histories with disk faults and failing nodes, against flows without inspection'
COMPONENTS = {'real': ['bimdp.inspection', 'mdp.Flow', 'bimdp.BiFlow', 'hinet', 'mdp.utils slideshows', 'pickle'],
              'simulated': ['disk'], 'stub': ['programmed nodes', 'browser is never opened']}
MEASURE = 'distinct workloads and event logs'
ASSUMPTIONS = ['reference: the same history without inspection',
               'the state of a flow is not compared if a disk fault interrupted its training',
               'nodes inside of clone layers have no state which is changed by executing them']

POOLS = [['VAcc', 'VPlain', 'VCount', 'IdentityNode'],
         ['VAcc', 'VCount', 'PCANode', 'SFANode', 'PolynomialExpansionNode', 'HistogramNode', 'CutoffNode'],
         ['VAcc', 'FDANode', 'GaussianClassifier', 'KNNClassifier', 'PCANode', 'VPlain']]
PATHS = ['p', 'p', 'p', 'p/sub', 'q']


# ---------------------------------------------------------------- generation

def gen_lin(rng):
    pool = rng.choice(POOLS)
    d = rng.choice([1, 2, 3, 4])
    specs, cd = [], d
    for i in range(rng.choice([1, 2, 2, 3, 3, 4, 4, 7])):
        s, cd = h01.gen_tree(rng, cd, pool, rng.choice([0, 0, 1, 2]), 'n%d' % i)
        for c in catalog.walk(s):
            if c['t'] == 'CloneLayer':
                # their state would have to be changed by the execution
                for x in catalog.walk(c):
                    if x['t'] == 'VCount':
                        x['t'] = 'VPlain'
        specs.append(s)
        if cd > 8:
            break
    out = {'kind': 'lin', 'specs': specs, 'd': d}
    if rng.random() < 0.1:
        # the same node more than once
        same = [i for i, s in enumerate(specs) if s['t'] in ('VPlain', 'IdentityNode', 'CutoffNode')]
        if same:
            i = rng.choice(same)
            j = rng.randint(i, len(specs))
            if j == i or specs[j - 1].get('p', {}).get('input_dim') == specs[i]['p'].get('input_dim'):
                specs.insert(j, copy.deepcopy(specs[i]))
                out['share'] = [i, j] if j > i else [i, i + 1]
    return out


def specs_root(specs):
    return {'t': 'FlowNode', 'nodes': specs}


def gen_bi(rng):
    wild = rng.choice([0.0, 0.0, 0.03])
    ids = []
    specs = b01.gen_nodes(rng, 'n', 1, ids, wild)
    b01.fill(rng, specs, ids, wild)
    return {'kind': 'bi', 'specs': specs, 'ids': ids, 'd': 2}


def gen_pb(rng):
    wild = 0.0
    ids = []
    specs = [b02.gen_node(rng, 'n%d' % i, ids, 1) for i in range(rng.randrange(1, 5))]
    b02.fill(rng, specs, ids, wild)
    for s in specs + [x for t in specs for x in t.get('nodes', [])]:
        if s['kind'] == 'clone':
            # their state would have to be changed by the execution
            s['node']['prog'] = {}
            s['node'].pop('ef', None)
            if s['node']['kind'] == 'co':
                s['node']['kind'] = 'am'
    return {'kind': 'pb', 'specs': specs, 'ids': ids, 'd': 2}


def gen(rng):
    f = rng.choice([gen_lin, gen_lin, gen_bi, gen_pb])(rng)
    bi = f['kind'] != 'lin'
    n = len(f['specs'])
    ops = []
    start = [1]

    def chunks(k=None, some=False):
        k = k or rng.choice([1, 1, 2, 3])
        if not bi:
            return [{'s': rng.randrange(10000), 'n': rng.choice([12, 20, 30])} for _ in range(k)]
        none = False if some or rng.random() < 0.9 else None
        if f['kind'] == 'bi':
            return b01.gen_chunks(rng, f['ids'], 0.01, none)
        return b02.rand_chunks(rng, f['ids'], start, none)

    def fault():
        out = []
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                op = rng.choice(['write', 'write', 'write', 'open', 'close', 'openr', 'read'])
                out.append({'op': op, 'nth': rng.choice([rng.randrange(4), rng.randrange(12), rng.randrange(400)])
                            if op in ('write', 'read') else rng.choice([rng.randrange(3), rng.randrange(12)]),
                            'how': rng.choice(['error', 'short', 'lost']) if op == 'write' else 'error',
                            'cut': rng.choice([0.0, 0.5, 0.95]), 'errno': rng.choice([28, 5, 13])})
        return out

    def train():
        op = {'op': 'train', 'mode': rng.choice(['plain', 'show', 'show', 'show', 'prep', 'prep']),
              'chunks': [chunks() for _ in range(n)], 's': rng.randrange(10000),
              'form': rng.choice(['lists', 'lists', 'lists', 'iter', 'array', 'tuples']),
              'debug': rng.random() < 0.3, 'path': rng.choice(PATHS), 'faults': fault(),
              'size': rng.random() < 0.3}
        if rng.random() < 0.05:
            op['path'] = 'p/new'
        if op['form'] == 'array':
            op['chunks'] = [chunks(1, True)[:1]] * n
        elif rng.random() < 0.04:
            op['chunks'][rng.randrange(n)] = []
        if bi:
            op['stops'] = [b01.rand_msg(rng, f['ids'], 0.0, 0) if rng.random() < 0.3 else None for _ in range(n)] \
                if rng.random() < 0.3 and f['kind'] == 'bi' else None
        return op

    def execute():
        op = {'op': 'exec', 'mode': rng.choice(['plain', 'show', 'show', 'inspect', 'inspect']),
              'chunks': chunks(), 's': rng.randrange(10000), 'form': rng.choice(['lists', 'array', 'array']),
              'debug': rng.random() < 0.3, 'path': rng.choice(PATHS), 'faults': fault(),
              'name': rng.choice([None, None, 'ex', 'snapshot']), 'size': rng.random() < 0.3}
        if bi and rng.random() < 0.25:
            op['target'] = rng.choice(f['ids'] + [0, 1, 1])
        return op

    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if not ops and r < 0.9 or r < 0.3:
            ops.append(train())
        elif r < 0.85:
            ops.append(execute())
        elif r < 0.93:
            ops.append({'op': rng.choice(['copy', 'save'])})
        else:
            ops.append({'op': 'stop', 'i': rng.randrange(n), 's': rng.randrange(10000),
                        'chunks': chunks(1)[:1]})
    if not bi and rng.random() < 0.25:
        op = rng.choice(ops)
        if op['op'] in ('train', 'exec'):
            op['fail'] = [rng.randrange(100), rng.choice(['train', 'stop', 'exec']) if op['op'] == 'train' else 'exec']
    f.update(ops=ops, sched={'trace': []})
    return f


# ---------------------------------------------------------------- run

class Log(list):
    """Calls of the nodes, with a limit for endless routing."""
    over = False

    def append(self, item):
        if self.over or len(self) > 600:
            self.over = True
            raise pbnodes.Endless()
        list.append(self, item)


LOG = Log()


def worker_init():
    binodes.LOG = LOG


def leaves(nodes):
    """The nodes which take part in the tracing."""
    out = []
    for n in nodes:
        if hasattr(n, 'flow'):
            out += leaves(n.flow)
        elif isinstance(n, mdp.hinet.CloneLayer):
            out += leaves(n.nodes[:1])
        elif isinstance(n, mdp.hinet.Layer):
            out += leaves(n.nodes)
        else:
            out.append(n)
    return out


def everything(nodes):
    out = []
    for n in nodes:
        out.append(n)
        if hasattr(n, 'flow'):
            out += everything(n.flow)
        elif isinstance(n, mdp.hinet.Layer):
            out += everything(n.nodes)
    return out


METHODS = ['execute', 'train', 'stop_training', '__getstate__', '_set_use_copies', '_stop_training_hook']


def residues(obj):
    return sorted(k for k in vars(obj) if k in METHODS or k.startswith('_insp_') or
                  k.startswith('_snapshot_') or k.startswith('_original_'))


class Once(object):
    """An iterable which counts how often it was opened."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class Run(HRun):

    def setup(self):
        self.cls = ()
        del LOG[:]
        self.kind = self.case['kind']
        self.flow, self.ref = self.build(), self.build()

    def build(self):
        case = self.case
        try:
            if self.kind == 'lin':
                nodes = [h01.make_pair(copy.deepcopy(s))[0] for s in case['specs']]
                if case.get('share'):
                    nodes[case['share'][1]] = nodes[case['share'][0]]
                return mdp.Flow(nodes)
            m = binodes if self.kind == 'bi' else pbnodes
            return bimdp.BiFlow([m.make(copy.deepcopy(s)) for s in case['specs']])
        except Exception as e:
            raise Skip('construction: %s %s' % (type(e).__name__, str(e)[:60]))

    def scenario(self, sim):
        with disk.Disk([], sim) as self.disk:
            for k, op in enumerate(self.case['ops']):
                self.k, self.op = k, op
                self.where = 'op %d (%s %s)' % (k, op.get('mode', ''), op['op'])
                armed = self.arm(op)
                go = getattr(self, 'op_' + op['op'])(op)
                for n in armed:
                    n.plan = []
                if self.res.violations:
                    return
                self.clean()
                if go is False or self.res.violations:
                    return
                self.compare()
                if self.res.violations:
                    return

    def arm(self, op):
        """Let one of the nodes fail in this operation."""
        out = []
        if op.get('fail'):
            for f in (self.flow, self.ref):
                ns = [n for n in leaves(f) if isinstance(n, vnodes.VAcc)]
                if ns:
                    n = ns[op['fail'][0] % len(ns)]
                    n.plan = [[op['fail'][1], None]]
                    out.append(n)
        return out

    # -- invariants
    def clean(self):
        """No traces of the inspection."""
        for n in [self.flow] + everything(self.flow):
            r = residues(n)
            if r:
                self.violate('residues', '%s: %s keeps %s' % (self.where, type(n).__name__, r))
                return
        a, b = everything(self.flow), everything(self.ref)
        share = lambda ns: [[i for i, n in enumerate(ns) if n is m][0] for m in ns]
        if share(a) != share(b):
            self.violate('structure', '%s: nodes are shared as %s instead of %s' % (self.where, share(a), share(b)))

    def compare(self):
        for f in (self.flow, self.ref):
            for layer in everything(f):
                if isinstance(layer, mdp.hinet.CloneLayer):
                    for n in layer.nodes:
                        if hasattr(n, 'program'):
                            # (these programs are empty)
                            n.program.pos = {}
        for i, (a, b) in enumerate(zip(self.flow, self.ref)):
            d = compare.diff(a, b, rtol=1e-9, sign=False)
            if d:
                self.violate('nodes-differ', '%s: node %d: %s' % (self.where, i, d))
                return

    def call(self, f, s):
        """('ok', result) or ('fail', exception)"""
        np.random.seed(s)
        random.seed(s)
        pbnodes.watch(None)
        pbnodes.BUDGET[0] = 400
        LOG.over = False
        try:
            res = 'ok', f()
            if LOG.over:
                raise Skip('endless')
            return res
        except disk.DiskCrash:
            raise
        except pbnodes.Endless:
            raise Skip('endless')
        except pbnodes.Untrained:
            return 'fail', None
        except Skip:
            raise
        except Exception as e:
            if LOG.over or pbnodes.BUDGET[0] < 0:
                raise Skip('endless')
            return 'fail', e
        finally:
            pbnodes.watch(None)

    def faults(self, op):
        d = self.disk
        d.faults = [dict(f) for f in op.get('faults', [])] if op.get('mode') != 'plain' else []
        d.n = {}
        d.fired = []

    def same(self, got, want, op):
        """Compare the outcomes; False if the history ends here."""
        fired = list(self.disk.fired)
        self.disk.faults = []
        self.log(op['op'], op.get('mode'), got[0], want[0], fired)
        self.res.count('mode:%s' % op.get('mode'))
        self.res.count('outcome:%s' % want[0])
        if fired:
            hard = [f for f in fired if f[1] != 'lost']
            if got[0] == 'fail' and want[0] == 'ok' and len(hard) == len(fired):
                e = got[1]
                if not isinstance(e, OSError) and 'Errno' not in str(e) and not isinstance(e, EOFError):
                    self.violate('masked-error', '%s: disk error reported as %s: %s' % (
                        self.where, type(e).__name__, str(e)[:200]))
            return False
        if any('igenvalue' in str(o[1]) or 'ingular' in str(o[1]) for o in (got, want) if o[0] == 'fail'):
            raise Skip('numerics')
        if want[0] != got[0]:
            if want[0] == 'fail' and op.get('debug'):
                return True
            if op.get('fail') and op['fail'][1] == 'stop' and isinstance(got[1], vnodes.NodeFailure):
                # the inspection closes phases which the training leaves open
                return False
            self.violate('outcome', '%s: %s, without inspection %s' % (self.where, self.text(got), self.text(want)))
            return False
        if want[0] == 'fail':
            if type(got[1]) is not type(want[1]):
                if op.get('debug') and isinstance(got[1], insp.EmptyTraceException):
                    # the training failed before there was something to show
                    return True
                self.violate('exception', '%s: %s, without inspection %s' % (
                    self.where, self.text(got), self.text(want)))
                return False
        return True

    @staticmethod
    def text(o):
        if o[0] == 'ok':
            return 'done'
        return '%s: %s' % (type(o[1]).__name__, str(o[1]).strip()[-160:])

    # -- data
    def lin_data(self, c, spec=None):
        rs = np.random.RandomState(c['s'])
        x = catalog.ints(rs, c['n'], self.case['d'])
        a = catalog.make_args(rs, x, catalog.spec_args(spec)) if spec else ()
        if a:
            return (x,) + tuple(a)
        return x

    def args_of(self, i):
        spec = self.case['specs'][i]
        return spec if catalog.spec_args(spec) is not None else None

    def data(self, op):
        """(data, messages, stop messages)"""
        n = len(self.case['specs'])
        form = op['form']
        if self.kind == 'lin':
            if form == 'array':
                return self.lin_data(op['chunks'][0][0]), None, None
            d = [[self.lin_data(c, self.args_of(i)) for c in cc] for i, cc in enumerate(op['chunks'])]
            m = None
        else:
            if form == 'array':
                c = op['chunks'][0][0]
                return b01.arr(c['x']), build_msg(c['m']), self.stops(op)
            d, m = [], []
            for cc in op['chunks']:
                xs = [b01.arr(c['x']) for c in cc]
                none = xs and xs[0] is None
                d.append(None if none else xs)
                m.append([build_msg(c['m']) for c in cc] if any(c['m'] for c in cc) or none else None)
            if all(v is None for v in m):
                m = None
        if form == 'iter':
            d = [None if v is None else iter(v) for v in d]
        elif form == 'tuples':
            d = [None if v is None else tuple(v) for v in d]
        return d, m, self.stops(op)

    def stops(self, op):
        if op.get('stops') is None:
            return None
        return [build_msg(s) for s in op['stops']]

    # -- operations
    def train_call(self, flow, d, m, st):
        if self.kind == 'lin':
            return flow.train(d)
        return flow.train(d, m, st)

    def op_train(self, op):
        d, m, st = self.data(op)
        states = []
        ref = self.ref

        def record():
            states.append([n.copy() for n in ref.flow])
        ref._stop_training_hook = record
        del LOG[:]
        try:
            want = self.call(lambda: self.train_call(ref, d, m, st), op['s'])
        finally:
            del ref._stop_training_hook
        rlog = list(LOG)
        del LOG[:]
        d, m, st = self.data(op)
        given = [list(v) if isinstance(v, list) else v for v in (d, m, st)]
        path = self.disk.path(op['path'])
        self.faults(op)
        flow = self.flow
        mode = op['mode']
        if mode == 'plain':
            got = self.call(lambda: self.train_call(flow, d, m, st), op['s'])
        elif mode == 'show':
            got = self.call(lambda: insp.show_training(flow, d, m, st, path=path, debug=op['debug'],
                                                       show_size=op['size'], open_browser=False), op['s'])
        else:
            def prep():
                insp.prepare_training_inspection(flow, path)
                try:
                    return self.train_call(flow, d, m, st)
                finally:
                    insp.remove_inspection_residues(flow)
            got = self.call(prep, op['s'])
        log = list(LOG)
        if want[0] == 'fail' and mode == 'show' and op['debug'] and self.kind != 'lin':
            # part of the debug mode
            ref._bi_reset()
        if want[0] == 'ok' and not states and mode == 'show' and got[0] == 'fail' and \
                isinstance(got[1], insp.EmptyTraceException):
            # nothing to show
            want = got
            op = dict(op, debug=False)
        go = self.same(got, want, dict(op, debug=op['debug'] and mode == 'show'))
        if self.res.violations or not go:
            return go
        if log[:len(rlog)] != rlog or mode != 'show' and len(log) != len(rlog):
            self.violate('calls', '%s: other calls than without inspection' % self.where)
            return False
        for a, b in zip(given, (d, m, st)):
            if isinstance(a, list) and (len(a) != len(b) or any(x is not y for x, y in zip(a, b))):
                self.violate('arguments-changed', '%s: the lists of the caller were changed' % self.where)
        if mode == 'plain':
            return True
        # -- files
        snaps = self.snapshots(path)
        n = len(states)
        if want[0] == 'fail' and mode == 'show' and op['debug']:
            n += 1
        elif want[0] == 'fail' and mode == 'show':
            pass
        if [k for k, f in snaps] != list(range(n)):
            self.violate('snapshots', '%s: snapshots %s instead of %d' % (self.where, [k for k, f in snaps], n))
            return False
        for k, f in snaps[:len(states)]:
            try:
                with open(f, 'rb') as fh:
                    sflow = pickle.load(fh)
            except Exception as e:
                self.violate('snapshots', '%s: snapshot %d: %s: %s' % (self.where, k, type(e).__name__, e))
                return False
            for i, (a, b) in enumerate(zip(sflow, states[k])):
                diff = compare.diff(a, b, rtol=1e-9, sign=False)
                if diff:
                    self.violate('snapshot-differs', '%s: snapshot %d, node %d: %s' % (self.where, k, i, diff))
                    return False
                if residues(a):
                    self.violate('residues', '%s: snapshot %d, node %d keeps %s' % (self.where, k, i, residues(a)))
                    return False
        if mode == 'show' and got[0] == 'ok':
            self.page(got[1], path)
            names = set(os.listdir(path))
            if op['debug'] and want[0] == 'ok':
                for x in names:
                    if x.endswith('.html') and re.search(
                            r'Encountered Exception.*([eE]igenvalue|[sS]ingular)', open(os.path.join(path, x)).read(), re.S):
                        # shown instead of raised
                        raise Skip('numerics')
            for k in range(n):
                for part in ('t', 's'):
                    if want[0] == 'ok' and not any(re.match(r'%d_\d+_%s_0\.html$' % (k, part), x) for x in names):
                        self.violate('slides', '%s: no %s slide for snapshot %d: %s' % (
                            self.where, part, k, sorted(names)))
                        return False
        return True

    def snapshots(self, path):
        out = []
        for f in os.listdir(path) if os.path.isdir(path) else []:
            m = re.match(r'snapshot_(\d+)\.pckl$', f)
            if m:
                out.append((int(m.group(1)), os.path.join(path, f)))
        return sorted(out)

    def page(self, filename, path):
        """Check a slideshow; return its slides."""
        if not os.path.isfile(filename) or os.path.dirname(filename) != path:
            self.violate('slides', '%s: %s is not a file in %s' % (self.where, filename, path))
            return []
        text = open(filename).read()
        if not text.startswith('<html>') or not text.rstrip().endswith('</html>'):
            self.violate('slides', '%s: incomplete page %s' % (self.where, text[-200:]))
            return []
        return self.slides(text, path)

    def slides(self, text, path):
        out = re.findall(r'value="([^"]*\.html)"', text) or re.findall(r"'([^']*\.html)'", text)
        if not out:
            self.violate('slides', '%s: no slides' % self.where)
        if len(set(out)) != len(out):
            self.violate('slides', '%s: repeated slides %s' % (self.where, out))
        for name in out:
            f = os.path.join(path, name)
            t = open(f).read() if os.path.isfile(f) else ''
            if not t.startswith('<html>') or t.count('</html>') != 1 or not t.rstrip().endswith('</html>'):
                self.violate('slides', '%s: slide %s is missing or incomplete' % (self.where, name))
                break
        return out

    def op_exec(self, op):
        def args():
            if self.kind == 'lin':
                xs = [self.lin_data(c) for c in op['chunks']]
                return (xs[0] if op['form'] == 'array' else xs), None, None
            cc = op['chunks']
            xs = [b01.arr(c['x']) for c in cc]
            ms = [build_msg(c['m']) for c in cc]
            t = op.get('target')
            if op['form'] == 'array':
                return xs[0], ms[0], t
            return (None if xs[0] is None else xs), (None if all(v is None for v in ms) and xs[0] is not None
                                                     else ms), None if t is None else [t] * len(cc)
        x, m, t = args()
        del LOG[:]
        counts = []
        ref = self.ref
        if self.kind == 'lin':
            want = self.call(lambda: ref.execute(x), op['s'])
        else:
            want = self.call(lambda: ref.execute(x, m, t), op['s'])
        rlog = list(LOG)
        del LOG[:]
        x, m, t = args()
        before = norm(x), norm(m)
        path = self.disk.path(op['path'])
        self.faults(op)
        flow, mode = self.flow, op['mode']
        if mode != 'plain' and any(isinstance(n, mdp.hinet.CloneLayer) and any(
                m.is_training() or op.get('fail') for m in everything(n.nodes)) for n in everything(flow)):
            # the first of the clones is inspected as a copy
            raise Skip('clones in training')
        open_ = sum(n.is_training() for n in leaves(flow))
        if mode == 'plain':
            got = self.call(lambda: flow.execute(x) if self.kind == 'lin' else flow.execute(x, m, t), op['s'])
        else:
            f = insp.show_execution if mode == 'show' else insp.inspect_execution
            kw = {'open_browser': False} if mode == 'show' else {}
            got = self.call(lambda: f(flow, x, m, t, path=path, name=op['name'], debug=op['debug'],
                                      show_size=op['size'], **kw), op['s'])
        log = list(LOG)
        if log != rlog:
            n = [i for i in range(min(len(log), len(rlog))) if log[i] != rlog[i]] or [min(len(log), len(rlog))]
            if not self.disk.fired:
                self.violate('calls', '%s: call %d is %s, without inspection %s' % (
                    self.where, n[0], log[n[0]:n[0] + 1], rlog[n[0]:n[0] + 1]))
        go = self.same(got, want, op)
        if self.res.violations or not go:
            return go
        if str((norm(x), norm(m))) != str(before):
            self.violate('arguments-changed', '%s: data or message were changed' % self.where)
        if mode == 'plain' or got[0] == 'fail':
            if got[0] == 'ok' and str(norm(got[1])) != str(norm(want[1])):
                self.violate('result', '%s: results differ' % self.where)
            return True
        page, y = got[1]
        if want[0] == 'ok' and str(norm(y)) != str(norm(want[1])):
            self.violate('result', '%s: result %s, without inspection %s' % (
                self.where, str(norm(y))[:200], str(norm(want[1]))[:200]))
            return True
        if want[0] == 'fail' and y is not None:
            self.violate('result', '%s: result of a failed execution' % self.where)
        slides = self.page(page, path) if mode == 'show' else self.slides(page, path)
        if want[0] == 'ok' and self.kind == 'bi' and len(slides) != len(rlog):
            self.violate('slides', '%s: %d slides for %d calls' % (self.where, len(slides), len(rlog)))
        if want[0] == 'ok' and self.kind == 'lin':
            k = 1 if op['form'] == 'array' else len(op['chunks'])
            n = k * len(leaves(flow))
            if len(slides) < n or not open_ and len(slides) > n:
                self.violate('slides', '%s: %d slides for %d nodes (%d open) and %d chunks' % (
                    self.where, len(slides), len(leaves(flow)), open_, k))
        return True

    def op_copy(self, op):
        for f in ('flow', 'ref'):
            r = self.call(lambda: getattr(self, f).copy(), 1)
            if r[0] == 'fail':
                # (suspended coroutines)
                return False
            setattr(self, f, r[1])

    def op_save(self, op):
        for f in ('flow', 'ref'):
            r = self.call(lambda: pickle.loads(getattr(self, f).save(None)), 1)
            if r[0] == 'fail':
                return False
            setattr(self, f, r[1])

    def op_stop(self, op):
        """Use one of the nodes on its own."""
        res = []
        for f in (self.flow, self.ref):
            n = f[op['i']]
            res.append(self.call(lambda: (n.is_training() and n.stop_training(), None)[1], op['s'])[0])
        if res[0] != res[1]:
            self.violate('outcome', '%s: %s, without inspection %s' % (self.where, res[0], res[1]))


def run(case):
    return hist.run_hist(case, Run)


def simplify(case):
    for c in hist.drop(case['ops'], 'ops', case):
        yield c
    for i, op in enumerate(case['ops']):
        if op.get('faults'):
            for c in hist.drop(op['faults'], 'faults', op):
                yield dict(case, ops=case['ops'][:i] + [c] + case['ops'][i + 1:])
        for k, v in (('debug', False), ('size', False), ('form', 'lists'), ('stops', None), ('mode', 'plain'),
                     ('path', 'p')):
            if k in op and op[k] != v:
                yield dict(case, ops=case['ops'][:i] + [dict(op, **{k: v})] + case['ops'][i + 1:])
