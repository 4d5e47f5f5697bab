"""F01: flow training delivers every chunk to every node; rejected edits change nothing."""
import copy
import random
import re

import numpy as np

import mdp
import mdp.parallel as par

from vsim import catalog, compare, subjects, vnodes
from . import hist, pflow_common as pc
from .hist import HRun, Skip

RUNS = {'quick': 6000, 'thorough': 250000}
RULE = ('random flows of recording and real nodes (containers, pre-trained, untrainable, same node twice) and 2-6 spare '
        'nodes; histories of 3-16 container edits (valid, refused, out of range, wrong types), trainings with all kinds of '
        'iterables (also wrong, one-shot, empty, failing ones), executions and inversions; distinct: workload or event log '
        'differs')
SHRINK = ['ops']
COMPONENTS = {'real': ['mdp.Flow, CheckpointFlow, ParallelFlow', 'nodes'], 'simulated': ['data sources']}
ASSUMPTIONS = ['reference: a list of nodes operated one by one', 'the last phase of a node may stay open until the node is '
               'executed', 'data for already trained nodes may be looked at']

ALGS = ['PCANode', 'WhiteningNode', 'SFANode', 'SFA2Node', 'CutoffNode', 'IdentityNode', 'PolynomialExpansionNode',
        'HistogramNode', 'EtaComputerNode', 'FDANode', 'LinearRegressionNode', 'GaussianClassifier', 'KMeansClassifier']
RECS = ['VAcc', 'VAcc', 'VCount', 'VPlain']


class SourceError(Exception):
    pass


class SourceBase(BaseException):
    pass


def gen(rng):
    d = rng.choice([2, 3, 4])
    nodes, chain = [], []
    cd = d
    rec = rng.random() < 0.6
    for i in range(rng.choice([1, 2, 3, 3, 4, 5])):
        s, cd2 = catalog.rand_stage(rng, cd, RECS if rec or rng.random() < 0.3 else ALGS, depth=0 if rng.random() < 0.2 else 9)
        if cd2 > 14:
            continue
        if rng.random() < 0.12 and catalog.is_trainable_spec(s):
            s['pre'] = rng.randrange(1000)
        elif rng.random() < 0.3 and (s.get('p') or {}).get('input_dim') and s['t'] not in ('FDANode',):
            del s['p']['input_dim']
        chain.append(len(nodes))
        nodes.append(s)
        cd = cd2
    dims = [d, d, cd, rng.choice([2, 3, 4, 6])]
    for i in range(rng.randint(1, 5)):
        s, _ = catalog.rand_node(rng, rng.choice(dims), RECS + (ALGS if not rec else []))
        if rng.random() < 0.3 and s['t'] != 'FDANode':
            s['p'].pop('input_dim', None)
        nodes.append(s)
    if not chain:
        chain = [0]
    nn = len(nodes)

    def idx():
        return rng.choice([0, 0, 1, 2, -1, -1, -2, 3, 7, -9])

    def sl():
        return [rng.choice([None, 0, 1, 2, -1, 5]), rng.choice([None, 0, 1, 2, 3, -1, 9]), rng.choice([None, None, None, 1, 2, -1])]

    def val():
        return rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]) % nn

    def vals():
        return [val() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    ops = []
    n_edit = rng.choice([0, 0, 2, 4, 10])
    for _ in range(n_edit):
        x = rng.choice(['set', 'set', 'setsl', 'setsl', 'del', 'delsl', 'insert', 'append', 'extend', 'pop', 'iadd', 'iadd',
                        'add', 'get', 'getsl', 'in', 'ctor'])
        bad = rng.random() < 0.1
        if x == 'set':
            ops.append([x, idx(), 'bad' if bad else val()])
        elif x == 'setsl':
            ops.append([x, sl(), vals() + (['bad'] if bad else []), rng.choice(['list', 'tuple', 'gen', 'flow', 'iter'])])
        elif x in ('del', 'get'):
            ops.append([x, idx()])
        elif x in ('delsl', 'getsl'):
            ops.append([x, sl()])
        elif x == 'insert':
            ops.append([x, idx(), 'bad' if bad else val()])
        elif x in ('append',):
            ops.append([x, 'bad' if bad else val()])
        elif x in ('extend', 'iadd', 'add'):
            ops.append([x, vals(), 'bad' if bad else rng.choice(['flow', 'flow', 'node', 'list', 'self'])])
        elif x == 'pop':
            ops.append([x, rng.choice([None, idx()])])
        elif x == 'in':
            ops.append([x, val()])
        elif x == 'ctor':
            ops.append([x, vals(), rng.choice(['list', 'tuple'])])
    runs = []
    for _ in range(rng.randint(1, 4)):
        x = rng.choice(['train', 'train', 'exec', 'exec', 'inv'])
        if not runs:
            x = 'train'
        op = [x, rng.randrange(10 ** 6)]
        if x == 'train':
            its = []
            for i in range(8):
                its.append({'kind': rng.choice(['list', 'list', 'class', 'class', 'class', 'gen', 'tuple', 'iter', 'array3']
                                               if rng.random() < .8 else ['none', 'class']),
                            'n': rng.choice([1, 2, 3, 4]), 'wrap': rng.choice(['plain', 'tuple', 'list'])})
            op.append(its)
            op.append(rng.random() < 0.12)            # single array
            f = None
            if rng.random() < 0.3:
                f = [rng.randrange(8), rng.choice(['empty', 'none', 'args', 'extra', 'raise', 'raisebase', 'noniter',
                                                   'count+', 'count-', 'notlist', 'dim']), rng.randrange(3)]
            op.append(f)
        else:
            op.append([rng.randint(1, 6) for _ in range(rng.randint(0, 4))])
            op.append(rng.choice(['list', 'gen', 'array', 'tuple', 'class', 'call']))
            op.append(rng.choice([None, None, None, 0, 1, 2, -1, 9]) if x == 'exec' else None)
        runs.append(op)
    k = 0
    for r in runs:
        ops.insert(rng.randint(k, len(ops)), r)
        k = ops.index(r) + 1
    return {'nodes': nodes, 'chain': chain, 'd': d, 'cls': rng.choice(['Flow', 'Flow', 'CheckpointFlow', 'ParallelFlow']),
            'ops': ops, 'nseed': rng.randrange(10 ** 6), 'sched': {'trace': []}}


class Source(object):
    """Counts how often it is iterated and how many items are taken."""

    def __init__(self, items, fail=None):
        self.items = items
        self.fail = fail
        self.starts = 0
        self.taken = 0

    def __iter__(self):
        self.starts += 1
        for i, x in enumerate(self.items):
            if self.fail and self.fail[0] == i:
                raise self.fail[1]
            self.taken += 1
            yield x


class Refused(Exception):
    """The reference refuses the operation."""


class F01(HRun):
    def scenario(self, sim):
        case = self.case
        np.random.seed(case['nseed'])
        random.seed(case['nseed'])
        try:
            self.pool = [catalog.make(s) for s in case['nodes']]
        except mdp.NodeException:
            raise Skip('ill-conditioned pre-training')
        self.twins = {id(n): copy.deepcopy(n) for n in self.pool}
        self.spec = {id(n): s for n, s in zip(self.pool, case['nodes'])}
        self.cls = getattr(mdp, case['cls'], None) or getattr(par, case['cls'])
        self.given = [self.pool[i] for i in case['chain']]
        self.caller = list(self.given)
        self.model = list(self.given)
        if not self.consistent(self.given):
            raise Skip('dimensions')
        self.flow = self.cls(self.given)
        for op in case['ops']:
            if not self.op(op) or self.res.violations:
                break

    # -- reference of the container operations
    @staticmethod
    def consistent(nodes):
        for a, b in zip(nodes, nodes[1:]):
            if a.output_dim is not None and b.input_dim is not None and a.output_dim != b.input_dim:
                return False
        return True

    def node(self, k):
        return 'not a node' if k == 'bad' else self.pool[k]

    def op(self, op):
        kind = op[0]
        if kind in ('train', 'exec', 'inv'):
            return getattr(self, 'do_' + kind)(*op[1:])
        new = list(self.model)
        err = None
        ret = None
        dims = [(n.input_dim, n.output_dim, n.dtype) for n in self.pool]
        flow = self.flow
        try:
            if kind == 'set':
                def f():
                    flow[op[1]] = self.node(op[2])
                if op[2] == 'bad':
                    raise TypeError
                new[op[1]] = self.node(op[2])
            elif kind == 'setsl':
                v = [self.node(k) for k in op[2]]
                arg = {'list': list, 'tuple': tuple, 'gen': lambda v: (x for x in v), 'iter': iter,
                       'flow': lambda v: self.cls(v) if 'not a node' not in v and self.consistent(v) else list(v)}[op[3]](v)

                def f():
                    flow[slice(*op[1])] = arg
                if 'not a node' in v:
                    raise TypeError
                new[slice(*op[1])] = v
            elif kind == 'del':
                def f():
                    del flow[op[1]]
                del new[op[1]]
            elif kind == 'delsl':
                def f():
                    del flow[slice(*op[1])]
                del new[slice(*op[1])]
            elif kind == 'get':
                def f():
                    return flow[op[1]]
                ret = new[op[1]]
            elif kind == 'getsl':
                def f():
                    return flow[slice(*op[1])]
                ret = new[slice(*op[1])]
            elif kind == 'insert':
                def f():
                    return flow.insert(op[1], self.node(op[2]))
                if op[2] == 'bad':
                    raise TypeError
                new.insert(op[1], self.node(op[2]))
            elif kind == 'append':
                def f():
                    return flow.append(self.node(op[1]))
                if op[1] == 'bad':
                    raise TypeError
                new.append(self.node(op[1]))
            elif kind == 'pop':
                def f():
                    return flow.pop() if op[1] is None else flow.pop(op[1])
                ret = new.pop() if op[1] is None else new.pop(op[1])
            elif kind == 'in':
                def f():
                    return self.pool[op[1]] in flow
                ret = any(self.pool[op[1]] is n for n in new)
            elif kind == 'ctor':
                v = [self.pool[k] for k in op[1]]

                def f():
                    return self.cls(v if op[2] == 'list' else tuple(v))
                ret = v
            elif kind in ('extend', 'iadd', 'add'):
                v = [self.pool[k] for k in op[1]]
                how = op[2]
                if how == 'node' and (kind == 'extend' or not v):
                    how = 'list'
                if how == 'flow' and not self.consistent(v):
                    v = v[:1]
                arg = {'bad': lambda: 5, 'flow': lambda: self.cls(v), 'node': lambda: v[0], 'list': lambda: v,
                       'self': lambda: flow}[how]()
                if how == 'self':
                    v = list(new)
                elif how == 'node':
                    v = v[:1]

                def f():
                    if kind == 'extend':
                        return flow.extend(arg)
                    if kind == 'iadd':
                        r = self.flow
                        r += arg
                        if r is not self.flow:
                            self.violate('edit-result', 'in-place addition gives another flow')
                        return None
                    return flow + arg
                if how in ('bad', 'list'):
                    raise TypeError
                if kind == 'add':
                    ret = new + v
                else:
                    new += v
            if isinstance(ret, list):
                if not self.consistent(ret):
                    raise ValueError
            elif kind not in ('get', 'in') and not self.consistent(new):
                raise ValueError
        except (IndexError, ValueError, TypeError) as e:
            err = type(e)
            new = list(self.model)
            ret = None
        try:
            got = f()
            res = None
        except (IndexError, ValueError, TypeError) as e:
            res = type(e)
            got = None
        what = '%s on %d nodes' % (op, len(self.model))
        self.log(kind, res and res.__name__, len(new))
        self.sim.count('edits')
        if res is not None:
            self.sim.count('refused-edits')
        if (res is None) != (err is None):
            self.violate('edit-accepted' if res is None else 'edit-refused', '%s: %s, expected %s' % (what, res, err))
            return False
        if not same(list(self.flow), new) or len(self.flow) != len(new):
            self.violate('edit-content', '%s: flow has other nodes than the list (%s)' % (what, res))
            return False
        if [(n.input_dim, n.output_dim, n.dtype) for n in self.pool] != dims:
            self.violate('edit-changes-nodes', what)
            return False
        if err is None:
            if isinstance(ret, list):
                if not isinstance(got, mdp.Flow) or not same(list(got), ret) or type(got) is not self.cls:
                    self.violate('edit-result', '%s: %s' % (what, type(got).__name__))
                # the new flow is independent
                elif kind != 'ctor' and len(got):
                    del got[-1]
                    if not same(list(self.flow), new):
                        self.violate('edit-shared', '%s: editing the result changes the flow' % what)
            elif kind in ('get', 'pop', 'in') and got is not ret:
                self.violate('edit-result', '%s: %s' % (what, got))
        self.model = new
        if not same(self.given, self.caller):
            self.violate('callers-list-changed', what)
        return True

    # -- reference of training and execution
    def twin(self, i):
        return self.twins[id(self.model[i])]

    def seq(self, x, n):
        for i in range(n):
            x = self.twin(i).execute(x)
        return x

    def required(self, n):
        if isinstance(n, mdp.hinet.Layer):
            return 0
        k = catalog.args_of(n)
        return 1 if k is not None else 0

    def make_data(self, seed, its, single, fault):
        """Iterables for the flow, items per node, refusal expected (or None)."""
        rs = np.random.RandomState(seed)
        model = self.model
        d = model[0].input_dim or self.case['d']
        if fault is not None:
            fi = fault[0] % len(model)
        if single:
            x = catalog.ints(rs, 30, d)
            x[:, 0] = np.arange(30)
            return x, [[(x,)]] * len(model), [None] * len(model)
        data, items, srcs = [], [], []
        start = 1
        for i, n in enumerate(model):
            it = its[i % len(its)]
            kind = it['kind']
            f = fault[1] if fault is not None and fi == i else None
            if f is None and kind == 'none' and not n.is_training():
                data.append(None)
                items.append(None)
                srcs.append(None)
                continue
            akind = catalog.args_of(n)
            if isinstance(n, mdp.hinet.Layer) and akind is not None:
                raise Skip('layer with arguments')
            its_i = []
            for c in range(it['n']):
                m = rs.randint(12, 20)
                x = catalog.ints(rs, m, d)
                x[:, 0] = np.arange(start, start + m)
                start += m
                a = catalog.make_args(rs, x, akind)
                if akind == 'label' and not isinstance(a[0], (list, np.ndarray)):
                    a = (np.arange(m) % 2,)
                its_i.append((x,) + a)
            k = fault[2] % len(its_i) if fault is not None else 0
            fail = None
            if f == 'empty':
                its_i = []
            elif f == 'args':
                its_i[k] = its_i[k][:1]
            elif f == 'extra':
                its_i[k] = its_i[k] + (1.0, 2.0)
            elif f == 'dim':
                its_i[k] = (np.hstack([its_i[k][0], its_i[k][0]]),) + its_i[k][1:]
            elif f == 'raise':
                fail = [k, SourceError('planned')]
            elif f == 'raisebase':
                fail = [k, SourceBase('planned')]
            items.append(its_i if f != 'none' else None)
            wrap = it['wrap']
            seq = [t[0] if len(t) == 1 and wrap == 'plain' else list(t) if wrap == 'list' else t for t in its_i]
            if fail or kind in ('class', 'none'):
                src = Source(seq, fail)
                srcs.append(src)
                data.append(src)
            else:
                srcs.append(None)
                if kind == 'array3' and its_i and all(len(t) == 1 for t in its_i):
                    m = min(len(t[0]) for t in its_i)
                    items[-1] = [(t[0][:m],) for t in its_i]
                    if len({t[0].shape for t in items[-1]}) > 1:
                        raise Skip('no array')
                    data.append(np.array([t[0] for t in items[-1]]))
                elif kind in ('gen', 'iter'):
                    data.append(iter(seq) if kind == 'iter' else (x for x in seq))
                else:
                    data.append(tuple(seq) if kind == 'tuple' else list(seq))
            if f == 'none':
                data[-1] = items[-1] = None
            elif f == 'noniter':
                data[-1] = 5
        if fault is not None:
            if fault[1] == 'count+':
                data.append([])
            elif fault[1] == 'count-':
                data.pop()
            elif fault[1] == 'notlist':
                data = tuple(data)
        return data, items, srcs

    def ref_train(self, data, items, fault):
        """Train the twins; raise Refused(node, reason)."""
        model = self.model
        fi = fault[0] % len(model) if fault is not None else None
        f = fault[1] if fault is not None else None
        if f in ('count+', 'count-', 'notlist', 'noniter'):
            raise Refused(None, f)
        for i, n in enumerate(model):
            t = self.twin(i)
            if items[i] is None:
                if t.is_training():
                    raise Refused(i, 'none')
                continue
            if not t.is_training():
                # data of trained nodes may be looked at
                if t.is_trainable() and items[i]:
                    try:
                        self.seq(items[i][0][0], i)
                    except Exception as e:
                        raise Refused(i, 'error %s' % type(e).__name__)
                continue
            kind = type(data[i]).__name__ if isinstance(data, list) else 'array'
            oneshot = kind in ('generator', 'list_iterator')
            first = True
            while True:
                if not items[i]:
                    raise Refused(i, 'empty')
                if oneshot and not first:
                    raise Refused(i, 'oneshot')
                first = False
                for k, item in enumerate(items[i]):
                    if f in ('raise', 'raisebase') and fi == i and k == fault[2] % len(items[i]):
                        raise Refused(i, f)
                    if len(item) - 1 != self.required(t):
                        raise Refused(i, 'args')
                    try:
                        t.train(self.seq(item[0], i), *item[1:])
                    except Exception as e:
                        raise Refused(i, 'error %s' % type(e).__name__)
                if t.get_remaining_train_phase() > 1:
                    try:
                        t.stop_training()
                    except Exception as e:
                        raise Refused(i, 'error %s' % type(e).__name__)
                else:
                    break
        t = self.twin(len(model) - 1)
        if t.is_training():
            try:
                t.stop_training()
            except Exception as e:
                raise Refused(len(model) - 1, 'error %s' % type(e).__name__)

    def seed(self, seed):
        np.random.seed(seed)
        random.seed(seed)

    def do_train(self, seed, its, single, fault):
        if not self.model:
            return True
        if any(n.is_training() and self.model.index(n) != i for i, n in enumerate(self.model)):
            raise Skip('training a node which is in the flow twice')
        if fault is not None and not self.model[fault[0] % len(self.model)].is_training() and not fault[1].startswith('count'):
            fault = None
        if single and any(not n.is_training() and catalog.args_of(n) is not None for n in self.model):
            return True
        data, items, srcs = self.make_data(seed, its, single, fault)
        if single:
            fault = None
        training = [n.is_training() for n in self.model]
        phases = [n.get_remaining_train_phase() if n.is_training() else 0 for n in self.model]
        self.seed(seed)
        want = None
        snap = {id(n): copy.deepcopy(n) for n in self.model}
        try:
            self.ref_train(data, items, fault)
        except Refused as e:
            want = e.args
        self.seed(seed)
        err = None
        try:
            with np.errstate(all='ignore'):
                if self.case['cls'] == 'CheckpointFlow':
                    self.flow.train(data, None)
                else:
                    self.flow.train(data)
        except SourceBase as e:
            err = e
        except Exception as e:
            err = e
        self.sim.count('trainings')
        self.log('train', type(err).__name__, want and want[1])
        what = 'training %s nodes' % len(self.model)
        if want is None and err is not None:
            self.violate('train-fails', '%s: %s: %s' % (what, type(err).__name__, str(err)[-300:]))
            return False
        if want is not None and err is None:
            self.violate('train-not-refused', '%s: expected %s' % (what, want))
            return False
        if not same(list(self.flow), self.model) or not same(self.given, self.caller):
            self.violate('train-changes-flow', what)
            return False
        if err is not None:
            i, reason = want
            self.sim.count('fault:data-%s' % reason.split()[0])
            if reason == 'raisebase':
                if not isinstance(err, SourceBase):
                    self.violate('wrong-error', '%s: %s for an error which is no Exception' % (what, type(err).__name__))
            elif not isinstance(err, mdp.FlowException):
                self.violate('wrong-error', '%s: %s instead of a flow exception (%s)' % (what, type(err).__name__, want))
            elif i is not None and not re.search(r'\b(%d|%d)\b' % (i, i + 1), str(err)):
                self.violate('wrong-error', '%s: node %d is not named: %s' % (what, i, str(err)[-200:]))
            elif reason in ('empty', 'oneshot') and not re.search('empty|repeat|iterat', str(err)):
                self.violate('wrong-error', '%s: the problem (%s) is not named: %s' % (what, reason, str(err)[-200:]))
            elif reason in ('raise',) and 'SourceError' not in str(err):
                self.violate('wrong-error', '%s: the error of the data source is not named' % what)
            # nodes behind the one which failed have seen nothing, also nothing if the whole call is refused
            first = 0 if i is None else i + 1
            upto = [id(x) for x in self.model[:first]]
            for k in range(first, len(self.model)):
                n = self.model[k]
                if id(n) in upto:
                    continue
                df = compare.diff(n, snap[id(n)], sign=False)
                if df:
                    self.violate('refused-training-changes-node', '%s: %s, node %d: %s' % (what, want, k, df))
                    return False
            return False
        if not self.compare(what):
            return False
        for n in self.model:
            self.close(n)
            self.close(self.twins[id(n)])
        for i, s in enumerate(srcs):
            if s is None or self.model.index(self.model[i]) != i:
                continue
            n = self.model[i]
            if not n.is_trainable():
                if s.starts:
                    self.violate('untrainable-data-used', '%s: data of node %d' % (what, i))
            elif training[i]:
                if s.starts != phases[i] or s.taken != phases[i] * len(s.items):
                    self.violate('data-not-used-once', '%s: node %d with %d phases: %d iterations, %d items of %d' % (
                        what, i, phases[i], s.starts, s.taken, len(s.items)))
        return True

    def close(self, t):
        """The last phase of an intermediate node may stay open."""
        if t.is_training() and t._train_phase_started and t.get_remaining_train_phase() == 1:
            self.seed(7)
            t.stop_training()

    def compare(self, what):
        for i, n in enumerate(self.model):
            a, b = copy.deepcopy(n), copy.deepcopy(self.twin(i))
            err = []
            for t in (a, b):
                try:
                    self.close(t)
                except Exception as e:
                    err.append(type(e))
            if err:
                if len(err) != 2 or err[0] is not err[1]:
                    self.violate('close', '%s: node %d: %s' % (what, i, err))
                return False
            if (a.is_training(), a.get_current_train_phase()) != (b.is_training(), b.get_current_train_phase()):
                self.violate('phase', '%s: node %d: %s, expected %s' % (
                    what, i, (a.is_training(), a.get_current_train_phase()), (b.is_training(), b.get_current_train_phase())))
                return False
            la, lb = catalog.leaves(a), catalog.leaves(b)
            for x, y in zip(la, lb):
                if isinstance(x, vnodes.VAcc) and (x.log != y.log or x.args != y.args):
                    self.violate('delivery', '%s: node %d got %s' % (what, i, [pc.summary(p, q) for p, q in zip(x.log, y.log)
                                                                              if p != q]))
                    return False
            df = compare.diff(a, b, rtol=1e-7, sign=False, lazy=compare.LAZY, skip={'elog'})
            if df:
                self.violate('state', '%s: node %d (%s): %s' % (what, i, type(n).__name__, df))
                return False
        return True

    def do_exec(self, seed, lens, kind, nodenr):
        return self.apply('exec', seed, lens, kind, nodenr)

    def do_inv(self, seed, lens, kind, nodenr):
        return self.apply('inv', seed, lens, kind, nodenr)

    def apply(self, what, seed, lens, kind, nodenr):
        if not self.model:
            return True
        rs = np.random.RandomState(seed)
        first = self.model[0 if what == 'exec' else -1]
        d = (first.input_dim if what == 'exec' else first.output_dim) or self.case['d']
        chunks = [catalog.ints(rs, n, d) for n in lens]
        if kind == 'array':
            chunks = chunks[:1] or [catalog.ints(rs, 5, d)]
        n = len(self.model) if nodenr is None else nodenr + 1
        want = None
        self.seed(seed)
        try:
            if not chunks:
                raise Refused('empty')
            if n > len(self.model):
                raise Refused('nodenr')
            if what == 'exec':
                want = np.concatenate([self.seq(x, n) for x in chunks])
            else:
                out = []
                for x in chunks:
                    for i in range(len(self.model) - 1, -1, -1):
                        x = self.twin(i).inverse(x)
                    out.append(x)
                want = np.concatenate(out)
        except Exception as e:
            want = e
        self.seed(seed)
        src = {'list': list, 'gen': lambda c: (x for x in c), 'array': lambda c: c[0], 'tuple': tuple,
               'class': Source, 'call': list}[kind](chunks)
        try:
            if what == 'inv':
                got = self.flow.inverse(src)
            elif kind == 'call':
                got = self.flow(src) if nodenr is None else self.flow(src, nodenr)
            else:
                got = self.flow.execute(src) if nodenr is None else self.flow.execute(src, nodenr=nodenr)
        except Exception as e:
            got = e
        self.sim.count('executions')
        t = '%s of %d nodes (%s, %s)' % (what, len(self.model), kind, nodenr)
        self.log(what, type(want).__name__, type(got).__name__)
        if isinstance(want, Exception) != isinstance(got, Exception):
            self.violate('execute-outcome', '%s: %s, expected %s' % (t, str(got)[-200:], str(want)[-200:]))
            return False
        if isinstance(want, Exception):
            if str(want) != 'nodenr' and not isinstance(got, mdp.FlowException):
                self.violate('wrong-error', '%s: %s instead of a flow exception (%s)' % (t, type(got).__name__, want))
            return False
        df = compare.diff(got, want, rtol=1e-9, sign=False)
        if df:
            self.violate('execute-result', '%s: %s' % (t, df))
            return False
        return self.compare(t)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def run(case):
    return hist.run_hist(case, F01)


def simplify(case):
    for i, op in enumerate(case['ops']):
        if op[0] == 'train':
            if op[4]:
                o = list(op)
                o[4] = None
                yield dict(case, ops=case['ops'][:i] + [o] + case['ops'][i + 1:])
            if any(it != {'kind': 'list', 'n': 1, 'wrap': 'tuple'} for it in op[2]):
                o = list(op)
                o[2] = [{'kind': 'list', 'n': 1, 'wrap': 'tuple'}] * 8
                yield dict(case, ops=case['ops'][:i] + [o] + case['ops'][i + 1:])
    if len(case['chain']) > 1:
        for i in range(len(case['chain'])):
            yield dict(case, chain=case['chain'][:i] + case['chain'][i + 1:])
