"""Programmed BiNodes which can be forked and joined."""
import numpy as np

import bimdp
import mdp
import mdp.parallel as par

from . import binodes
from .binodes import RouteFailure, answer, build_msg, norm


def code(x):
    """Integer describing data and messages, independent of the order of chunks."""
    s = repr(x)
    h = 7
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h


class Endless(Exception):
    """The routing does not come to an end."""


BUDGET = [None]


class Untrained(Exception):
    """A node is executed before it was trained."""


def check_trained(node):
    if BUDGET[0] is not None and node.is_training():
        raise Untrained()


_checks = mdp.Node._pre_execution_checks


def _pre_execution_checks(self, x):
    check_trained(self)
    return _checks(self, x)


def watch(limit):
    """Refuse endless routing and the execution of untrained nodes (None: stop this)."""
    BUDGET[0] = limit
    mdp.Node._pre_execution_checks = _checks if limit is None else _pre_execution_checks


def spend():
    if BUDGET[0] is not None:
        BUDGET[0] -= 1
        if BUDGET[0] < 0:
            raise Endless()


class PB(binodes.RNode):
    """The output depends on everything trained.

    seen: what each phase was trained with; elog: what was executed (if kept).
    """

    def __init__(self, spec, node_id=None, stop_result=None, input_dim=None, output_dim=None, dtype=None):
        super(PB, self).__init__(spec, node_id=node_id, stop_result=stop_result, input_dim=input_dim,
                                 output_dim=output_dim, dtype=dtype)
        self.seen = [[] for _ in range(self.phases)]
        self.stops = []
        self.elog = []
        self.off = 0
        self.plan = None

    def _fails(self, op):
        if self.plan == op:
            raise RouteFailure('%s fails' % op)

    def _do(self, method, x, args, default=lambda x: x):
        if args.get('a') == 'BOOM':
            raise RouteFailure('planned')
        spend()
        rec = [method, norm(x), norm(args)]
        if method.startswith('train'):
            self.seen[self._train_phase].append(rec)
        elif self.spec.get('ef'):
            self.elog.append(rec)
        if not method.startswith('train'):
            check_trained(self)
        y = answer(self.program.next(method), x, default)
        if not method.startswith('train'):
            if isinstance(y, tuple):
                y = (self._shift(y[0]),) + y[1:]
            else:
                y = self._shift(y)
        return y

    def _shift(self, y):
        return y if y is None else y + self.off

    def _stop_training(self, c=None):
        if c == 'BOOM' or self.plan == 'stop':
            raise RouteFailure('planned')
        k = self._train_phase
        self.stops.append([k, norm(c)])
        self.off += sum(code(r) for r in self.seen[k]) % 97 + (0 if c is None else 1)
        acts = self.program.prog.get('stop') or []
        return answer(acts[k] if k < len(acts) else {}, None, lambda x: None)

    def _execute(self, x, a=None, b=None):
        return self._do('execute', x, {'a': a, 'b': b})


class PBM(PB):

    def _execute(self, x, a=None, msg=None):
        return self._do('execute', x, {'a': a, 'msg': dict(msg) if msg else None})


class PBCo(PB):

    @bimdp.binode_coroutine(['a', 'b'], defaults=(None, None))
    def _execute(self, x, a=None):
        args = {'a': a}
        acts = self.program.prog.get('co') or []
        runs = self.program.pos.get('runs', 0)
        self.program.pos['runs'] = runs + 1
        if runs >= 3:
            # no endless loops
            return self._shift(x)
        for k, act in enumerate(acts):
            spend()
            if args.get('a') == 'BOOM':
                raise RouteFailure('planned')
            if self.spec.get('ef'):
                self.elog.append(['co%d' % k, norm(x), norm(args)])
            y = answer(act, x, lambda x: x)
            y = (self._shift(y[0]),) + y[1:] if isinstance(y, tuple) else self._shift(y)
            if act.get('return'):
                return y
            x, a, b = yield y
            args = {'a': a, 'b': b}
        return


class PBLocal(PB):
    """Can not be forked."""


class PBHalf(PB):
    """The second phase can not be forked."""


class PNorm(binodes.RNorm):
    """Normal node."""

    def __init__(self, spec, input_dim=None, output_dim=None, dtype=None):
        super(PNorm, self).__init__(spec, input_dim=input_dim, output_dim=output_dim, dtype=dtype)
        self.seen = [[] for _ in range(spec.get('phases', 0))]
        self.elog = []
        self.stops = []
        self.off = 0
        self.plan = None

    def _fails(self, op):
        if self.plan == op:
            raise RouteFailure('%s fails' % op)

    def _train(self, x):
        self.seen[self._train_phase].append(norm(x))

    def _stop_training(self):
        self._fails('stop')
        k = self._train_phase
        self.stops.append([k, norm(None)])
        self.off += sum(code(r) for r in self.seen[k]) % 97

    def _execute(self, x):
        if self.spec.get('ef'):
            self.elog.append(norm(x))
        return x + 1 + self.off


def _fork(self):
    self._fails('fork')
    f = self.copy()
    if self.is_training():
        f.seen[self._train_phase] = []
    f.elog = []
    return f


def _join(self, forked):
    self._fails('join')
    if self.is_training():
        k = self._train_phase
        self.seen[k].extend(forked.seen[k])
    self.elog.extend(forked.elog)


class PPB(par.ParallelExtensionNode, PB):

    def _fork(self):
        return _fork(self)

    def _join(self, forked):
        _join(self, forked)

    def use_execute_fork(self):
        return bool(self.spec.get('ef'))


class PPBLocal(par.ParallelExtensionNode, PBLocal):

    def _fork(self):
        if self.is_training():
            raise par.NotForkableParallelException('cannot be forked')
        return _fork(self)


class PPBHalf(par.ParallelExtensionNode, PBHalf):

    def _fork(self):
        if self.is_training() and self._train_phase % 2:
            raise par.NotForkableParallelException('phase cannot be forked')
        return _fork(self)


class PPNorm(par.ParallelExtensionNode, PNorm):

    def _fork(self):
        return _fork(self)

    def _join(self, forked):
        _join(self, forked)

    def use_execute_fork(self):
        return bool(self.spec.get('ef'))


KINDS = {'ab': PB, 'am': PBM, 'co': PBCo, 'loc': PBLocal, 'half': PBHalf}


def make(spec, dim=2):
    if spec['kind'] == 'norm':
        return PNorm(spec, input_dim=dim, dtype='d')
    if spec['kind'] == 'flow':
        flow = bimdp.BiFlow([make(s, dim) for s in spec['nodes']])
        return bimdp.hinet.BiFlowNode(flow, node_id=spec.get('id'), input_dim=dim, output_dim=dim, dtype='d')
    if spec['kind'] == 'clone':
        return bimdp.hinet.CloneBiLayer(make(spec['node'], dim // spec['n']), n_nodes=spec['n'],
                                        use_copies=spec.get('copies', False), node_id=spec.get('id'), dtype='d')
    if spec['kind'] == 'layer':
        # a normal layer of normal nodes
        return mdp.hinet.Layer([make(s, 1) for s in spec['nodes']])
    sr = spec.get('stop_result')
    if sr is not None:
        one = [(build_msg(m), t) for m, t in sr]
        sr = one[0] if len(one) == 1 else one
    return KINDS[spec['kind']](spec, node_id=spec.get('id'), stop_result=sr, input_dim=dim, dtype='d')


def leaves(nodes):
    for node in nodes:
        if isinstance(node, bimdp.hinet.BiFlowNode):
            for n in leaves(node._flow):
                yield n
        elif isinstance(node, mdp.hinet.CloneLayer):
            for n in leaves(node.nodes if node.node is None else [node.node]):
                yield n
        elif isinstance(node, mdp.hinet.Layer):
            for n in leaves(node.nodes):
                yield n
        else:
            yield node
