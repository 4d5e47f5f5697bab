"""Nodes whose return values are prescribed by a program, for routing tests."""
import copy

import numpy as np

import mdp
import bimdp

#: every call of a node: (node name, method, x, arguments)
LOG = []


class RouteFailure(Exception):
    """Failure injected into a node or a data source."""


def build(v):
    """Message value of a description."""
    kind, val = v
    if kind == 'i':
        return int(val)
    if kind == 'l':
        return list(val)
    if kind == 's':
        return str(val)
    if kind == 't':
        return tuple(val)
    return np.array(val, dtype=float).reshape(-1, 2)


def build_msg(m):
    if m is None:
        return None
    return dict((k, v if k.split('->')[-1] in ('target', 'method') else build(v)) for k, v in m.items())


def norm(v):
    """Comparable form of data, messages and results."""
    if isinstance(v, np.ndarray):
        return ['A'] + [norm(r) for r in v.tolist()]
    if isinstance(v, dict):
        return ['D'] + sorted([[str(k), norm(x)] for k, x in v.items()], key=lambda e: e[0])
    if isinstance(v, tuple):
        return ['T'] + [norm(x) for x in v]
    if isinstance(v, list):
        return ['L'] + [norm(x) for x in v]
    if isinstance(v, (bool, np.bool_)) or v is None:
        return repr(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return v if isinstance(v, str) else repr(type(v))


class Program(object):
    """Next action of a method, shared by the real nodes and the reference."""

    def __init__(self, spec):
        self.prog = copy.deepcopy(spec.get('prog') or {})
        for acts in self.prog.values():
            for a in acts:
                if a.get('msg') is not None:
                    a['built'] = build_msg(a['msg'])
        self.pos = {}

    def next(self, method):
        acts = self.prog.get(method) or []
        k = self.pos.get(method, 0)
        self.pos[method] = k + 1
        if k < len(acts):
            return acts[k]
        return {}

    def reset(self, keep=()):
        self.pos = dict((k, v) for k, v in self.pos.items() if k in keep)


def answer(act, x, default):
    """Return value of an action."""
    if act.get('fail'):
        raise RouteFailure('planned')
    if not act:
        return default(x)
    y = x
    if act.get('mk'):
        y = np.array([[float(act['mk'])] * 2])
    elif act.get('none'):
        y = None
    elif x is not None:
        y = x + act.get('f', 0)
    n = act.get('n', 1)
    if n == 0:
        return None
    if n == 1:
        return y
    # the same objects are handed out each time
    msg = act.get('built')
    msg = dict(msg) if msg is not None else None
    if n == 2:
        return (y, msg)
    if n == 3:
        return (y, msg, act['target'])
    return (y, msg, act.get('target', 1), 'surplus')


class RNode(bimdp.BiNode):
    """Base of the programmed nodes; the subclasses define the signatures."""

    def __init__(self, spec, node_id=None, stop_result=None, input_dim=2, output_dim=None, dtype='d'):
        self.spec = spec
        self.phases = spec.get('phases', 0)
        self.program = Program(spec)
        self.stops = 0
        super(RNode, self).__init__(node_id=node_id, stop_result=stop_result, input_dim=input_dim,
                                    output_dim=output_dim, dtype=dtype)

    def is_trainable(self):
        return self.phases > 0

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.phases

    def _do(self, method, x, args, default=lambda x: x):
        LOG.append([self.spec['name'], method, norm(x), norm(args)])
        return answer(self.program.next(method), x, default)

    def _train(self, x, a=None, b=None):
        return self._do('train%d' % self._train_phase, x, {'a': a, 'b': b}, lambda x: None)

    def _stop_training(self, c=None):
        LOG.append([self.spec['name'], 'stop%d' % self._train_phase, norm(None), norm({'c': c})])
        acts = self.program.prog.get('stop') or []
        return answer(acts[self._train_phase] if self._train_phase < len(acts) else {}, None, lambda x: None)

    def _execute(self, x):
        return self._do('execute', x, {})

    def _inverse(self, x, a=None):
        return self._do('inverse', x, {'a': a}, lambda x: None if x is None else x - 1)

    def _alt(self, x, b=None):
        return self._do('alt', x, {'b': b}, lambda x: None if x is None else x + 100)

    def _bi_reset(self):
        self.program.reset()


class RA(RNode):
    sig = ('a',)
    req = ('a',)

    def _execute(self, x, a):
        return self._do('execute', x, {'a': a})


class RAo(RNode):
    sig = ('a',)
    req = ()

    def _execute(self, x, a=None):
        return self._do('execute', x, {'a': a})


class RAB(RNode):
    sig = ('a', 'b')
    req = ()

    def _execute(self, x, a=None, b=None):
        return self._do('execute', x, {'a': a, 'b': b})


class RM(RNode):
    sig = ('msg',)
    req = ()

    def _execute(self, x, msg=None):
        return self._do('execute', x, {'msg': dict(msg) if msg else None})


class RAM(RNode):
    sig = ('a', 'msg')
    req = ()

    def _execute(self, x, a=None, msg=None):
        return self._do('execute', x, {'a': a, 'msg': dict(msg) if msg else None})


class RTM(RNode):
    """The training gets the whole message."""
    sig = ()
    req = ()
    tsig = ('a', 'msg')

    def _train(self, x, a=None, msg=None):
        return self._do('train%d' % self._train_phase, x, {'a': a, 'msg': dict(msg) if msg else None},
                        lambda x: None)


class RCo(RNode):
    """The execution is a coroutine."""
    sig = ('a',)
    req = ()

    @bimdp.binode_coroutine(['a', 'b'], defaults=(None, None))
    def _execute(self, x, a=None):
        args = {'a': a}
        acts = self.program.prog.get('co') or []
        for k, act in enumerate(acts):
            LOG.append([self.spec['name'], 'co%d' % k, norm(x), norm(args)])
            if act.get('return'):
                # the last value of the coroutine
                return answer(act, x, lambda x: x)
            x, a, b = yield answer(act, x, lambda x: x)
            args = {'a': a, 'b': b}
        LOG.append([self.spec['name'], 'co_end', norm(x), norm(args)])
        return


class RNorm(mdp.Node):
    """A normal node."""

    def __init__(self, spec, input_dim=2, output_dim=None, dtype='d'):
        self.spec = spec
        super(RNorm, self).__init__(input_dim=input_dim, output_dim=output_dim, dtype=dtype)

    def is_trainable(self):
        return self.spec.get('phases', 0) > 0

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _get_train_seq(self):
        return [(self._train, self._stop_training)] * self.spec.get('phases', 0)

    def _train(self, x):
        LOG.append([self.spec['name'], 'train%d' % self._train_phase, norm(x), norm({})])

    def _stop_training(self):
        LOG.append([self.spec['name'], 'stop%d' % self._train_phase, norm(None), norm({})])

    def _execute(self, x):
        LOG.append([self.spec['name'], 'execute', norm(x), norm({})])
        return x + 1

    def _inverse(self, x):
        return x - 1


RNode.sig = ()
RNode.req = ()
RNode.tsig = ('a', 'b')
KINDS = {'x': RNode, 'a': RA, 'ao': RAo, 'ab': RAB, 'm': RM, 'am': RAM, 'tm': RTM, 'co': RCo}


def make(spec):
    """Build the node of a spec."""
    if spec['kind'] == 'norm':
        return RNorm(spec)
    if spec['kind'] == 'flow':
        flow = bimdp.BiFlow([make(s) for s in spec['nodes']])
        return bimdp.hinet.BiFlowNode(flow, node_id=spec.get('id'), input_dim=2, output_dim=2, dtype='d')
    sr = spec.get('stop_result')
    if sr is not None:
        one = [(build_msg(m), t) for m, t in sr]
        sr = one[0] if len(one) == 1 else one
    return KINDS[spec['kind']](spec, node_id=spec.get('id'), stop_result=sr)


def real_nodes(nodes):
    for node in nodes:
        if isinstance(node, bimdp.hinet.BiFlowNode):
            for n in real_nodes(node._flow):
                yield n
        else:
            yield node
