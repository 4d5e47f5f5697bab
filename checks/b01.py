"""B01: routing, messages, training and resets of bidirectional flows, against an independent router."""
import copy
import pickle

import numpy as np

import mdp
import bimdp
from vsim import binodes
from vsim.binodes import LOG, Program, RouteFailure, answer, build_msg, norm
from checks import hist

RUNS = {'quick': 6000, 'thorough': 120000}
LEVEL = 'simulated histories, independent reference router'
RULE = ('every call of every node (order, data, message entries), every result, merged message and refusal is the '
        'one prescribed by the return values; after each chunk and each failure all nodes start anew')
COMPONENTS = {'real': ['bimdp.BiFlow', 'bimdp.BiCheckpointFlow', 'bimdp.BiNode', 'bimdp.binode_coroutine',
                       'bimdp.hinet.BiFlowNode', 'MessageResultContainer', 'mdp.Node', 'pickle/copy'],
              'stub': ['nodes with programmed return values and failures', 'data sources']}
MEASURE = 'distinct routing programs x histories x failure points'

SIG = {'x': ((), ()), 'a': (('a',), ('a',)), 'ao': (('a',), ()), 'ab': (('a', 'b'), ()), 'm': (('msg',), ()),
       'am': (('a', 'msg'), ()), 'tm': ((), ()), 'co': (('a',), ())}
TSIG = {'tm': ('a', 'msg')}


class Refuse(Exception):
    """The library has to raise an error here."""


class End(Exception):
    """Nothing is specified from here on."""


# ---------------------------------------------------------------- reference

def normal(raw):
    """x, message, target, number of values of a return value."""
    if not isinstance(raw, tuple):
        return raw, None, None, 1
    if len(raw) == 2:
        return raw[0], raw[1], None, 2
    if len(raw) == 3:
        return raw[0], raw[1], raw[2], 3
    raise Refuse('surplus values')


class MNode(object):

    def __init__(self, spec):
        self.spec = spec
        self.name = spec.get('name')
        self.kind = spec['kind']
        self.id = spec.get('id')
        self.phase = 0
        self.started = False
        self.program = Program(spec)
        self.copos = None
        self.inner = [MNode(s) for s in spec['nodes']] if self.kind == 'flow' else []
        self.request = None
        self.stop_result = None
        if spec.get('stop_result') is not None:
            self.stop_result = [(build_msg(m), t) for m, t in spec['stop_result']]

    # training state
    @property
    def phases(self):
        if self.kind == 'flow':
            return sum(n.phases for n in self.inner)
        return self.spec.get('phases', 0)

    @property
    def done(self):
        if self.kind == 'flow':
            return sum(n.done for n in self.inner)
        return self.phase

    @property
    def training(self):
        return self.done < self.phases

    def has_id(self, name):
        if self.kind == 'norm':
            return False
        if self.id == name:
            return True
        return any(n.has_id(name) for n in self.inner)

    def note_request(self, name):
        """The node was found as a named target."""
        if self.kind == 'flow' and self.id != name:
            for n in self.inner:
                if n.has_id(name):
                    self.request = name
                    n.note_request(name)
                    break

    def reset(self):
        if self.kind == 'norm':
            return
        self.program.reset()
        self.copos = None
        self.request = None
        for n in self.inner:
            n.reset()

    def log(self, method, x, args):
        if len(LOG) > 400:
            # the program never ends
            raise End()
        LOG.append([self.name, method, norm(x), norm(args)])

    def do(self, method, x, args, default=lambda x: x):
        if 'msg' in args and not args['msg']:
            args = dict(args, msg=None)
        self.log(method, x, args)
        return answer(self.program.next(method), x, default)

    # message parsing
    def parse(self, msg):
        """Split the entries for this node off.  (rest, entries for this node)"""
        rest, mine = {}, {}
        for k, v in msg.items():
            if k.find('->') > 0:
                nid, key = k.split('->')
                if nid == self.id and self.id is not None:
                    mine[key] = v
                    continue
            rest[k] = v
        return rest, mine

    @staticmethod
    def magic(key, rest, mine):
        if key in mine:
            return mine.pop(key)
        return rest.get(key)

    @staticmethod
    def args_of(sig, rest, mine):
        args = dict((k, rest[k]) for k in rest if k in sig and k != 'msg')
        for k, v in mine.items():
            if k in sig:
                args[k] = v
        if 'msg' in sig:
            if 'msg' in mine or 'msg' in rest:
                raise End()
            args['msg'] = dict(rest)
            return args, None
        return args, rest

    @staticmethod
    def combine(raw, base, target):
        """(x, msg, target, number of values)"""
        if not isinstance(raw, tuple):
            msg = dict(base) if base else None
            if target is not None:
                return (raw, msg, target)
            return (raw, msg) if msg else raw
        if len(raw) > 3:
            raise Refuse('surplus values')
        msg = raw[1]
        if base:
            msg = dict(base)
            msg.update(raw[1] or {})
        if len(raw) == 3:
            return (raw[0], msg, raw[2])
        if target is not None:
            return (raw[0], msg, target)
        return (raw[0], msg)

    # the methods of the node itself
    def method_execute(self, x, args):
        kind = self.kind
        sig, req = SIG[kind]
        if kind == 'co':
            return self.coroutine(x, args)
        for k in req:
            if k not in args:
                raise Refuse('missing argument')
        full = dict((k, None) for k in sig)
        full.update(args)
        return self.do('execute', x, full)

    def coroutine(self, x, args):
        acts = self.program.prog.get('co') or []
        if self.copos is None:
            self.copos = 0
            full = {'a': None}
        else:
            full = {'a': None, 'b': None}
        full.update(args)
        k = self.copos
        if k >= len(acts):
            self.copos = None
            self.log('co_end', x, full)
            return None
        act = acts[k]
        self.log('co%d' % k, x, full)
        self.copos = None if act.get('return') and not act.get('fail') else k + 1
        return answer(act, x, lambda x: x)

    def method_inverse(self, x, args):
        full = {'a': None}
        full.update(args)
        return self.do('inverse', x, full, lambda x: None if x is None else x - 1)

    def method_alt(self, x, args):
        full = {'b': None}
        full.update(args)
        return self.do('alt', x, full, lambda x: None if x is None else x + 100)

    def method_train(self, x, args):
        full = dict((k, None) for k in TSIG.get(self.kind, ('a', 'b')))
        full.update(args)
        return self.do('train%d' % self.phase, x, full, lambda x: None)

    def method_stop(self, args):
        full = {'c': None}
        full.update(args)
        self.log('stop%d' % self.phase, None, full)
        acts = self.program.prog.get('stop') or []
        return answer(acts[self.phase] if self.phase < len(acts) else {}, None, lambda x: None)

    def select(self, method, default, sigs, target):
        """(function, signature, target, is the inverse)"""
        if not method:
            return default, sigs, target
        if method == 'inverse':
            return self.method_inverse, ('a',), -1 if target is None else target
        if method == 'alt':
            return self.method_alt, ('b',), target
        if method == 'execute':
            sig = SIG[self.kind][0]
            if self.kind == 'co' and self.copos is not None:
                sig = ('a', 'b')
            return self.method_execute, sig, target
        raise Refuse('no such method')

    # the calls a flow makes
    def execute(self, x, msg):
        if self.kind == 'norm':
            if x is None:
                raise Refuse('normal node without data')
            self.check_trained()
            self.log('execute', x, {})
            return x + 1
        if msg is None:
            if x is None:
                # refused, or executed if the message is an empty one
                raise End()
            self.check_trained()
            if self.kind == 'flow':
                return self.flow_execute(x, None)
            return self.method_execute(x, {})
        if x is None and not msg:
            raise End()
        rest, mine = self.parse(msg)
        target = self.magic('target', rest, mine)
        method = self.magic('method', rest, mine)
        if self.kind == 'flow':
            target = self.flow_method(method, target)
            fn, sig = self.flow_execute_args, ('msg',)
        else:
            sig = SIG[self.kind][0]
            if self.kind == 'co' and self.copos is not None:
                sig = ('a', 'b')
            fn, sig, target = self.select(method, self.method_execute, sig, target)
        args, base = self.args_of(sig, rest, mine)
        if x is not None and (not method or method == 'execute' or fn == self.method_inverse):
            self.check_trained()
        return self.combine(fn(x, args), base, target)

    def check_trained(self):
        if self.training:
            # the library may close the training or start one here
            raise End()

    def train(self, x, msg):
        if not self.training:
            raise Refuse('training finished')
        if self.kind == 'norm':
            if x is None:
                raise Refuse('normal node without data')
            self.started = True
            self.log('train%d' % self.phase, x, {})
            return None
        if self.kind == 'flow':
            default, sig = self.flow_train_args, ('msg',)
        else:
            default, sig = self.method_train, TSIG.get(self.kind, ('a', 'b'))
        if msg is None:
            if x is None:
                # refused, or executed if the message is an empty one
                raise End()
            self.started = True
            raw = default(x, {})
            if isinstance(raw, tuple) and len(raw) > 3:
                raise Refuse('surplus values')
            return raw
        if x is None and not msg:
            raise End()
        rest, mine = self.parse(msg)
        target = self.magic('target', rest, mine)
        method = self.magic('method', rest, mine)
        if self.kind == 'flow':
            target = self.flow_method(method, target)
            fn = default
        elif method == 'train':
            fn, sig = self.method_train, TSIG.get(self.kind, ('a', 'b'))
        else:
            fn, sig, target = self.select(method, default, sig, target)
        args, base = self.args_of(sig, rest, mine)
        if x is not None:
            if not method or method == 'train':
                self.started = True
            elif fn == self.method_inverse:
                self.check_trained()
        if fn == default:
            self.started = True
        raw = fn(x, args)
        if raw is None:
            return None
        raw = self.combine(raw, base, target)
        if isinstance(raw, tuple) and len(raw) == 2 and raw[0] is None:
            return None
        return raw

    def stop_training(self, msg):
        if not self.started:
            raise Refuse('no data')
        if not self.training:
            raise Refuse('training finished')
        if self.kind == 'norm':
            if msg is not None:
                raise Refuse('stop message for a normal node')
            self.log('stop%d' % self.phase, None, {})
            self.phase += 1
            self.started = False
            return None
        target = None
        if not msg:
            raw = self.flow_stop(None) if self.kind == 'flow' else self.method_stop({})
            base = msg
        else:
            rest, mine = self.parse(msg)
            target = self.magic('target', rest, mine)
            method = self.magic('method', rest, mine)
            if self.kind == 'flow':
                if method == 'inverse':
                    raise End()
                args, base = self.args_of(('msg',), rest, mine)
                raw = self.flow_stop(args['msg'])
            else:
                if method:
                    raise End()
                args, base = self.args_of(('c',), rest, mine)
                raw = self.method_stop(args)
        phase = self.phase
        if self.kind != 'flow':
            self.phase += 1
        self.started = False
        if self.stop_result is not None:
            smsg, starget = self.stop_result[phase]
            new = dict(smsg)
            new.update(base or {})
            base = new
            if target is None:
                target = starget
        return self.combine(raw, base, target)

    # a flow as a node
    def flow_method(self, method, target):
        if method == 'inverse' and self.request is None:
            if target == -1:
                target = None
            if target is None:
                self.request = len(self.inner) - 1
        return target

    def entry(self):
        r, self.request = self.request, None
        if r is None:
            return 0
        if isinstance(r, int):
            return r
        return find(self.inner, r)

    def flow_execute_args(self, x, args):
        return self.flow_execute(x, args.get('msg'))

    def flow_execute(self, x, msg):
        return leave(route(self.inner, x, msg, self.entry()))

    def current(self):
        for i, n in enumerate(self.inner):
            if n.training:
                return i
        raise Refuse('training finished')

    def flow_train_args(self, x, args):
        msg = args.get('msg')
        i = self.entry()
        nr = self.current()
        node = self.inner[nr]
        while True:
            out = route(self.inner, x, msg, i, stop=nr)
            if out[0] != 'stop':
                return leave(out)
            raw = node.train(out[1], out[2])
            if raw is None:
                return None
            x, msg, target, _ = normal(raw)
            out = step(self.inner, nr, x, msg, target)
            if out[0] != 'at':
                return leave(out)
            i = out[1]

    def flow_stop(self, msg):
        nr = self.current()
        node = self.inner[nr]
        raw = node.stop_training(msg if node.kind != 'norm' else None)
        if raw is None:
            return None
        x, msg, target, _ = normal(raw)
        out = step(self.inner, nr, x, msg, target)
        if out[0] == 'end':
            # the target stays an explicit one
            return (x, msg, 1) if target is not None else (x, msg)
        if out[0] != 'at':
            return leave(out)
        return leave(route(self.inner, x, msg, out[1]))


def find(nodes, name):
    for i, n in enumerate(nodes):
        if n.has_id(name):
            n.note_request(name)
            return i
    return None


def step(nodes, i, x, msg, target):
    """Where the target leads from node i."""
    if target is None:
        target = 1
    if isinstance(target, int):
        j = i + target
        if j == len(nodes):
            return ('end', x, msg)
        if j == -1:
            return ('out', x, msg, -1)
        if not 0 <= j < len(nodes):
            raise Refuse('target outside of the flow')
        return ('at', j)
    if target != 'exit':
        j = find(nodes, target)
        if j is not None:
            return ('at', j)
    return ('out', x, msg, target)


def route(nodes, x, msg, i, stop=None):
    """('stop'|'end'|'out', x, msg[, target])"""
    steps = 0
    while i != stop:
        steps += 1
        if steps > 300:
            raise End()
        raw = nodes[i].execute(x, msg)
        if nodes[i].kind == 'norm':
            # the message passes by
            raw = (raw, msg)
        x, msg, target, k = normal(raw)
        if target is None and k == 3:
            raise End()
        out = step(nodes, i, x, msg, target)
        if out[0] != 'at':
            return out
        i = out[1]
    return ('stop', x, msg)


def leave(out):
    """Return value for the surrounding flow."""
    if out[0] == 'end':
        return (out[1], out[2]) if out[2] else out[1]
    return (out[1], out[2], out[3])


class MFlow(object):
    """The reference flow."""

    def __init__(self, specs):
        self.nodes = [MNode(s) for s in specs]

    def reset(self):
        for n in self.nodes:
            n.reset()

    def execute(self, chunks):
        """chunks: iterable of (x, msg, target)."""
        self.reset()
        ys, merged, n = [], [], 0
        for x, msg, target in chunks:
            n += 1
            i = 0
            if target:
                out = step(self.nodes, 0, x, msg, target)
                if out[0] != 'at':
                    raise Refuse('unknown start')
                i = out[1]
            out = route(self.nodes, x, dict(msg) if msg else msg, i)
            if out[0] == 'out' and out[3] not in (1, -1, 'exit'):
                raise Refuse('target not found')
            self.reset()
            merged.append(dict(out[2] or {}))
            ys.append(out[1])
            if (ys[-1] is None) != (ys[0] is None):
                raise Refuse('only some results are None')
            # the merging of the messages may fail as soon as two of them do not fit
            merge(merged)
        if not n:
            raise Refuse('no data')
        y = None if ys[0] is None else np.concatenate(ys)
        return y, merge(merged, True)

    def train(self, data, stops, checkpoints=None):
        """data[i]: function returning the chunks of node i."""
        self.reset()
        for i, node in enumerate(self.nodes):
            if node.training:
                while node.training:
                    self.train_phase(i, node, data[i](), stops[i])
                    self.reset()
            if checkpoints is not None and checkpoints[i]:
                LOG.append(['checkpoint', node.name, node.training, None])

    def train_phase(self, nr, node, chunks, stop):
        n = 0
        for x, msg in chunks:
            n += 1
            msg = dict(msg) if msg else msg
            i = 0
            while True:
                out = route(self.nodes, x, msg, i, stop=nr)
                if out[0] != 'stop':
                    raise Refuse('node not reached')
                raw = node.train(out[1], out[2])
                if raw is None:
                    break
                x, msg, target, _ = normal(raw)
                out = step(self.nodes, nr, x, msg, target)
                if out[0] != 'at':
                    raise Refuse('training continues outside of the flow')
                i = out[1]
            self.reset()
        if not n:
            raise Refuse('no data')
        raw = node.stop_training(dict(stop) if stop is not None else None)
        if raw is None:
            return
        x, msg, target, k = normal(raw)
        if k == 3 and target == 'exit':
            return
        out = step(self.nodes, nr, x, msg, target)
        if out[0] != 'at':
            raise Refuse('stop target outside of the flow')
        out = route(self.nodes, x, msg, out[1])
        if out[0] == 'out' and out[3] not in (1, -1, 'exit'):
            raise Refuse('target not found')


def merge(msgs, final=False):
    res = {}
    for m in msgs:
        for k, v in m.items():
            res.setdefault(k, []).append(v)
    out = {}
    for k, vals in res.items():
        arr = [isinstance(v, np.ndarray) for v in vals]
        if all(arr):
            if final:
                try:
                    out[k] = np.concatenate(vals)
                except ValueError:
                    raise Refuse('arrays do not fit')
            continue
        if any(arr):
            if not final:
                # which error comes first does not matter
                continue
            raise Refuse('types do not fit')
        tot = vals[0]
        for v in vals[1:]:
            if type(v) is not type(tot):
                # whatever the addition of these types gives
                raise End()
            tot = tot + v
        out[k] = tot
    return out


# ---------------------------------------------------------------- workload

KEYS = ['a', 'b', 'c', 'q']


def rand_val(rng, key):
    """Values of a key mostly have the same type."""
    kind = {'a': 'i', 'b': 'l', 'c': 'i', 'q': 'A'}[key]
    if rng.random() < 0.04:
        kind = rng.choice(['i', 'l', 's', 'A', 't'])
    if kind == 'i':
        return ['i', rng.randrange(1, 50)]
    if kind == 'l':
        return ['l', [rng.randrange(50) for _ in range(rng.randrange(1, 3))]]
    if kind == 's':
        return ['s', rng.choice('uvw')]
    if kind == 't':
        return ['t', [rng.randrange(9)]]
    return ['A', [rng.randrange(50) for _ in range(2 * rng.randrange(1, 3))]]


def rand_target(rng, ids, wild=0.06, at=None):
    r = rng.random()
    if r < wild:
        return rng.choice([-7, 9, 'nobody', -3, 5, 'exit', -2, 2, 3])
    if r < 0.05:
        return 'exit'
    if r < 0.5:
        i, n = at or (0, 1)
        if rng.random() < 0.08:
            # outside of the flow
            return rng.choice([-i - 1, -i - 1, -i - 2, -n - 1, n - i, n - i + 1])
        return rng.choice([1, 1, rng.randrange(n + 1) - i, rng.randrange(n + 1) - i, -1 if i else 1])
    if ids:
        return rng.choice(ids)
    return rng.choice([-1, 1])


def rand_msg(rng, ids, magic=0.1, wild=0.06):
    m = {}
    for _ in range(rng.randrange(1, 4)):
        key = rng.choice(KEYS)
        r = rng.random()
        if r < 0.45:
            m[key] = rand_val(rng, key)
        elif r < 0.9 and ids:
            m['%s->%s' % (rng.choice(ids), key)] = rand_val(rng, key)
        else:
            m['zz->%s' % key] = rand_val(rng, key)
    if ids and rng.random() < magic:
        m['%s->target' % rng.choice(ids)] = rand_target(rng, ids, wild)
    if ids and rng.random() < magic:
        m['%s->method' % rng.choice(ids)] = \
            rng.choice(['inverse', 'alt', 'execute', 'alt', 'nosuch' if rng.random() < wild else 'execute'])
    if rng.random() < magic / 5:
        m['method'] = 'inverse'
    if rng.random() < magic / 5:
        m['target'] = rng.choice(ids + [1, 2]) if ids else 1
    return m


def rand_act(rng, ids, train=False, wild=0.06, at=None):
    n = rng.choice([1, 2, 3, 3]) if rng.random() > wild / 4 else 4
    if train and rng.random() < 0.4:
        n = 0
    act = {'n': n, 'f': rng.randrange(1, 9)}
    if n == 0:
        return act
    if n >= 2:
        act['msg'] = rand_msg(rng, ids, wild=wild) if rng.random() < 0.7 else None
    if n >= 3:
        act['target'] = rand_target(rng, ids, wild, at)
    if rng.random() < 0.03:
        act['none'] = True
    if rng.random() < 0.04:
        act['mk'] = rng.randrange(1, 9)
    if rng.random() < 0.02:
        act['fail'] = True
    return act


def gen_nodes(rng, pre, depth, ids, wild):
    k = rng.randrange(1, 5) if depth else rng.randrange(1, 4)
    specs = []
    for i in range(k):
        name = '%s%d' % (pre, i)
        spec = {'name': name, 'kind': rng.choice(['x', 'x', 'a' if rng.random() < wild * 3 else 'ao', 'ao', 'ab', 'ab', 'm', 'am', 'tm', 'co', 'norm'])}
        if depth and rng.random() < 0.2:
            spec['kind'] = 'flow'
        if rng.random() < 0.8 and spec['kind'] != 'norm':
            spec['id'] = name if rng.random() < 0.95 else pre + '0'
            ids.append(spec['id'])
        if spec['kind'] == 'flow':
            spec['nodes'] = gen_nodes(rng, name + '.', depth - 1, ids, wild)
        elif rng.random() < 0.3:
            spec['phases'] = rng.choice([1, 1, 2])
        specs.append(spec)
    return specs


def fill(rng, specs, ids, wild):
    for pos, s in enumerate(specs):
        at = (pos, len(specs))
        if s['kind'] == 'flow':
            fill(rng, s['nodes'], ids, wild)
        elif s['kind'] != 'norm':
            prog = {}
            for meth in ('execute', 'inverse', 'alt'):
                if rng.random() < (0.6 if meth == 'execute' else 0.3):
                    prog[meth] = [rand_act(rng, ids, wild=wild, at=at) for _ in range(rng.randrange(1, 4))]
            if s['kind'] == 'co':
                acts = [rand_act(rng, ids, wild=wild, at=at) for _ in range(rng.randrange(1, 4))]
                if rng.random() < 0.5:
                    acts[-1]['return'] = True
                prog['co'] = acts
            for ph in range(s.get('phases', 0)):
                if rng.random() < 0.4:
                    prog['train%d' % ph] = [rand_act(rng, ids, True, wild=wild, at=at) for _ in range(rng.randrange(1, 3))]
            if s.get('phases') and rng.random() < 0.35:
                acts = [rand_act(rng, ids, True, wild=wild, at=at) for _ in range(s['phases'])]
                prog['stop'] = acts
            if s.get('phases') and rng.random() < 0.15:
                s['stop_result'] = [[rand_msg(rng, ids, 0.03, wild), rand_target(rng, ids, wild, at)]
                                    for _ in range(s['phases'])]
            s['prog'] = prog


def rand_x(rng):
    return [[rng.randrange(20), rng.randrange(20)] for _ in range(rng.randrange(1, 4))]


def gen_chunks(rng, ids, wild, none=None):
    n = rng.choice([1, 1, 2, 3])
    if none is None:
        none = rng.random() < 0.15
    res = []
    for _ in range(n):
        res.append({'x': None if none else rand_x(rng),
                    'm': rand_msg(rng, ids, wild=wild) if none or rng.random() < 0.6 else None})
    return res


def trainable(specs):
    return any(s.get('phases') or s['kind'] == 'flow' and trainable(s['nodes']) for s in specs)


def gen(rng):
    wild = rng.choice([0.0, 0.02, 0.06, 0.15])
    ids = []
    specs = gen_nodes(rng, 'n', 1, ids, wild)
    fill(rng, specs, ids, wild)
    ops = []
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        if r < 0.3 or not ops and (trainable(specs) or rng.random() < 0.2):
            n = len(specs)
            op = {'op': 'train', 'chunks': [gen_chunks(rng, ids, wild / 2) for _ in range(n)],
                  'stops': [rand_msg(rng, ids, 0.03) if rng.random() < 0.2 else None for _ in range(n)]}
            if rng.random() < 0.6:
                op['stops'] = None
            r2 = rng.random()
            op['form'] = 'lists' if r2 < 0.5 else 'iter' if r2 < 0.8 else 'once' if r2 < 0.85 else \
                'array' if r2 < 0.95 else 'nodata'
            if op['form'] == 'array':
                c = {'x': rand_x(rng), 'm': rand_msg(rng, ids, wild=wild / 2) if rng.random() < 0.5 else None}
                op['chunks'] = [[c]] * n
            if op['form'] == 'nodata':
                op['chunks'] = [gen_chunks(rng, ids, wild / 2, True) for _ in range(n)]
            if rng.random() < 0.15 and op['form'] != 'array':
                i = rng.randrange(n)
                op['srcfail'] = [i, rng.randrange(0, 3)]
            if rng.random() < 0.2:
                op['checkpoints'] = [rng.random() < 0.7 for _ in range(n)]
            ops.append(op)
        elif r < 0.85:
            chunks = gen_chunks(rng, ids, wild)
            for c in chunks:
                c['t'] = rand_target(rng, ids, wild) if rng.random() < 0.2 else None
            op = {'op': 'exec', 'chunks': chunks, 'form': rng.choice(['lists', 'lists', 'iter', 'array'])}
            if op['form'] == 'array':
                del chunks[1:]
            if rng.random() < 0.12 and op['form'] != 'array':
                op['srcfail'] = rng.randrange(0, 3)
            op['call'] = rng.random() < 0.2
            if op['call']:
                for c in chunks:
                    c['t'] = None
            ops.append(op)
        elif r < 0.95:
            ops.append({'op': rng.choice(['copy', 'pickle'])})
        else:
            ops.append({'op': 'lookup', 'id': rng.choice(ids + ['nobody'])})
    return {'nodes': specs, 'ops': ops, 'sched': {'trace': []}}


class Source(object):
    """Iterable which may fail."""

    def __init__(self, items, fail=None, once=False):
        self.items = items
        self.fail = fail
        self.once = once
        self.used = False

    def __iter__(self):
        if self.once and self.used:
            return
        self.used = True
        for k, it in enumerate(self.items):
            if self.fail == k:
                self.fail = None
                raise RouteFailure('source')
            yield it
        if self.fail is not None and self.fail >= len(self.items):
            self.fail = None
            raise RouteFailure('source')


def arr(x):
    return None if x is None else np.array(x, dtype=float)


class Run(hist.HRun):

    def setup(self):
        del LOG[:]

    def scenario(self, sim):
        case = self.case
        flow_cls = bimdp.BiCheckpointFlow if any(op.get('checkpoints') for op in case['ops']) else bimdp.BiFlow
        self.flow = flow_cls([binodes.make(s) for s in case['nodes']])
        self.model = MFlow(case['nodes'])
        for k, op in enumerate(case['ops']):
            self.k = k
            if not self.do(op):
                break

    def twice(self, real, ref):
        """Run both and compare; False if the history ends here."""
        del LOG[:]
        try:
            want = ('ok', ref())
        except End:
            self.res.count('unspecified')
            self.outcome = 'unspecified'
            return False
        except Refuse as e:
            want = ('refuse', str(e))
        except RouteFailure:
            want = ('fail',)
        self.outcome = want[0]
        rlog = list(LOG)
        del LOG[:]
        try:
            got = ('ok', real())
        except RouteFailure:
            got = ('fail',)
        except Exception as e:
            got = ('refuse', '%s: %s' % (type(e).__name__, e))
        log = list(LOG)
        del LOG[:]
        self.log(self.case['ops'][self.k]['op'], want[0], len(rlog))
        self.res.count('calls', len(log))
        self.res.count('outcome:' + want[0])
        where = 'op %d (%s)' % (self.k, self.case['ops'][self.k]['op'])
        n = min(len(log), len(rlog))
        for i in range(n):
            if log[i] != rlog[i]:
                self.violate('route' if log[i][:2] != rlog[i][:2] else 'message',
                             '%s: call %d is %s, should be %s' % (where, i, log[i], rlog[i]))
                return False
        if got[0] != want[0]:
            self.violate('result', '%s: %s instead of %s' % (where, got, want))
            return False
        if len(log) != len(rlog):
            self.violate('route', '%s: %d calls instead of %d: %s (%s, should be %s)' % (
                where, len(log), len(rlog), (log[n:] or rlog[n:])[:2], got, want))
            return False
        if got[0] == 'ok' and norm(got[1]) != norm(want[1]):
            self.violate('result', '%s: result %s should be %s' % (where, norm(got[1]), norm(want[1])))
            return False
        if want[0] != 'ok':
            self.res.count('fault:node or source' if want[0] == 'fail' else 'refused')
        return True

    def do(self, op):
        res = getattr(self, 'op_' + op['op'])(op)
        if res:
            self.owned()
        return res

    def owned(self):
        """The values the nodes hand out belong to them."""
        for node in binodes.real_nodes(self.flow):
            if isinstance(node, binodes.RNode):
                for acts in node.program.prog.values():
                    for a in acts:
                        if 'built' in a and norm(a['built']) != norm(build_msg(a['msg'])):
                            self.violate('foreign data changed', 'op %d: message of %s changed to %s' % (
                                self.k, node.spec['name'], norm(a['built'])))

    def op_exec(self, op):
        chunks = op['chunks']
        xs = [arr(c['x']) for c in chunks]
        ms = [build_msg(c['m']) for c in chunks]
        ts = [c.get('t') for c in chunks]
        fail = op.get('srcfail')

        def ref():
            def it():
                for k, c in enumerate(chunks):
                    if fail == k:
                        raise RouteFailure('source')
                    yield arr(c['x']), build_msg(c['m']), c.get('t')
                if fail is not None and fail >= len(chunks):
                    raise RouteFailure('source')
            return self.model.execute(it())

        def real():
            f = self.flow
            if op['form'] == 'array':
                x, m = xs[0], ms[0]
                t = ts[0]
            else:
                none = xs[0] is None
                seq = (lambda s: iter(s)) if op['form'] == 'iter' else (lambda s: s)
                x = None if none else seq(xs)
                m = None if all(v is None for v in ms) and not none else seq(ms)
                t = None if all(v is None for v in ts) else seq(ts)
                if fail is not None:
                    if none:
                        m = Source(ms, fail)
                    else:
                        x = Source(xs, fail)
            if op['call']:
                return f(x, m)
            return f.execute(x, m, t)

        ok = self.twice(real, ref)
        self.inputs(xs, ms, chunks)
        return ok

    def inputs(self, xs, ms, chunks):
        for x, m, c in zip(xs, ms, chunks):
            if norm(x) != norm(arr(c['x'])) or norm(m) != norm(build_msg(c['m'])):
                self.violate('foreign data changed', 'op %d: input changed to %s %s' % (self.k, norm(x), norm(m)))
                break

    def op_train(self, op):
        n = len(self.case['nodes'])
        stops = op['stops'] or [None] * n
        srcfail = op.get('srcfail') or [None, None]
        form = op['form']
        cps = op.get('checkpoints')
        if isinstance(self.flow, bimdp.BiCheckpointFlow) and cps is None:
            cps = [False] * n
        xs = [[arr(c['x']) for c in cc] for cc in op['chunks']]
        ms = [[build_msg(c['m']) for c in cc] for cc in op['chunks']]
        if form == 'array':
            xs = [xs[0]] * n
            ms = [ms[0]] * n
        rsrc = {}

        def source(i):
            cc = op['chunks'][i]
            if i not in rsrc:
                rsrc[i] = Source([(arr(c['x']), c) for c in cc], srcfail[1] if srcfail[0] == i else None,
                                 form == 'once')

            def it():
                for x, c in rsrc[i]:
                    yield x, build_msg(c['m'])
            return it

        def ref():
            for i, m in enumerate(self.model.nodes):
                if m.training and op['chunks'][i][0]['x'] is None and form not in ('nodata',):
                    pass
            return self.model.train([source(i) for i in range(n)], [build_msg(s) for s in stops], cps)

        def real():
            f = self.flow
            st = None if op['stops'] is None else [build_msg(s) for s in stops]
            if form == 'array':
                d, m = xs[0][0], ms[0][0]
            elif form == 'nodata':
                d = None
                m = [Source(ms[i], srcfail[1]) if srcfail[0] == i else ms[i] for i in range(n)]
            else:
                d, m = [], []
                for i in range(n):
                    none = xs[i][0] is None
                    bad = srcfail[1] if srcfail[0] == i else None
                    if none:
                        d.append(None)
                        m.append(Source(ms[i], bad, form == 'once'))
                        continue
                    m.append(None if all(v is None for v in ms[i]) else list(ms[i]))
                    if bad is not None or form == 'once':
                        d.append(Source(xs[i], bad, form == 'once'))
                    else:
                        d.append(list(xs[i]))
                if all(v is None for v in m):
                    m = None
            if cps is not None:
                def fn(i):
                    def g(node):
                        LOG.append(['checkpoint', self.case['nodes'][i].get('name'), node.is_training(), None])
                    return g
                return f.train(d, [fn(i) if c else None for i, c in enumerate(cps)], m, st)
            return f.train(d, m, st)

        ok = self.twice(real, ref)
        for i in range(n):
            self.inputs(xs[i], ms[i], op['chunks'][i] if form != 'array' else op['chunks'][0])
        if self.outcome != 'ok' and any(s['kind'] == 'flow' and m.phases for s, m in zip(
                self.case['nodes'], self.model.nodes)):
            # an inner node may have been stopped by then
            return False
        if ok:
            for i, (a, b) in enumerate(zip(self.flow, self.model.nodes)):
                if a.is_training() != b.training:
                    self.violate('training state', 'op %d: node %d is_training %s' % (self.k, i, a.is_training()))
        return ok

    def suspended(self, nodes):
        return any(n.copos is not None or self.suspended(n.inner) for n in nodes)

    def op_copy(self, op):
        if self.suspended(self.model.nodes):
            return False
        self.flow = self.flow.copy()
        return True

    def op_pickle(self, op):
        if self.suspended(self.model.nodes):
            return False
        self.flow = pickle.loads(self.flow.save(None))
        return True

    def op_lookup(self, op):
        nid = op['id']

        def ref():
            for n in self.model.nodes:
                if n.has_id(nid):
                    return True
            return False

        def real():
            found = nid in self.flow
            try:
                node = self.flow[nid]
            except KeyError:
                return False if not found else 'inconsistent'
            return found and node.node_id == nid
        return self.twice(real, ref)


def run(case):
    return hist.run_hist(case, Run)


def simplify(case):
    for c in hist.drop(case['ops'], 'ops', case):
        yield c
    nodes = case['nodes']
    if len(nodes) > 1 and not any(op['op'] == 'train' for op in case['ops']):
        for c in hist.drop(nodes, 'nodes', case):
            yield c
    for i, s in enumerate(nodes):
        for m in list(s.get('prog') or {}):
            t = dict(s, prog=dict((k, v) for k, v in s['prog'].items() if k != m))
            yield dict(case, nodes=nodes[:i] + [t] + nodes[i + 1:])
        if s.get('phases'):
            yield dict(case, nodes=nodes[:i] + [dict((k, v) for k, v in s.items() if k not in (
                'phases', 'stop_result'))] + nodes[i + 1:])
        if s['kind'] not in ('x', 'flow', 'norm'):
            yield dict(case, nodes=nodes[:i] + [dict(s, kind='x')] + nodes[i + 1:])
        for m, acts in (s.get('prog') or {}).items():
            for j, a in enumerate(acts):
                for key in ('msg', 'mk', 'none', 'f'):
                    if a.get(key):
                        b = dict((k, v) for k, v in a.items() if k != key)
                        t = dict(s, prog=dict(s['prog'], **{m: acts[:j] + [b] + acts[j + 1:]}))
                        yield dict(case, nodes=nodes[:i] + [t] + nodes[i + 1:])
    for i, op in enumerate(case['ops']):
        if op['op'] == 'exec' and len(op['chunks']) > 1:
            for c in hist.drop(op['chunks'], 'chunks', op):
                yield dict(case, ops=case['ops'][:i] + [c] + case['ops'][i + 1:])
        if op['op'] == 'exec':
            for j, c in enumerate(op['chunks']):
                if c['m'] and c['x'] is not None:
                    n = dict(op, chunks=op['chunks'][:j] + [dict(c, m=None)] + op['chunks'][j + 1:])
                    yield dict(case, ops=case['ops'][:i] + [n] + case['ops'][i + 1:])
