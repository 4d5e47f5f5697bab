"""Online nodes with exact integer state and a plain Python reference of them."""
import numpy as np

import mdp


class OnFailure(Exception):
    """Failure injected into an online node."""


def code(x):
    s = float(np.sum(x)) * 8
    return int(round(s)) % 1009 if np.isfinite(s) else 7


class VOn(mdp.OnlineNode):
    """The output depends on everything seen so far and on its order.

    fail: numbers of the update steps which fail (once, before anything changes).
    """

    def __init__(self, nargs=0, rand=False, fail=(), tt=None, input_dim=None, output_dim=None, dtype=None,
                 numx_rng=None):
        self.nargs = nargs
        self.rand = rand
        self.fail = list(fail)
        self.calls = 0
        self.acc = 1
        self.log = []
        super(VOn, self).__init__(input_dim=input_dim, output_dim=output_dim, dtype=dtype, numx_rng=numx_rng)
        self.closed = 0
        if tt:
            self.set_training_type(tt)

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def _train(self, x, *args):
        if len(args) != self.nargs:
            raise OnFailure('%d arguments' % len(args))
        self.calls += 1
        if self.calls in self.fail:
            raise OnFailure('planned')
        it = self.get_current_train_iteration()
        r = int(self.numx_rng.randint(100)) if self.rand else 0
        self.acc = (self.acc * 31 + code(x) + 7 * it + r + sum(int(a) for a in args)) % 97
        self.log.append([len(x), code(x)])

    def _stop_training(self):
        self.closed += 1

    def _execute(self, x):
        return x + self.acc

    def _inverse(self, y):
        return y - self.acc


class VOnArg(VOn):
    """VOn with one required argument."""

    def _train(self, x, tag):
        super(VOnArg, self)._train(x, tag)


class Refused(Exception):
    pass


def learn_dims(ref, node):
    """Containers may tell their nodes the dimensions before data arrives."""
    if ref.input_dim is None and node.input_dim is not None:
        ref.input_dim = node.input_dim
    if ref.output_dim is None and node.output_dim is not None and not (ref.is_trainable() and ref.is_training()):
        ref.output_dim = node.output_dim


class Ref(object):
    bad = None

    def set_rng(self, rng):
        pass


class RefVOn(Ref):
    """Reference of VOn."""
    online = True
    invertible = True

    def __init__(self, p, rng):
        self.p = p
        self.rng = rng
        self.nargs = p.get('nargs', 0)
        self.rand = p.get('rand')
        self.fail = p.get('fail', ())
        self.tt = p.get('tt') or 'incremental'
        self.dim = p.get('input_dim')
        self.calls = self.closed = self.it = 0
        self.acc = 1
        self.log = []
        self.started = self.done = False

    trainable = True

    def set_rng(self, rng):
        self.rng = rng

    def training(self):
        return not self.done

    def step(self, x, args):
        self.calls += 1
        if self.calls in self.fail:
            raise Refused('planned')
        r = int(self.rng.randint(100)) if self.rand else 0
        self.acc = (self.acc * 31 + code(x) + 7 * self.it + r + sum(int(a) for a in args)) % 97
        self.log.append([len(x), code(x)])
        self.it += len(x)

    def check(self, x):
        if self.dim is None:
            self.dim = x.shape[1]
        if self.dim != x.shape[1]:
            raise Refused('dim')

    def precheck(self, x):
        pass

    def train(self, x, *args):
        if self.done:
            raise Refused('finished')
        self.check(x)
        self.started = True
        if self.tt == 'batch':
            self.step(x, args)
        else:
            for i in range(len(x)):
                self.step(x[i:i + 1], args)

    def execute(self, x):
        if not self.started and not self.done:
            if self.nargs:
                raise Refused('arguments missing')
            self.train(x)
        self.check(x)
        return x + self.acc

    def inverse(self, y):
        if self.dim is None:
            raise Refused('dim')
        if y.shape[1] != self.dim:
            raise Refused('dim')
        return y - self.acc

    def stop(self):
        if self.done or not self.started:
            raise Refused('stop')
        self.closed += 1
        self.done = True

    def compare(self, n):
        if self.dim is None:
            # containers may tell their nodes the dimension before data arrives
            self.dim = n.input_dim
        a = (self.acc, self.log, self.it, self.closed, self.training(), self.dim)
        b = (n.acc, n.log, n.get_current_train_iteration(), n.closed, n.is_training(), n.input_dim)
        if a != b:
            k = [i for i in range(6) if a[i] != b[i]]
            return 'VOn: %s expected %s (%s)' % ([b[i] for i in k if i != 1] or [len(n.log)],
                                                 [a[i] for i in k if i != 1] or [len(self.log)],
                                                 [['state', 'updates', 'iteration', 'closed', 'training', 'dim'][i] for i in k])


class RefReal(Ref):
    """A real online node driven step by step through its private methods."""
    online = True
    trainable = True

    def __init__(self, node, rng):
        self.n = node
        self.invertible = node.is_invertible()
        self.started = self.done = False
        self.nargs = 0
        self.rand = rng is not None

    def set_rng(self, rng):
        self.n.numx_rng = rng

    @property
    def tt(self):
        return self.n.training_type or 'incremental'

    @property
    def it(self):
        return self.n._train_iteration

    @property
    def dim(self):
        return self.n.input_dim

    def training(self):
        return not self.done

    def precheck(self, x):
        if self.tt == 'batch' and type(self.n).__name__ == 'IncSFANode' and len(x) < 2:
            raise Refused('too short')

    def train(self, x):
        if self.done:
            raise Refused('finished')
        n = self.n
        if n.input_dim is not None and n.input_dim != x.shape[1]:
            raise Refused('dim')
        n._check_input(x)
        self.precheck(x)
        n._check_params(x)
        x = n._refcast(x)
        self.started = True
        n._train_phase_started = True
        if self.tt == 'batch':
            n._train(x)
            n._train_iteration += len(x)
        else:
            for i in range(len(x)):
                n._train(x[i:i + 1])
                n._train_iteration += 1

    def execute(self, x):
        if not self.started and not self.done:
            self.train(x)
        n = self.n
        if n.input_dim != x.shape[1]:
            raise Refused('dim')
        if n.output_dim is None:
            n.output_dim = n.input_dim
        return n._execute(n._refcast(x))

    def inverse(self, y):
        n = self.n
        if n.output_dim is None:
            n.output_dim = n.input_dim
        if y.shape[1] != n.output_dim:
            raise Refused('dim')
        return n._inverse(n._refcast(y))

    def stop(self):
        if self.done or not self.started:
            raise Refused('stop')
        self.done = True
        self.n._train_phase = 1
        self.n._train_phase_started = False
        self.n._training = False

    def compare(self, n):
        from . import compare
        learn_dims(self.n, n)
        d = compare.diff(n, self.n, rtol=1e-9, sign=False, skip={'_dtype'})
        return d and '%s: %s' % (type(n).__name__, d)


class RefStatic(Ref):
    """Untrainable or already trained node."""
    online = False
    it = 0
    nargs = 0
    rand = False
    tt = None
    started = True
    done = True

    def __init__(self, node):
        self.n = node
        self.trainable = node.is_trainable()
        self.invertible = node.is_invertible()

    def set_rng(self, rng):
        if isinstance(self.n, mdp.OnlineNode):
            self.n.numx_rng = rng

    @property
    def dim(self):
        return self.n.input_dim

    def training(self):
        return False

    def precheck(self, x):
        pass

    def execute(self, x):
        try:
            return self.n.execute(x)
        except (mdp.NodeException, TypeError) as e:
            raise Refused(str(e))

    def inverse(self, y):
        try:
            return self.n.inverse(y)
        except mdp.NodeException as e:
            raise Refused(str(e))

    def stop(self):
        raise Refused('stop')

    def compare(self, n):
        from . import compare
        learn_dims(self.n, n)
        if n.is_training():
            return 'trained node is training'
        d = compare.diff(n, self.n, rtol=1e-9, sign=False, skip={'_dtype'})
        return d and '%s: %s' % (type(n).__name__, d)


class RefTerminal(RefStatic):
    """Trainable offline node at the end of a flow."""
    started = False

    def __init__(self, node, nargs):
        super(RefTerminal, self).__init__(node)
        self.nargs = nargs

    @property
    def done(self):
        return not self.n.is_training()

    def training(self):
        return self.n.is_training()

    def train(self, x, *args):
        try:
            self.n.train(x, *args)
        except mdp.NodeException as e:
            raise Refused(str(e))

    def stop(self):
        try:
            self.n.stop_training()
        except mdp.NodeException as e:
            raise Refused(str(e))

    def compare(self, n):
        from . import compare
        learn_dims(self.n, n)
        if n.is_training() != self.n.is_training() or n.get_current_train_phase() != self.n.get_current_train_phase():
            return '%s: phase %s/%s expected %s/%s' % (type(n).__name__, n.is_training(), n.get_current_train_phase(),
                                                       self.n.is_training(), self.n.get_current_train_phase())
        d = compare.diff(n, self.n, rtol=1e-7, sign=False, lazy=compare.LAZY)
        return d and '%s: %s' % (type(n).__name__, d)


class RefGroup(Ref):
    """Common part of layers and flow nodes."""
    online = True
    nargs = 0

    def __init__(self, subs, tt=None):
        self.subs = subs
        self.invertible = all(s.invertible for s in subs)
        self.trainable = any(s.training() for s in subs)
        self.started = False
        self.done = not self.trainable
        self.it = 0
        self.inferred = 'batch' if any(s.tt_set() == 'batch' if hasattr(s, 'tt_set') else s.tt == 'batch' for s in subs) else None
        self._tt = self.inferred or tt
        self.bad = ([s.bad for s in subs if s.bad] or [None])[0]
        self.rand = any(s.rand for s in subs)

    def set_rng(self, rng):
        for s in self.subs:
            s.set_rng(rng)

    @property
    def tt(self):
        return self._tt or 'incremental'

    def tt_set(self):
        return self._tt

    def training(self):
        return not self.done

    def precheck(self, x):
        pass

    def train(self, x):
        if self.done:
            raise Refused('finished')
        if self.dim is not None and x.shape[1] != self.dim:
            raise Refused('dim')
        self.precheck(x)
        first = not self.started
        self.started = True
        try:
            if self.tt == 'batch':
                self.step(x)
                self.it += len(x)
            else:
                for i in range(len(x)):
                    self.step(x[i:i + 1])
                    self.it += 1
        except Refused:
            # its nodes may not be ready now
            self.broken = self.broken or first
            raise

    broken = False

    def execute(self, x):
        if self.broken:
            raise ValueError('first training failed')
        if not self.started and not self.done:
            self.train(x)
        if self.dim is not None and x.shape[1] != self.dim:
            raise Refused('dim')
        return self.run(x)

    def stop(self):
        if self.done or not self.started:
            raise Refused('stop')
        if self.broken:
            raise ValueError('first training failed')
        for s in self.distinct():
            if s.training():
                s.stop()
        self.done = True

    def distinct(self):
        out = []
        for s in self.subs:
            if not any(s is o for o in out):
                out.append(s)
        return out

    def compare(self, n):
        a = (self.it, self.training())
        b = (n.get_current_train_iteration(), n.is_training())
        if self.trainable and a != b:
            return '%s: iteration, training %s, expected %s' % (type(n).__name__, b, a)
        for s, m in zip(self.subs, n):
            d = s.compare(m)
            if d:
                return '%s of %s' % (d, type(n).__name__)


class RefLayer(RefGroup):

    def __init__(self, subs, kind, tt=None):
        super(RefLayer, self).__init__(subs, tt)
        self.kind = kind
        if kind == 'same':
            self.invertible = False

    @property
    def dim(self):
        return self.subs[0].dim if self.kind == 'same' else sum(s.dim for s in self.subs)

    def parts(self, x):
        k = 0
        for s in self.subs:
            if self.kind == 'same':
                yield s, x
            else:
                yield s, x[:, k:k + s.dim]
                k += s.dim

    def precheck(self, x):
        for s, p in self.parts(x):
            if s.training():
                s.precheck(p)

    def step(self, x):
        for s, p in self.parts(x):
            if s.training():
                s.train(p)

    def run(self, x):
        return np.hstack([s.execute(p) for s, p in self.parts(x)])

    def inverse(self, y):
        # all nodes keep the dimension when this is used
        return np.hstack([s.inverse(p) for s, p in self.parts(y)])


class RefFlowNode(RefGroup):

    @property
    def dim(self):
        return self.subs[0].dim

    def step(self, x):
        last = max(i for i, s in enumerate(self.subs) if s.trainable)
        for i, s in enumerate(self.subs[:last + 1]):
            if s.training():
                s.train(x)
            if i < last:
                x = s.execute(x)

    def run(self, x):
        for s in self.subs:
            x = s.execute(x)
        return x

    def inverse(self, y):
        for s in reversed(self.subs):
            y = s.inverse(y)
        return y


class RefCircNode(RefFlowNode):

    def __init__(self, subs, iters, ignore, tt=None):
        super(RefCircNode, self).__init__(subs, tt)
        self.iters = iters
        self.ignore = ignore
        self.stored = None
        self.out = len(subs) - 1

    def step(self, x):
        if self.ignore:
            if self.stored is None:
                raise Refused('nothing stored')
            x = self.stored
        for _ in range(self.iters):
            for s in self.subs:
                if s.training():
                    s.train(x)
                x = s.execute(x)
        self.stored = x.copy()

    def run(self, x):
        for s in self.subs[:self.out + 1]:
            x = s.execute(x)
        return x

    def inverse(self, y):
        for s in reversed(self.subs[:self.out + 1]):
            y = s.inverse(y)
        return y
