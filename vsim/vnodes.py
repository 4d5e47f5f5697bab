"""Recording and failing node classes (also imported by workers).

Column 0 of the data carries sample ids; it is passed through unchanged by all
nodes here, so that every node can record exactly which samples it was given.
"""
import numpy as np

import bimdp
import mdp
import mdp.parallel as par


class NodeFailure(Exception):
    """Failure injected into a node."""


class VAcc(mdp.Node):
    """Multi-phase trainable node recording all samples of every phase.

    plan: list of [op, key] where the node fails: op one of train, exec, stop,
    fork, join; key is (phase, sample id) resp. sample id resp. phase.
    """

    def __init__(self, phases=1, nargs=0, scale=1.0, plan=(), name='a',
                 input_dim=None, output_dim=None, dtype=None):
        self.phases = phases
        self.nargs = nargs
        self.scale = scale
        self.plan = [list(p) for p in plan]
        self.name = name
        self.log = [[] for _ in range(phases)]
        self.args = [[] for _ in range(phases)]
        self.sums = [0.0] * phases
        self.closed = []
        super(VAcc, self).__init__(input_dim=input_dim, output_dim=output_dim, dtype=dtype)
        self.off = 0.0

    def _set_input_dim(self, n):
        self._input_dim = n
        self._output_dim = n

    def is_invertible(self):
        return True

    def _fails(self, op, key):
        for p in self.plan:
            if p[0] == op and (p[1] is None or p[1] == key):
                raise NodeFailure('%s fails in %s at %s' % (self.name, op, key))

    def _get_train_seq(self):
        def train(k):
            def f(x, *args):
                if len(args) != self.nargs:
                    raise NodeFailure('%d arguments given, %d expected' % (len(args), self.nargs))
                for i in x[:, 0]:
                    self._fails('train', [k, int(i)])
                self.log[k].extend(int(i) for i in x[:, 0])
                for a in args:
                    self.args[k].append([int(x[0, 0]), float(np.sum(a))])
                self.sums[k] += float(x[:, 1:].sum()) * (k + 1)
            return f

        def stop(k):
            def f(*args, **kwargs):
                self._fails('stop', k)
                self.closed.append(k)
                self.off += self.sums[k] % 97.0
                # arguments of stop_training are part of the learned state
                for i, a in enumerate(list(args) + [kwargs[n] for n in sorted(kwargs)]):
                    self.off += float(np.sum(a)) * (i + 1)
            return f
        return [(train(k), stop(k)) for k in range(self.phases if self.is_trainable() else 1)]

    def _train(self, x, *args):
        raise NotImplementedError

    def _execute(self, x):
        for i in x[:, 0]:
            self._fails('exec', int(i))
        y = x.copy()
        y[:, 1:] = x[:, 1:] * self.scale + self.off
        return y

    def _inverse(self, y):
        x = y.copy()
        x[:, 1:] = (y[:, 1:] - self.off) / self.scale
        return x

    def _kw(self):
        return dict(phases=self.phases, nargs=self.nargs, scale=self.scale, plan=self.plan,
                    name=self.name, input_dim=self.input_dim, dtype=self.dtype)


class VLocal(VAcc):
    """Like VAcc, but cannot be forked."""


class VHalf(VAcc):
    """Like VAcc, but odd phases cannot be forked."""


class VCount(VAcc):
    """Untrainable node recording all samples it is executed with."""

    def __init__(self, **kw):
        self.elog = []
        super(VCount, self).__init__(**kw)

    def is_trainable(self):
        return False

    def _execute(self, x):
        y = super(VCount, self)._execute(x)
        self.elog.extend(int(i) for i in x[:, 0])
        return y


class VPlain(VAcc):
    """Untrainable node without state."""

    def is_trainable(self):
        return False


def _acc_fork(self):
    self._fails('fork', None if not self.is_training() else self.get_current_train_phase())
    f = self.copy()
    if self.is_training():
        k = self.get_current_train_phase()
        f.log = [[] for _ in range(self.phases)]
        f.args = [[] for _ in range(self.phases)]
        f.sums[k] = 0.0
    return f


def _acc_join(self, forked):
    k = self.get_current_train_phase()
    self._fails('join', k)
    self.log[k].extend(forked.log[k])
    self.args[k].extend(forked.args[k])
    self.sums[k] += forked.sums[k]


class PVAcc(par.ParallelExtensionNode, VAcc):

    def _fork(self):
        return _acc_fork(self)

    def _join(self, forked):
        _acc_join(self, forked)


class PVLocal(par.ParallelExtensionNode, VLocal):

    def _fork(self):
        raise par.NotForkableParallelException('cannot be forked')


class PVHalf(par.ParallelExtensionNode, VHalf):

    def _fork(self):
        if self.is_training() and self.get_current_train_phase() % 2:
            raise par.NotForkableParallelException('phase cannot be forked')
        return _acc_fork(self)


class PVCount(par.ParallelExtensionNode, VCount):

    def _fork(self):
        self._fails('fork', None)
        f = VCount(**self._kw())
        f.off = self.off
        return f

    def _join(self, forked):
        self._fails('join', None)
        self.elog.extend(forked.elog)

    def use_execute_fork(self):
        return True


class DoubleTrainCallable(par.FlowTrainCallable):
    """Preprocesses the data, as described for custom callable classes."""

    def __call__(self, data):
        if type(data) is np.ndarray:
            return super(DoubleTrainCallable, self).__call__(pre(data))
        return super(DoubleTrainCallable, self).__call__((pre(data[0]),) + tuple(data[1:]))


class DoubleExecCallable(par.FlowExecuteCallable):

    def __call__(self, x):
        return super(DoubleExecCallable, self).__call__(pre(x))


def pre(x):
    y = np.array(x)
    y[:, 1:] *= 2
    return y


class VBi(bimdp.BiNode, VAcc):
    """Trainable BiNode which records messages."""

    def __init__(self, node_id=None, phases=1, scale=1.0, name='b', plan=(),
                 input_dim=None, output_dim=None, dtype=None):
        super(VBi, self).__init__(node_id=node_id, phases=phases, scale=scale, name=name, plan=plan,
                                  input_dim=input_dim, output_dim=output_dim, dtype=dtype)
        self.stops = []

    def _get_train_seq(self):
        def stop(f):
            def g(tag=None):
                self.stops.append(tag)
                f()
            return g
        return [(t, stop(s)) for t, s in super(VBi, self)._get_train_seq()]
