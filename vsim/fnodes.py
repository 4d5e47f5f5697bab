"""Real node classes with injected failures.

Every node has a tag; the current Plan counts the calls per tag and operation
and raises at the planned ones.
"""
import numpy as np

import mdp
import mdp.nodes as mn

from . import vnodes


class Odd(Exception):
    """An exception which needs several arguments (and cannot be unpickled)."""

    def __init__(self, a, b):
        Exception.__init__(self, 'odd %s, %s' % (a, b))
        self.a, self.b = a, b


def _exc(kind, text):
    if kind == 'node':
        return mdp.NodeException(text)
    if kind == 'odd':
        return Odd(text, 2)
    if kind == 'value':
        return ValueError(text + ' \u00e4\u20ac\n second line')
    if kind == 'stopiter':
        return StopIteration(text)
    if kind == 'key':
        return KeyError(text)
    if kind == 'memory':
        return MemoryError(text)
    if kind == 'os':
        return OSError(28, text)
    if kind == 'arith':
        return FloatingPointError(text)
    if kind == 'flow':
        return mdp.FlowException(text)
    if kind == 'training':
        return mdp.TrainingException(text)
    if kind == 'noargs':
        return RuntimeError()
    if kind == 'interrupt':
        return KeyboardInterrupt(text)
    return vnodes.NodeFailure(text)


KINDS = ['node', 'odd', 'value', 'stopiter', 'key', 'memory', 'os', 'arith', 'flow', 'training', 'noargs', 'plain',
         'plain']


class Plan(object):
    """faults: list of [tag, op, nth, exception kind, when (before|after)]"""

    def __init__(self, faults=()):
        self.faults = faults
        self.n = {}
        self.fired = []
        self.enabled = True

    def hit(self, tag, op, when):
        if not self.enabled:
            return
        if when == 'before':
            self.n[(tag, op)] = self.n.get((tag, op), 0) + 1
        k = self.n.get((tag, op), 0) - 1
        for f in self.faults:
            if f[0] == tag and f[1] == op and f[2] == k and f[4] == when:
                self.fired.append((tag, op, k))
                raise _exc(f[3], 'planned failure %s %s %d' % (tag, op, k))


PLAN = Plan()


def set_plan(p):
    global PLAN
    PLAN = p


class Faulty(object):
    tag = None

    def _hit(self, op, when='before'):
        PLAN.hit(self.tag, op, when)

    def _execute(self, x, *args, **kwargs):
        self._hit('exec')
        y = super(Faulty, self)._execute(x, *args, **kwargs)
        self._hit('exec', 'after')
        return y

    def _inverse(self, y, *args, **kwargs):
        self._hit('inv')
        x = super(Faulty, self)._inverse(y, *args, **kwargs)
        self._hit('inv', 'after')
        return x

    def _stop_training(self, *args, **kwargs):
        self._hit('stop')
        super(Faulty, self)._stop_training(*args, **kwargs)
        self._hit('stop', 'after')


class _Train(Faulty):

    def _train(self, x, *args, **kwargs):
        self._hit('train')
        super(_Train, self)._train(x, *args, **kwargs)
        self._hit('train', 'after')


class _TrainLabels(Faulty):

    def _train(self, x, labels):
        self._hit('train')
        super(_TrainLabels, self)._train(x, labels)
        self._hit('train', 'after')


class FPCA(_Train, mn.PCANode):
    pass


class FWhitening(_Train, mn.WhiteningNode):
    pass


class FSFA(_Train, mn.SFANode):
    pass


class FSFA2(_Train, mn.SFA2Node):
    pass


class FHistogram(_Train, mn.HistogramNode):
    pass


class FGaussian(_TrainLabels, mn.GaussianClassifier):
    pass


class FKNN(_TrainLabels, mn.KNNClassifier):
    pass


class FQuad(Faulty, mn.QuadraticExpansionNode):
    pass


class FIdentity(Faulty, mn.IdentityNode):
    pass


class FCentering(_Train, mn.OnlineCenteringNode):
    pass


class FCCIPCA(_Train, mn.CCIPCANode):
    pass


class FAcc(vnodes.VAcc):
    """Several training phases."""
    tag = None

    def _fails(self, op, key):
        pass

    def _execute(self, x):
        PLAN.hit(self.tag, 'exec', 'before')
        return super(FAcc, self)._execute(x)

    def _inverse(self, y):
        PLAN.hit(self.tag, 'inv', 'before')
        return super(FAcc, self)._inverse(y)

    def _get_train_seq(self):
        def w(f, op):
            def g(*a, **k):
                PLAN.hit(self.tag, op, 'before')
                r = f(*a, **k)
                PLAN.hit(self.tag, op, 'after')
                return r
            return g
        return [(w(t, 'train'), w(s, 'stop')) for t, s in super(FAcc, self)._get_train_seq()]

    def _train(self, x):
        raise NotImplementedError


class FUnpicklable(FIdentity):
    """Cannot be pickled."""

    def __reduce_ex__(self, protocol):
        raise TypeError('this node cannot be pickled')

    def __deepcopy__(self, memo):
        n = FUnpicklable()
        n.__dict__.update(self.__dict__)
        return n


CLASSES = {c.__name__: c for c in (FPCA, FWhitening, FSFA, FSFA2, FHistogram, FGaussian, FKNN, FQuad, FIdentity,
                                   FCentering, FCCIPCA, FAcc, FUnpicklable)}
LABELS = ('FGaussian', 'FKNN')


def make(spec, path=''):
    """spec: [class, parameters, children]"""
    t, p, ch = spec
    if t in CLASSES:
        p = dict(p)
        if t in ('FCCIPCA', 'FCentering'):
            p['numx_rng'] = np.random.RandomState(3)
        n = CLASSES[t](**p)
    else:
        import mdp.hinet as hinet
        sub = [make(s, '%s.%d' % (path, i)) for i, s in enumerate(ch)]
        if t == 'FlowNode':
            n = hinet.FlowNode(mdp.Flow(sub, **p))
        else:
            n = getattr(hinet, t)(sub)
    n.tag = path
    return n


def tags(spec, path=''):
    """(tag, class) of all leaves."""
    if spec[0] in CLASSES:
        return [(path, spec[0])]
    out = []
    for i, s in enumerate(spec[2]):
        out += tags(s, '%s.%d' % (path, i))
    return out
