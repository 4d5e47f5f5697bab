"""Structural comparison of nodes, flows and results."""
import numbers
import types

import numpy as np

SKIP = {'_flow_', '_train_seq', '_lock', '_cached'}
# arrays whose rows are stored in order of arrival
UNORDERED = {'data_hist', 'samples', '_label_samples'}


def _sorted_rows(a):
    a = np.atleast_2d(a)
    if a.size == 0:
        return a
    r = np.round(a, 7) + 0.0
    return a[np.lexsort(r.T[::-1])]


class Diff(Exception):
    pass


LAZY = ('_dtype', '_input_dim', '_output_dim')


def diff(a, b, rtol=1e-7, atol=1e-9, sign=True, skip=(), unordered=(), lazy=()):
    """Return None if equal, else a string which says where a and b differ.

    sign -- compare floating point arrays up to the sign
    lazy -- attributes which may be set (from None) by mere execution
    """
    try:
        _cmp(a, b, '', dict(rtol=rtol, atol=atol, sign=sign, skip=SKIP | set(skip),
                            unordered=set(unordered), lazy=set(lazy)), {}, None)
    except Diff as e:
        return str(e)
    return None


def _cmp(a, b, path, o, seen, key):
    if a is b:
        return
    if isinstance(a, np.generic) and not isinstance(b, np.ndarray):
        a = a.item()
    if isinstance(b, np.generic) and not isinstance(a, np.ndarray):
        b = b.item()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            raise Diff('%s: %s versus %s' % (path, type(a).__name__, type(b).__name__))
        if a.shape != b.shape:
            raise Diff('%s: shape %s versus %s' % (path, a.shape, b.shape))
        if a.dtype.kind in 'OSU' or b.dtype.kind in 'OSU':
            if a.tolist() != b.tolist():
                raise Diff('%s: arrays differ' % path)
            return
        if a.dtype != b.dtype:
            raise Diff('%s: dtype %s versus %s' % (path, a.dtype, b.dtype))
        if key in o['unordered'] and a.ndim > 0:
            if o['sign']:
                a, b = np.abs(a), np.abs(b)
            a, b = _sorted_rows(a), _sorted_rows(b)
        if o['sign'] and a.dtype.kind in 'fc':
            a, b = np.abs(a), np.abs(b)
        if a.dtype.kind in 'fc':
            scale = max(np.nanmax(np.abs(a)) if a.size else 0, 1e-300)
            if not np.isfinite(scale):
                scale = 1.0
            if not np.allclose(a, b, rtol=o['rtol'], atol=o['atol'] + o['rtol'] * scale, equal_nan=True):
                with np.errstate(invalid='ignore'):
                    raise Diff('%s: arrays differ by up to %g (scale %g)' %
                               (path, np.nanmax(np.abs(a - b)), scale))
        elif not np.array_equal(a, b):
            raise Diff('%s: arrays differ' % path)
        return
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        if a != b or type(a) != type(b):
            raise Diff('%s: %r versus %r' % (path, a, b))
        return
    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
        if isinstance(a, numbers.Integral) and isinstance(b, numbers.Integral):
            if a != b:
                raise Diff('%s: %r versus %r' % (path, a, b))
            return
        x, y = (abs(a), abs(b)) if o['sign'] else (a, b)
        if not (abs(x - y) <= o['atol'] + o['rtol'] * max(abs(x), abs(y)) or (x != x and y != y) or x == y):
            raise Diff('%s: %r versus %r' % (path, a, b))
        return
    if isinstance(a, (str, bytes, np.dtype)) or isinstance(b, (str, bytes, np.dtype)):
        if a != b:
            raise Diff('%s: %r versus %r' % (path, a, b))
        return
    if isinstance(a, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type,
                      types.GeneratorType)):
        return
    if (id(a), id(b)) in seen:
        return
    seen[(id(a), id(b))] = (a, b)
    if type(a) is not type(b):
        raise Diff('%s: type %s versus %s' % (path, type(a).__name__, type(b).__name__))
    if isinstance(a, dict):
        ka = [k for k in a if k not in o['skip']]
        kb = [k for k in b if k not in o['skip']]
        if set(ka) != set(kb):
            raise Diff('%s: keys %s' % (path, sorted(map(str, set(ka) ^ set(kb)))))
        for k in sorted(ka, key=str):
            if k in o['lazy'] and (a[k] is None or b[k] is None):
                continue
            _cmp(a[k], b[k], '%s.%s' % (path, k), o, seen, k)
        return
    if isinstance(a, (set, frozenset)):
        if a != b:
            raise Diff('%s: sets differ' % path)
        return
    if isinstance(a, (list, tuple)) or type(a).__name__ == 'deque':
        if len(a) != len(b):
            raise Diff('%s: length %d versus %d' % (path, len(a), len(b)))
        if key in o['unordered']:
            if all(isinstance(v, np.ndarray) for v in a) and len(a):
                _cmp(np.concatenate(list(a)), np.concatenate(list(b)), path, o, seen, key)
                return
            a = sorted(a, key=repr)
            b = sorted(b, key=repr)
        for i, (x, y) in enumerate(zip(a, b)):
            _cmp(x, y, '%s[%d]' % (path, i), o, seen, key)
        return
    if hasattr(a, 'get_state') and type(a).__name__ == 'RandomState':
        sa, sb = a.get_state(), b.get_state()
        if not (sa[0] == sb[0] and np.array_equal(sa[1], sb[1]) and sa[2:] == sb[2:]):
            raise Diff('%s: random state differs' % path)
        return
    if hasattr(a, '__dict__'):
        _cmp(a.__dict__, b.__dict__, '%s<%s>' % (path, type(a).__name__), o, seen, None)
        return
    if type(a).__eq__ is object.__eq__:
        # extension type: compare the pickled state
        _cmp(a.__getstate__(), b.__getstate__(), '%s<%s>' % (path, type(a).__name__), o, seen, None)
        return
    if a != b:
        raise Diff('%s: %r versus %r' % (path, a, b))


def snapshot(obj):
    """Deep copy of the visible state, independent from __deepcopy__ of the code under test."""
    return _snap(obj, {})


class Snap(object):
    """Image of an object."""


def _snap(a, memo):
    if isinstance(a, np.ndarray):
        return a.copy()
    if a is None or isinstance(a, (bool, numbers.Number, str, bytes, np.dtype, np.generic, type,
                                   types.FunctionType, types.MethodType,
                                   types.BuiltinFunctionType, types.GeneratorType)):
        return a
    if id(a) in memo:
        return memo[id(a)][0]
    if isinstance(a, dict):
        out = {}
        memo[id(a)] = (out, a)
        for k, v in a.items():
            if k not in SKIP:
                out[k] = _snap(v, memo)
        return out
    if isinstance(a, (list, tuple)) or type(a).__name__ == 'deque':
        out = [type(a).__name__]
        memo[id(a)] = (out, a)
        out.extend(_snap(v, memo) for v in a)
        return out
    if isinstance(a, (set, frozenset)):
        return frozenset(a)
    if type(a).__name__ == 'RandomState':
        return repr(a.get_state()[1:])
    if hasattr(a, '__dict__'):
        out = Snap()
        memo[id(a)] = (out, a)
        out.cls = type(a).__name__
        out.d = _snap(a.__dict__, memo)
        return out
    return a
