"""E01: extensions leave no residue."""
import contextlib
import io
import sys

import mdp
import bimdp
import mdp.hinet
import mdp.nodes
import mdp.parallel

from . import hist
from .hist import HRun, Skip

RUNS = {'quick': 4000, 'thorough': 200000}
RULE = ('random class hierarchy and extensions (methods, static and class methods, properties, attributes; registered by '
        'decorator or extension classes; setup and teardown functions); histories of 3-25 (nested) activations and '
        'deactivations, directly, in groups, by decorator and context manager, with planned failures of setup, teardown, '
        'injection and guarded code; distinct: workload or event log differs')
COMPONENTS = {'real': ['mdp.extension', 'all node classes of mdp and bimdp', 'extensions parallel, html, gradient'],
              'simulated': ['synthetic node classes and extensions', 'failing setup, teardown, injection, guarded code']}
ASSUMPTIONS = ['an extension takes effect as it is registered at the time of its activation; with several extensions '
               'every class has the attributes injected into it, all others by inheritance',
               'a group activation that fails deactivates what it activated itself']

ATTRS = ['m0', 'm1', 'm2', 'm3', 'm4', 'execute', '_execute']
REAL = ['parallel', 'html', 'gradient']
KINDS = ['method', 'method', 'static', 'class', 'property', 'value']


class Planned(Exception):
    pass


class PlannedBase(BaseException):
    pass


def gen(rng):
    # classes: [list of bases, {attr: kind}]
    ncls = rng.randint(2, 6)
    classes = []
    for i in range(ncls):
        if i == 0:
            b = []
        else:
            b = [rng.randrange(i)]
            if i > 2 and rng.random() < 0.2:
                b = sorted({rng.randrange(i), rng.randrange(i)}, reverse=True)
        own = {}
        for a in ATTRS[:5]:
            if rng.random() < (0.7 if i == 0 else 0.3):
                own[a] = rng.choice(KINDS)
        classes.append([b, own])
    exts = []
    for e in range(rng.randint(1, 4)):
        reg = []
        for _ in range(rng.randint(1, 5)):
            reg.append([rng.randrange(ncls), rng.choice(ATTRS if rng.random() < 0.2 else ATTRS[:5]),
                        rng.choice(KINDS), rng.choice(['deco', 'deco', 'cls'])])
        if rng.random() < 0.08:
            reg.insert(rng.randrange(len(reg) + 1), [-1, 'm0', 'method', 'deco'])
        ex = {'reg': reg, 'setup': rng.random() < 0.4, 'teardown': rng.random() < 0.4, 'fail': []}
        for w in ('setup', 'teardown'):
            if rng.random() < 0.3:
                ex['fail'].append([w, rng.randrange(4), rng.choice(['exc', 'exc', 'base'])])
        exts.append(ex)
    ne = len(exts)

    def name():
        x = rng.random()
        if x < 0.1:
            return rng.choice(REAL)
        if x < 0.13:
            return 'nosuch'
        return rng.randrange(ne)

    def ops(depth, n):
        out = []
        for _ in range(n):
            x = rng.random()
            if x < 0.25:
                out.append(['on', name()])
            elif x < 0.43:
                out.append(['off', name()])
            elif x < 0.5:
                out.append(['onmany', [name() for _ in range(rng.randint(1, 3))], rng.random() < 0.2])
            elif x < 0.57:
                out.append(['offmany', [name() for _ in range(rng.randint(1, 3))] if rng.random() < 0.6 else None])
            elif x < 0.62:
                out.append(['reg', rng.randrange(ne), rng.randrange(ncls), rng.choice(ATTRS[:5]), rng.choice(KINDS)])
            elif x < 0.65:
                out.append(['sub', rng.randrange(ncls)])
            elif depth < 3:
                body = ops(depth + 1, rng.randint(0, 4))
                end = rng.choice([None, None, 'exc', 'base'])
                if rng.random() < 0.5:
                    out.append(['deco', name(), body, end])
                else:
                    nm = [name() for _ in range(rng.choice([1, 1, 2, 3]))]
                    out.append(['ctx', nm, body, end, rng.choice(['list', 'str', 'tuple', 'iter']),
                                rng.random() < 0.15])
        return out
    return {'classes': classes, 'exts': exts, 'ops': ops(0, rng.randint(3, 10)), 'verbose': rng.random() < 0.1,
            'sched': {'trace': []}}


def value(tag, kind):
    if kind == 'method':
        def f(self, *a, **k):
            return tag
        return f
    if kind == 'static':
        def f(*a, **k):
            return tag
        return staticmethod(f)
    if kind == 'class':
        def f(cls, *a, **k):
            return (tag, cls.__name__)
        return classmethod(f)
    if kind == 'property':
        def f(self):
            return tag
        return property(f)
    return tag


def behaviour(cls, name):
    """What users see."""
    obj = object.__new__(cls)
    try:
        v = getattr(obj, name)
    except AttributeError:
        return '<missing>'
    if callable(v):
        try:
            return v()
        except TypeError as e:
            return '<%s>' % e
    return v


def all_nodes(c=None):
    out = []
    for s in (c or mdp.Node).__subclasses__():
        if s.__module__.startswith(('mdp', 'bimdp')) and 'Extension' not in s.__name__ and s not in out:
            out.append(s)
            out.extend(x for x in all_nodes(s) if x not in out)
    return out


def same(a, b):
    if a is b:
        return True
    if type(a) is type(b) and isinstance(a, (staticmethod, classmethod)):
        return a.__func__ is b.__func__
    return False


MISSING = '<missing>'
PRE = ('_non_extension_', '_extension_for_')


class Run(HRun):

    def setup(self):
        c = self.case
        self.ext_before = set(mdp.get_extensions())
        self.classes = []
        for i, (bases, own) in enumerate(c['classes']):
            bs = []
            for j in bases:
                k = self.classes[j]
                if not any(issubclass(x, k) for x in bs):
                    bs = [x for x in bs if not issubclass(k, x)] + [k]
            members = {a: value('C%d.%s' % (i, a), k) for a, k in own.items()}
            members['__module__'] = 'vsim_e01'
            try:
                self.classes.append(type(mdp.Node)('C%d' % i, tuple(bs) or (mdp.Node,), members))
            except TypeError:
                raise Skip('mro')
        self.watched = [mdp.Node] + all_nodes() + self.classes
        self.orig = {k: dict(vars(k)) for k in self.watched}
        self.fails = {}
        self.nver = 0
        for e, ex in enumerate(c['exts']):
            self.register(e, ex)
        self.inject = {}            # active extension -> {(class, attr): value}
        self.count = {}

    def name(self, e):
        return e if isinstance(e, str) else '__v%d' % e

    def target(self, i):
        return int if i < 0 else self.classes[i]

    def register(self, e, ex):
        nm = self.name(e)
        base = None
        for n, (i, attr, kind, how) in enumerate(ex['reg']):
            v = value('E%d.%d.%s.%d' % (e, i, attr, n), kind)
            if how == 'cls' and i >= 0 and attr != '_execute':
                if base is None and nm not in mdp.get_extensions():
                    base = type(mdp.ExtensionNode)('Ext%d' % e, (mdp.ExtensionNode,),
                                                   {'extension_name': nm, '__module__': 'vsim_e01'})
                if base is not None:
                    type(mdp.ExtensionNode)('Ext%d_%d' % (e, n), (base, self.classes[i]),
                                            {attr: v, '__module__': 'vsim_e01'})
                    continue
            if kind in ('method',):
                mdp.extension_method(nm, self.target(i), attr)(v)
            else:
                # (no public way for other attributes than by an extension class)
                mdp.extension_method(nm, self.target(i), attr)(v)
        for w, deco in (('setup', mdp.extension_setup), ('teardown', mdp.extension_teardown)):
            if ex[w]:
                deco(nm)(self.hook(e, w, ex['fail']))

    def hook(self, e, w, fails):
        def f():
            k = self.count.get((e, w), 0)
            self.count[(e, w)] = k + 1
            self.log(w, e, k)
            for x in fails:
                if x[0] == w and x[1] == k:
                    self.sim.count('fault:failing-' + w)
                    raise (Planned if x[2] == 'exc' else PlannedBase)('%s of %d' % (w, e))
        return f

    # -- model

    def registered(self, nm):
        """What the extension injects if it is activated now."""
        out = {}
        for cls, attrs in mdp.get_extensions()[nm].items():
            if isinstance(cls, str):
                continue
            for a, v in attrs.items():
                out[(cls, a)] = v
        return out

    def collides(self, nm):
        reg = self.registered(nm)
        return any(k in inj for inj in self.inject.values() for k in reg) or any(k[0] is int for k in reg)

    def will_fail(self, nm, w):
        if not isinstance(nm, str) or not nm.startswith('__v'):
            return False
        e = int(nm[3:])
        ex = self.case['exts'][e]
        return ex[w] and any(x[0] == w and x[1] == self.count.get((e, w), 0) for x in ex['fail'])

    def m_on(self, nm):
        """Returns True if the activation fails.  Called before the real one."""
        if nm == 'nosuch':
            return True
        if nm in self.inject:
            return False
        if self.will_fail(nm, 'setup') or self.collides(nm):
            return True
        self.inject[nm] = self.registered(nm)
        return False

    def m_off(self, nm):
        if nm == 'nosuch':
            return True
        if nm not in self.inject:
            return False
        del self.inject[nm]
        return bool(self.will_fail(nm, 'teardown'))

    # -- comparison

    def verify(self, what):
        act = mdp.get_active_extensions()
        if sorted(act) != sorted(self.inject):
            self.violate('active', '%s: active extensions %s, expected %s' % (what, sorted(act), sorted(self.inject)))
            return
        inj = {}
        for nm, d in self.inject.items():
            inj.update(d)
        byname = {}
        for (cls, a), v in inj.items():
            byname.setdefault(cls, {})[a] = v
        # (the classes of the package now and then only)
        full = self.nver % 7 == 0 or 'the' in what or any(nm in REAL for nm in self.inject)
        self.nver += 1
        for cls in self.watched if full else [mdp.Node] + self.classes:
            exp = dict(self.orig[cls])
            exp.update(byname.get(cls, {}))
            got = vars(cls)
            for a in set(exp) | set(got):
                if a.startswith(PRE):
                    real = a[len('_non_extension_'):] if a.startswith(PRE[0]) else a[len('_extension_for_'):]
                    if real not in byname.get(cls, {}) and a not in self.orig[cls]:
                        self.violate('residue', '%s: %s has %s (active: %s)' % (
                            what, cls.__name__, a, sorted(self.inject)))
                        return
                    continue
                if a in ('__doc__', '__abstractmethods__', '_abc_impl'):
                    continue
                x, y = exp.get(a, MISSING), got.get(a, MISSING)
                if not same(x, y):
                    self.violate('attribute', '%s: %s.%s is %s, expected %s (active: %s)' % (
                        what, cls.__name__, a, describe(y), describe(x), sorted(self.inject)))
                    return
        # behaviour of the synthetic classes, and the hidden originals
        for cls in self.classes:
            for a in ATTRS[:5]:
                raw, owner = self.lookup(cls, a, byname)
                got = behaviour(cls, a)
                want = MISSING if owner is None else self.expected(raw, cls)
                if got != want:
                    self.violate('behaviour', '%s: %s().%s gives %s, expected %s' % (what, cls.__name__, a, got, want))
                    return
                if owner is not None and a in byname.get(owner, {}):
                    oraw, oo = self.lookup(owner, a, {})
                    if oo is not None:
                        got = behaviour(cls, '_non_extension_' + a)
                        want = self.expected(oraw, cls)
                        if got != want:
                            self.violate('hidden-original', '%s: %s()._non_extension_%s gives %s, expected %s '
                                         '(active: %s)' % (what, cls.__name__, a, got, want, sorted(self.inject)))
                            return

    def lookup(self, cls, a, byname):
        for k in cls.__mro__:
            if a in byname.get(k, {}):
                return byname[k][a], k
            if k in self.orig and a in self.orig[k]:
                return self.orig[k][a], k
        return None, None

    def expected(self, raw, cls):
        if isinstance(raw, property):
            return raw.fget(None)
        if isinstance(raw, staticmethod):
            return raw.__func__()
        if isinstance(raw, classmethod):
            return raw.__func__(cls)
        if callable(raw):
            return raw(None)
        return raw

    # -- operations

    def call(self, what, f, fails):
        """Call f, which fails exactly if expected."""
        try:
            f()
        except (mdp.ExtensionException, Planned, PlannedBase, TypeError) as e:
            self.log(what, type(e).__name__)
            self.sim.count('refused-or-failed')
            if not fails:
                self.violate('failed', '%s: %s: %s' % (what, type(e).__name__, e))
            return
        if fails:
            self.violate('no-error', '%s: expected to fail' % what)
        self.log(what)

    def scenario(self, sim):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            self.verify('at the start')
            self.run_ops(self.case['ops'], 'op')
            if not self.res.violations:
                # everything off again
                for nm in sorted(self.inject):
                    self.call('final off %s' % nm, lambda: mdp.deactivate_extension(nm), self.m_off(nm))
                self.verify('at the end')

    def run_ops(self, ops, path):
        for i, op in enumerate(ops):
            if self.res.violations:
                return
            what = '%s %d %s' % (path, i, op[0] if op[0] in ('ctx', 'deco') else op)
            getattr(self, 'do_' + op[0])(op, what)
            self.sim.count('op:' + op[0])
            if self.res.violations:
                return
            self.verify(what)

    def do_on(self, op, what):
        nm = self.name(op[1])
        fails = self.m_on(nm)
        self.call(what, lambda: mdp.activate_extension(nm, verbose=self.case['verbose']), fails)

    def do_off(self, op, what):
        nm = self.name(op[1])
        fails = self.m_off(nm)
        self.call(what, lambda: mdp.deactivate_extension(nm, verbose=self.case['verbose']), fails)

    def many_on(self, names):
        """Model of a group activation; returns (fails, activated)"""
        done = []
        for nm in names:
            was = nm in self.inject
            if self.m_on(nm):
                for x in done:
                    self.m_off(x)
                return True, []
            if not was:
                done.append(nm)
        return False, done

    def simulate_group(self, names):
        """Would the teardown counters matter?  (a failing group calls setup functions before)"""
        return

    def do_onmany(self, op, what):
        names = [self.name(e) for e in op[1]]
        fails, _ = self.many_on(names)
        arg = iter(names) if op[2] else names
        self.call(what, lambda: mdp.activate_extensions(arg, verbose=self.case['verbose']), fails)

    def do_offmany(self, op, what):
        names = [self.name(e) for e in op[1]] if op[1] is not None else mdp.get_active_extensions()
        fails = False
        for nm in names:
            fails |= self.m_off(nm)
        self.call(what, lambda: mdp.deactivate_extensions(names), fails)

    def do_reg(self, op, what):
        """Register another attribute, maybe of an active extension."""
        nm = self.name(op[1])
        mdp.extension_method(nm, self.classes[op[2]], op[3])(value('R%s' % what, op[4]))

    def do_sub(self, op, what):
        """A new class appears."""
        base = self.classes[op[1]]
        k = len(self.classes)
        cls = type(mdp.Node)('C%d' % k, (base,), {'m1': value('C%d.m1' % k, 'method'), '__module__': 'vsim_e01'})
        self.classes.append(cls)
        self.watched.append(cls)
        self.orig[cls] = dict(vars(cls))

    def finish_body(self, end):
        if end == 'exc':
            raise Planned('body')
        if end == 'base':
            raise PlannedBase('body')
        return 'result'

    def do_deco(self, op, what):
        nm = self.name(op[1])
        was = nm in self.inject
        fails = self.m_on(nm)
        entered = []

        def body():
            entered.append(1)
            self.verify(what + ' inside')
            self.run_ops(op[2], what)
            self.tmp_off = not was and self.m_off(nm)
            return self.finish_body(op[3])
        f = mdp.with_extension(nm)(body)
        self.guarded(what, f, fails, entered, op[3])

    def do_ctx(self, op, what):
        names = [self.name(e) for e in op[1]]
        if op[4] == 'str':
            names = names[:1]
        fails, done = self.many_on(names)
        entered = []
        arg = {'str': names[0], 'tuple': tuple(names), 'list': names, 'iter': iter(names)}[op[4]]
        ctx = mdp.extension(arg)

        def f():
            with ctx:
                entered.append(1)
                self.verify(what + ' inside')
                if op[5] and op[4] != 'iter':
                    # the same object again
                    again = [nm for nm in names if nm not in self.inject]
                    if not again:
                        with ctx:
                            self.verify(what + ' inside twice')
                        self.verify(what + ' inside again')
                self.run_ops(op[2], what)
                self.tmp_off = False
                for nm in done:
                    self.tmp_off |= self.m_off(nm)
                return self.finish_body(op[3])
        self.guarded(what, f, fails, entered, op[3])

    def guarded(self, what, f, fails, entered, end):
        self.tmp_off = False
        try:
            r = f()
        except (mdp.ExtensionException, TypeError) as e:
            if not fails or entered:
                self.violate('failed', '%s: %s: %s' % (what, type(e).__name__, e))
            return
        except (Planned, PlannedBase) as e:
            self.log(what, str(e))
            if entered and end is None and not self.tmp_off or not entered and not fails:
                self.violate('failed', '%s: %s' % (what, e))
            elif entered and not self.tmp_off and str(e) != 'body':
                self.violate('failed', '%s: %s instead of the error of the guarded code' % (what, e))
            else:
                self.sim.count('fault:guarded-code' if entered else 'fault:activation')
            return
        if fails or not entered:
            self.violate('no-error', '%s: activation should have failed' % what)
        elif end or self.tmp_off:
            self.violate('no-error', '%s: error lost' % what)
        elif r != 'result':
            self.violate('result', '%s: %s' % (what, r))

    def finish(self):
        act = mdp.get_extensions()
        for nm in list(act):
            if nm not in self.ext_before:
                try:
                    mdp.deactivate_extension(nm)
                except BaseException:
                    pass
                del act[nm]
        for nm in mdp.get_active_extensions():
            try:
                mdp.deactivate_extension(nm)
            except BaseException:
                pass
        if self.res.violations:
            # (classes of the package may be damaged)
            for cls, d in self.orig.items():
                for a in list(vars(cls)):
                    if a not in d:
                        try:
                            delattr(cls, a)
                        except (AttributeError, TypeError):
                            pass
                for a, v in d.items():
                    if vars(cls).get(a) is not v and a not in ('__dict__', '__weakref__'):
                        try:
                            setattr(cls, a, v)
                        except (AttributeError, TypeError):
                            pass
            mdp.extension._active_extensions.clear() if hasattr(mdp, 'extension_module') else None
            sys.modules['mdp.extension']._active_extensions.clear()


def describe(v):
    if v is MISSING:
        return 'missing'
    if isinstance(v, (staticmethod, classmethod)):
        return '%s %s' % (type(v).__name__, v.__func__.__qualname__)
    return '%s %s' % (type(v).__name__, getattr(v, '__qualname__', str(v)[:60]))


def run(case):
    return hist.run_hist(case, Run)


def simplify(case):
    def less(ops):
        for i in range(len(ops)):
            yield ops[:i] + ops[i + 1:]
        for i, op in enumerate(ops):
            if op[0] in ('ctx', 'deco'):
                yield ops[:i] + op[2] + ops[i + 1:]
                for b in less(op[2]):
                    yield ops[:i] + [op[:2] + [b] + op[3:]] + ops[i + 1:]
    for o in less(case['ops']):
        yield dict(case, ops=o)
    for i, ex in enumerate(case['exts']):
        for j in range(len(ex['reg'])):
            if len(ex['reg']) > 1:
                yield dict(case, exts=case['exts'][:i] + [dict(ex, reg=ex['reg'][:j] + ex['reg'][j + 1:])] +
                           case['exts'][i + 1:])
        for w in ('setup', 'teardown'):
            if ex[w]:
                yield dict(case, exts=case['exts'][:i] + [dict(ex, **{w: False})] + case['exts'][i + 1:])
    for i, (b, own) in enumerate(case['classes']):
        for a in own:
            yield dict(case, classes=case['classes'][:i] + [[b, {k: v for k, v in own.items() if k != a}]] +
                       case['classes'][i + 1:])
