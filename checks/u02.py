"""U02: progress reporting never changes the iteration."""
import io
import re
import sys
import threading

import mdp
from mdp.utils import progressinfo

from vsim import core
from . import hist, sched_common as sc
from .hist import HRun

RUNS = {'quick': 8000, 'thorough': 400000}
RULE = ('1-3 loops over sequences of 0-30 items (containers, generators, sized and failing iterators, items which are the '
        'progress), nested, interleaved or in threads preempted at any line, all styles and options; the clock stands still, '
        'drifts, jumps forwards and backwards between any two items; loops end, break, close or throw; distinct: workload '
        'or event log differs')
SHRINK = ['loops', 'clock']
COMPONENTS = {'real': ['mdp.utils.progress_bar'], 'simulated': ['clock', 'terminal', 'threads (line level preemption)',
                                                               'failing sequences and consumers']}
ASSUMPTIONS = ['the percentage is checked only if the announced length is right', 'the terminal can be written to']


class Odd(Exception):
    pass


class OddBase(BaseException):
    pass


EXC = {'odd': Odd, 'base': OddBase, 'zero': ZeroDivisionError, 'value': ValueError, 'type': TypeError,
       'stop': KeyError, 'overflow': OverflowError, 'attr': AttributeError}


def gen(rng):
    loops = []
    mode = rng.choice(['seq', 'inter', 'inter', 'nested', 'threads'])
    for _ in range(1 if mode == 'seq' else rng.randint(2, 3)):
        n = rng.choice([0, 1, 2, 3, 7, 10, 30])
        kind = rng.choice(['list', 'tuple', 'str', 'dict', 'range', 'gen', 'gen', 'iter', 'sized', 'items', 'items',
                           'fitems', 'array'])
        style = rng.choice(['bar', 'timer', 'timer'])
        c = {}
        if style == 'bar':
            for k, v in (('indent', ['', '  ', 'P: ']), ('width', [79, 50, 20, 10, 5, 1]),
                         ('position', ['left', 'middle', 'right']), ('delimiters', ['[]', '()', '<>']),
                         ('char1', ['=', '#']), ('char2', ['>', '']), ('char3', ['.', ' '])):
                if rng.random() < 0.3:
                    c[k] = rng.choice(v)
        else:
            for k, v in (('speed', ['mean', 'last', 'last']), ('indent', ['', 'P: ']), ('position', ['left', 'right', 'middle']),
                         ('delimiters', ['[]', '()']), ('separator', [' - ', '|'])):
                if rng.random() < 0.5:
                    c[k] = rng.choice(v)
        loops.append({'n': n, 'kind': kind, 'style': style, 'custom': c if rng.random() < 0.8 else None,
                      'announce': rng.choice(['right', 'right', 'right', 'right', 'more', 'less', 'huge']),
                      'fail': [rng.randrange(n + 1), rng.choice(sorted(EXC))] if rng.random() < 0.12 else None,
                      'end': rng.choice([None, None, None, None, ['break', rng.randrange(n + 1)],
                                         ['throw', rng.randrange(n + 1), rng.choice(sorted(EXC))]]),
                      'seed': rng.randrange(10 ** 6)})
    clock = []
    for _ in range(rng.randint(0, 30)):
        clock.append(rng.choice([0, 0, 0, 0.001, 1, 5, 1e4, -1, -1e4, 1.8e9, -1.8e9, 1e12, 1e-9, 0.5]))
    if rng.random() < 0.3:
        clock = []
    sched = {'trace': []}
    if mode == 'threads':
        sched = sc.gen_sched(rng)
        sched['lines'] = True
    return {'loops': loops, 'mode': mode, 'clock': clock, 'epoch': rng.choice([0, 1.7e9, -5.0]),
            'order': [rng.randrange(3) for _ in range(60)] if mode == 'inter' else [], 'sched': sched}


class Sized(object):
    def __init__(self, items, gen):
        self.items, self.gen = items, gen

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return self.gen()


class Loop(object):
    def __init__(self, run, k, spec):
        self.run, self.k, self.spec = run, k, spec
        n, kind = spec['n'], spec['kind']
        items = [(k, i) for i in range(n)]
        length = None
        if kind == 'str':
            items = [chr(97 + i % 26) for i in range(n)]
        elif kind == 'range':
            items = list(range(n))
        elif kind == 'array':
            import numpy
            items = list(range(n))
        elif kind in ('items', 'fitems'):
            # items are the amount which is done
            v, items = 0, []
            for i in range(n):
                v += (spec['seed'] >> i) % 4
                items.append(v + 0.5 if kind == 'fitems' else v)
        self.items = items
        self.exact = True
        fail = spec['fail']
        self.error = EXC[fail[1]]('planned') if fail else None

        def gen():
            for i, x in enumerate(items):
                if fail and i == fail[0]:
                    raise self.error
                yield x
            if fail and fail[0] >= len(items):
                raise self.error
        if kind in ('list', 'tuple', 'str', 'dict', 'range', 'array'):
            self.error = None
            seq = {'list': list, 'tuple': tuple, 'str': ''.join, 'dict': lambda x: dict.fromkeys(x, 1),
                   'range': lambda x: range(n), 'array': lambda x: __import__('numpy').arange(n)}[kind](items)
        elif kind == 'sized':
            seq = Sized(items, gen)
        else:
            seq = gen()
            total = n
            if kind in ('items', 'fitems'):
                total = max(items or [0])
            length = {'right': total, 'more': total + 5, 'less': max(total - 3, 1), 'huge': total + 10 ** 7}[spec['announce']]
            self.exact = length == total and length > 0
            if kind in ('items', 'fitems'):
                length = -length
                if length == 0:
                    length = -1
        self.seq, self.length = seq, length
        self.out = []
        self.raised = None
        self.done = False
        self.finished = False
        self.i = 0
        self.gen = None

    def start(self):
        kw = {}
        if self.length is not None:
            kw['length'] = self.length
        self.gen = progressinfo(self.seq, style=self.spec['style'],
                                custom=None if self.spec['custom'] is None else dict(self.spec['custom']), **kw)

    def step(self):
        """One iteration; False at the end."""
        if self.gen is None:
            self.start()
        self.run.tick()
        end = self.spec['end']
        try:
            if end and end[1] == self.i and self.i > 0:
                self.done = True
                if end[0] == 'break':
                    self.gen.close()
                else:
                    self.error = EXC[end[2]]('thrown')
                    self.gen.throw(self.error)
                    self.run.violate('exception-swallowed', 'an exception thrown into the loop disappeared')
                return False
            x = next(self.gen)
        except StopIteration:
            self.done = self.finished = True
            return False
        except BaseException as e:
            self.done = True
            self.raised = e
            return False
        self.out.append(x)
        self.i += 1
        return True


class U02(HRun):
    def scenario(self, sim):
        case = self.case
        self.ticks = iter(case['clock'])
        sim.epoch = case['epoch']
        self.term = io.StringIO()
        old = sys.stdout
        sys.stdout = self.term
        self.loops = [Loop(self, k, s) for k, s in enumerate(case['loops'])]
        self.outputs = [''] * len(self.loops)
        try:
            getattr(self, 'run_' + case['mode'])()
        finally:
            sys.stdout = old
        if not self.res.violations:
            self.check()

    def tick(self):
        d = next(self.ticks, None)
        if d is None:
            return
        sim = self.sim
        if d > 0 and d < 100:
            sim.sleep(core.current()[1], d)
        elif d:
            sim.clock_off += d
            self.sim.count('fault:clock-jump-%s' % ('back' if d < 0 else 'forward'))
        else:
            self.sim.count('fault:clock-stall')

    def step(self, lp):
        a = len(self.term.getvalue())
        r = lp.step()
        self.outputs[lp.k] += self.term.getvalue()[a:]
        return r

    def run_seq(self):
        for lp in self.loops:
            while self.step(lp):
                pass

    def run_inter(self):
        for k in self.case['order']:
            lp = self.loops[k % len(self.loops)]
            if not lp.done:
                self.step(lp)
        self.run_seq2()

    def run_seq2(self):
        for lp in self.loops:
            while not lp.done:
                self.step(lp)

    def run_nested(self):
        def nest(ls):
            if not ls:
                return
            first = True
            while self.step(ls[0]):
                if first:
                    nest(ls[1:])
                    first = False
        nest(self.loops)
        self.run_seq2()

    def run_threads(self):
        def body(lp):
            while lp.step():
                pass
        ts = [threading.Thread(target=body, args=(lp,)) for lp in self.loops]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def check(self):
        for lp in self.loops:
            s = lp.spec
            what = 'loop %d (%s, %s, %s)' % (lp.k, s['kind'], s['style'], s['custom'])
            out = lp.out
            self.log('loop', lp.k, len(out), lp.finished, type(lp.raised).__name__)
            if lp.raised is not None and lp.raised is not lp.error:
                self.violate('iteration-fails', '%s: %s: %s' % (what, type(lp.raised).__name__, lp.raised))
                return
            if s['kind'] == 'array':
                out = [int(x) for x in out]
            if out != lp.items[:len(out)]:
                self.violate('different-items', '%s: %s' % (what, out[:5]))
                return
            if lp.finished and (len(out) != len(lp.items) or lp.error is not None and lp.raised is None and
                                lp.spec['fail'] and s['kind'] in ('gen', 'iter', 'sized', 'items', 'fitems')):
                self.violate('different-end', '%s: %d of %d items' % (what, len(out), len(lp.items)))
                return
            if self.case['mode'] == 'threads':
                continue
            p = [int(x) for x in re.findall(r'(-?\d+)%', self.outputs[lp.k])]
            if lp.exact and p and max(p) > 100:
                self.violate('more-than-100', '%s: %s' % (what, p))
                return
            if lp.finished and lp.exact and (not p or p[-1] != 100) and len(lp.items):
                self.violate('not-100-at-the-end', '%s: %s' % (what, p[-3:]))
                return
            if lp.exact and p != sorted(p):
                self.violate('percentage-falls', '%s: %s' % (what, p))
                return


def run(case):
    return hist.run_hist(case, U02, [core.REPO + '/mdp/utils/'])


def simplify(case):
    for i, lp in enumerate(case['loops']):
        for k, v in (('end', None), ('fail', None), ('custom', None), ('announce', 'right')):
            if lp[k] != v:
                yield dict(case, loops=case['loops'][:i] + [dict(lp, **{k: v})] + case['loops'][i + 1:])
        if lp['n'] > 1:
            yield dict(case, loops=case['loops'][:i] + [dict(lp, n=lp['n'] // 2)] + case['loops'][i + 1:])
    if case['order']:
        yield dict(case, order=case['order'][1:])
