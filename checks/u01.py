"""U01: temporary directories clean up their own content and nothing else."""
import errno
import gc
import os
import shutil
import stat
import sys
import tempfile
import threading

import mdp
from mdp.utils.temporarydir import TemporaryDirectory

from vsim import core, osfs
from . import hist, sched_common as sc
from .hist import HRun, Skip

RUNS = {'quick': 4000, 'thorough': 200000}
RULE = ('1-3 temporary directories with random trees (files, directories, pipes, hard links, symbolic links to files, '
        'directories, nothing, each other, their ancestors and to the outside), cleaned up directly, twice, by a context with or '
        'without exception, by garbage collection, by two threads at once (preempted at any line), after external removal; '
        'entries vanish and system calls fail at any point; distinct: workload or event log differs')
SHRINK = ['tree', 'faults', 'ops']
COMPONENTS = {'real': ['mdp.utils.temporarydir', 'file system below a scratch directory'],
              'simulated': ['failing system calls', 'other processes removing entries', 'threads (line level preemption)']}
ASSUMPTIONS = ['nobody adds entries to the directory while it is cleaned up',
               'an entry whose removal or listing failed may stay (with the directories which contain it)']
ERR = [errno.EACCES, errno.EBUSY, errno.EIO, errno.EPERM, errno.EINTR, errno.EMFILE]


class Stop(Exception):
    pass


class StopBase(BaseException):
    pass


def gen(rng):
    nd = rng.choice([1, 1, 1, 2, 3])
    tree = []
    for _ in range(rng.randint(0, 14)):
        tree.append([rng.randrange(nd + 1), rng.choice(['file', 'file', 'dir', 'dir', 'dir', 'link-dir', 'link-file',
                                                        'link-out', 'link-out', 'broken', 'loop', 'up', 'hard', 'fifo',
                                                        'deep', 'other']),
                     rng.random(), rng.random()])
    ops = []
    for i in range(nd):
        how = rng.choice(['cleanup', 'twice', 'ctx', 'ctxexc', 'ctxbase', 'gc', 'threads', 'gone', 'gonelink',
                          'cleanup-gc', 'del-ctx'])
        ops.append([how, i])
    rng.shuffle(ops)
    faults = []
    if rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = {'op': rng.choice(['any', 'any', 'remove', 'rmdir', 'listdir', 'mkdir']),
                 'nth': rng.choice([0, 1, 2, 3, 5, 8, 13, 20]), 'how': rng.choice(['error', 'vanish', 'vanish'])}
            if f['how'] == 'error':
                f['errno'] = rng.choice(ERR)
            else:
                f['which'] = rng.random()
                f['same'] = rng.random() < 0.5
            faults.append(f)
    sched = {'trace': []}
    if any(o[0] == 'threads' for o in ops):
        sched = sc.gen_sched(rng)
        sched['lines'] = True
    names = [[rng.choice(['', '', '.x', 'ä']), rng.choice(['', 'tmp', 'mdp-', 'ü b']), rng.choice([None, None, 'sub'])]
             for _ in range(nd)]
    return {'n': nd, 'tree': tree, 'ops': ops, 'faults': faults, 'names': names, 'sched': sched}


def snapshot(root, skip=()):
    out = {}
    for dp, dn, fn in os.walk(root):
        for n in list(dn) + fn:
            p = os.path.join(dp, n)
            if p in skip:
                if n in dn:
                    dn.remove(n)
                continue
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('dir', stat.S_IMODE(st.st_mode))
            elif stat.S_ISREG(st.st_mode):
                with open(p) as f:
                    out[rel] = ('file', f.read(), stat.S_IMODE(st.st_mode))
            else:
                out[rel] = ('other', stat.S_IFMT(st.st_mode))
    return out


class U01(HRun):
    def scenario(self, sim):
        self.unraisable = []
        old = sys.unraisablehook, tempfile.tempdir, tempfile._name_sequence
        try:
            with osfs.FS(self.case['faults'], sim) as fs:
                self.fs = fs
                sys.unraisablehook = lambda u: self.unraisable.append((type(u.exc_value).__name__, str(u.exc_value)))
                tempfile.tempdir = fs.path('tmp')
                tempfile._name_sequence = iter('t%06d' % i for i in range(10 ** 6))
                fs.enabled = False
                self.body()
                fs.enabled = False
                self.objs = None
                gc.collect()
        finally:
            sys.unraisablehook, tempfile.tempdir, tempfile._name_sequence = old

    def make(self, i):
        suffix, prefix, d = self.case['names'][i]
        kw = {}
        if d:
            kw['dir'] = self.fs.path('tmp', d)
        nf = len(self.fs.fired)
        self.fs.enabled = True
        try:
            o = TemporaryDirectory(suffix, prefix, **kw)
        except OSError:
            if len(self.fs.fired) == nf:
                self.violate('creation-fails', '')
            return None
        finally:
            self.fs.enabled = False
            gc.collect()
        if self.unraisable:
            self.violate('finalizer-raises', '%s' % self.unraisable)
        p = o.name
        if not os.path.isdir(p) or os.listdir(p) or os.path.dirname(p) != self.fs.path('tmp', *([d] if d else [])) or \
                not os.path.basename(p).startswith(prefix) or not p.endswith(suffix):
            self.violate('wrong-directory', p)
        return o

    def body(self):
        fs, case = self.fs, self.case
        for d in ('tmp', 'tmp/sub', 'out', 'out/d', 'out/d/e'):
            os.mkdir(fs.path(d))
        for f in ('tmp/keep', 'tmp/sub/keep', 'out/f', 'out/d/f', 'out/d/e/f'):
            with open(fs.path(f), 'w') as h:
                h.write('witness of ' + f)
        self.objs = [self.make(i) for i in range(case['n'])]
        if self.res.violations:
            return
        self.names = [None if o is None else o.name for o in self.objs]
        self.build()
        for how, i in case['ops']:
            if self.objs[i] is None or self.res.violations:
                continue
            self.clean(how, i)

    def build(self):
        fs = self.fs
        dirs = {i: [n] for i, n in enumerate(self.names) if n}
        dirs[self.case['n']] = [fs.path('out')]
        files = {i: [] for i in dirs}
        for k, (i, kind, a, b) in enumerate(self.case['tree']):
            if i not in dirs:
                continue
            d = dirs[i][int(a * len(dirs[i]))]
            p = os.path.join(d, '%s%d' % (kind, k))
            every = [x for v in dirs.values() for x in v]
            if kind == 'file':
                with open(p, 'w') as h:
                    h.write(p)
                files[i].append(p)
            elif kind == 'dir':
                os.mkdir(p)
                dirs[i].append(p)
            elif kind == 'deep':
                for _ in range(1 + int(b * 30)):
                    os.mkdir(p)
                    dirs[i].append(p)
                    p = os.path.join(p, 'x')
            elif kind == 'link-dir':
                os.symlink(dirs[i][int(b * len(dirs[i]))], p)
            elif kind == 'link-file' and files[i]:
                os.symlink(files[i][int(b * len(files[i]))], p)
            elif kind == 'link-out':
                t = ['out', 'out/d', 'out/f', 'out/d/e/f', 'tmp', 'tmp/keep', 'tmp/sub'][int(b * 7)]
                t = fs.path(t)
                os.symlink(os.path.relpath(t, d) if a < 0.5 else t, p)
            elif kind == 'other':
                os.symlink(every[int(b * len(every))], p)
            elif kind == 'broken':
                os.symlink(fs.path('nowhere'), p)
            elif kind == 'loop':
                os.symlink(p, p)
            elif kind == 'up':
                os.symlink('..', p)
            elif kind == 'hard':
                os.link(fs.path('out/d/f'), p)
            elif kind == 'fifo':
                os.mkfifo(p)

    def clean(self, how, i):
        fs = self.fs
        name = self.names[i]
        before = snapshot(fs.root, (name,))
        fs.allowed = [name]
        fs.escaped = []
        fs.failed = []
        self.log('clean', how, len(snapshot(name)))
        if how in ('gone', 'gonelink'):
            shutil.rmtree(name)
            if how == 'gonelink':
                os.symlink(fs.path('out', 'd'), name)
                before = snapshot(fs.root, (name,))
        errors = []

        def attempt(f):
            try:
                f()
            except Stop:
                errors.append('Stop')
            except StopBase:
                errors.append('StopBase')
            except Exception as e:
                # without the traceback, which keeps the object alive
                errors.append((type(e).__name__, str(e)))
        fs.enabled = True
        try:
            self.perform(how, i, attempt)
        finally:
            fs.enabled = False
        failed = list(fs.failed)
        if fs.escaped:
            self.violate('outside-touched', '%s: %s' % (how, fs.escaped[:3]))
            return
        after = snapshot(fs.root, (name,))
        if after != before:
            self.violate('outside-changed', '%s: %s' % (how, sorted(set(before.items()) ^ set(after.items()))[:4]))
            return
        want = {'ctxexc': ['Stop'], 'ctxbase': ['StopBase'], 'del-ctx': []}.get(how, [])
        top = any(n in ('listdir', 'scandir') and p == name for n, p in failed)
        if self.unraisable and not top:
            self.violate('finalizer-raises', '%s: %s' % (how, self.unraisable))
            return
        real = [e for e in errors if isinstance(e, tuple)]
        if real and not top:
            self.violate('cleanup-raises', '%s: %s: %s; failing calls: %s' % (how, real[0][0], real[0][1], [
                (n, os.path.relpath(p, name)) for n, p in failed]))
            return
        if not real and errors != want:
            self.violate('exception-lost', '%s: %s instead of %s' % (how, errors, want))
            return
        self.unraisable[:] = []
        if how == 'gonelink':
            return
        if real or top:
            # the whole directory could not be listed: once it works, everything goes
            if self.objs[i] is not None:
                self.objs[i].cleanup()
                if all(n in ('listdir', 'scandir') and p == name for n, p in failed) and how != 'threads' and os.path.lexists(name):
                    self.violate('not-removed', '%s: second clean-up after a failed one' % how)
            return
        # everything without a failing call of its own is gone
        left = snapshot(name) if os.path.lexists(name) else {}
        for rel in left:
            p = os.path.join(name, rel)
            if not any(f == p or f.startswith(p + os.sep) or (n in ('listdir', 'scandir', 'any') and p.startswith(f + os.sep))
                       for n, f in failed):
                self.violate('not-removed', '%s: %s %s is left; failing calls: %s' % (
                    how, left[rel][0], rel, [(n, os.path.relpath(f, name)) for n, f in failed]))
                return
        if os.path.lexists(name) and not failed:
            self.violate('not-removed', '%s: the directory is left' % how)
        # everything is harmless afterwards
        if self.objs[i] is not None and not failed:
            fs.enabled = True
            try:
                self.objs[i].cleanup()
                self.objs[i] = None
                gc.collect()
            except Exception as e:
                self.violate('second-cleanup-raises', '%s: %s' % (how, e))
            finally:
                fs.enabled = False
            if self.unraisable:
                self.violate('finalizer-raises', '%s (second): %s' % (how, self.unraisable))

    def perform(self, how, i, attempt):
        if how in ('cleanup', 'gone', 'gonelink'):
            attempt(self.objs[i].cleanup)
        elif how == 'twice':
            attempt(self.objs[i].cleanup)
            attempt(self.objs[i].cleanup)
        elif how in ('ctx', 'ctxexc', 'ctxbase'):
            def f():
                with self.objs[i] as d:
                    if d != self.names[i] or not os.path.isdir(d):
                        self.violate('context-value', '%s' % d)
                    if how == 'ctxexc':
                        raise Stop()
                    if how == 'ctxbase':
                        raise StopBase()
            attempt(f)
        elif how == 'gc':
            self.objs[i] = None
            gc.collect()
        elif how == 'cleanup-gc':
            attempt(self.objs[i].cleanup)
            self.objs[i] = None
            gc.collect()
        elif how == 'del-ctx':
            def f():
                with self.objs[i]:
                    self.objs[i] = None
            attempt(f)
            gc.collect()
        elif how == 'threads':
            ts = [threading.Thread(target=attempt, args=(self.objs[i].cleanup,)) for _ in range(2)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()


TRACE = [core.REPO + '/mdp/utils/']


def worker_init():
    gc.collect()
    gc.freeze()


def run(case):
    return hist.run_hist(case, U01, TRACE)


def simplify(case):
    for i, f in enumerate(case['faults']):
        if f['nth']:
            yield dict(case, faults=case['faults'][:i] + [dict(f, nth=f['nth'] - 1)] + case['faults'][i + 1:])
