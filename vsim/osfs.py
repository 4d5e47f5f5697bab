"""Seam for operations on directory entries (installed before mdp is imported).

Without an active FS everything is passed on untouched.
"""
import errno
import os
import shutil
import tempfile  # noqa: shutil and tempfile decide at import what the os module supports

_FS = None
_real = {}
NAMES = ['listdir', 'scandir', 'remove', 'unlink', 'rmdir', 'rename', 'replace', 'truncate', 'chmod', 'mkdir', 'symlink', 'link']
DESTROY = {'remove', 'unlink', 'rmdir', 'rename', 'replace', 'truncate', 'chmod'}


def real(name):
    return _real[name]


class FS(object):
    """Observes and disturbs the operations below one scratch directory.

    faults: list of dicts
        op: one of NAMES, or any
        nth: which call
        how: error | vanish | yield
        errno: number      (error)
        which: 0..1        (vanish: which existing entry is removed by somebody else)
    allowed: directories below which entries may be removed (None: no restriction)
    """

    def __init__(self, faults=(), sim=None):
        self.faults = [dict(f) for f in faults]
        self.n = {}
        self.sim = sim
        self.enabled = True
        self.allowed = None
        self.escaped = []
        self.fired = []
        self.failed = []
        self.calls = 0

    def __enter__(self):
        global _FS
        assert _FS is None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='vsimfs_'))
        _FS = self
        return self

    def __exit__(self, *exc):
        global _FS
        _FS = None
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *names):
        return os.path.join(self.root, *names)

    def mine(self, p):
        return p == self.root or p.startswith(self.root + os.sep)

    def call(self, name, args, kw):
        f = _real[name]
        path = where(args[0] if args else '.', kw.get('dir_fd', kw.get('src_dir_fd')))
        if path is None or not self.mine(path):
            return f(*args, **kw)
        if name in DESTROY and self.allowed is not None:
            parent = os.path.realpath(os.path.dirname(path))
            full = os.path.join(parent, os.path.basename(path))
            if not any(full == a or full.startswith(a + os.sep) for a in self.allowed):
                # contained: nothing happens
                self.escaped.append((name, os.path.relpath(full, self.root)))
                raise OSError(errno.EPERM, 'the simulator protects this entry', path)
        self.calls += 1
        if self.sim is not None:
            self.sim.yield_point('fs')
        hit = None
        for kind in (name, 'any'):
            k = self.n.get(kind, 0)
            self.n[kind] = k + 1
            for x in self.faults:
                if hit is None and x['op'] == kind and x['nth'] == k:
                    hit = x
        if hit is not None:
            self.fired.append((name, hit['how']))
            if self.sim is not None:
                self.sim.count('fault:fs-%s-%s' % (name, hit['how']))
            if hit['how'] == 'error':
                self.failed.append((name, path))
                raise OSError(hit['errno'], os.strerror(hit['errno']), path)
            if hit['how'] == 'vanish':
                self.vanish(path if hit.get('same') else None, hit.get('which', 0.0))
        return f(*args, **kw)

    def vanish(self, path, which):
        """Somebody else removes an entry."""
        self.enabled = False
        try:
            if path is None:
                ent = []
                for a in self.allowed or []:
                    for dp, dn, fn in os.walk(a):
                        ent += [os.path.join(dp, x) for x in dn + fn]
                ent.sort()
                if not ent:
                    return
                path = ent[int(which * len(ent))]
            if os.path.islink(path) or not os.path.isdir(path):
                try:
                    os.remove(path)
                except OSError:
                    pass
            else:
                shutil.rmtree(path, ignore_errors=True)
        finally:
            self.enabled = True


def where(p, dir_fd=None):
    if isinstance(p, int):
        try:
            return os.readlink('/proc/self/fd/%d' % p).split(' (deleted)')[0]
        except OSError:
            return None
    try:
        p = os.fsdecode(p)
    except TypeError:
        return None
    if dir_fd is not None:
        base = where(dir_fd)
        return None if base is None else os.path.join(base, p)
    return os.path.abspath(p)


def _wrap(name):
    f = _real[name]

    def call(*args, **kw):
        fs = _FS
        if fs is None or not fs.enabled:
            return f(*args, **kw)
        return fs.call(name, args, kw)
    call.__name__ = call.__qualname__ = name
    call.__module__ = 'os'
    return call


def install():
    if _real:
        return
    for n in NAMES:
        _real[n] = getattr(os, n)
    for n in NAMES:
        w = _wrap(n)
        for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
            if _real[n] in s:
                s.add(w)
        setattr(os, n, w)
