"""Simulated failing disk.

Files opened for writing (or reading) below one scratch directory go through a
wrapper which counts operations and injects faults; everything else is passed
on untouched.  The seam is io.open, which open(), os.fdopen() and tempfile use.
"""
import builtins
import contextlib
import errno
import io
import itertools
import os
import shutil
import tempfile

from . import core

_real_open = io.open
_DISK = None


class DiskCrash(BaseException):
    """The process dies in the middle of a disk operation."""


class Disk(object):
    """faults: list of dicts
        op: open | write | close | read | any
        nth: which operation of this kind fails (0..)
        how: error | short | crash | lost
        cut: fraction of the data which still gets written (short, crash)
        errno: number
    """

    def __init__(self, faults=(), sim=None):
        self.faults = [dict(f) for f in faults]
        self.n = {}
        self.sim = sim
        self.events = []
        self.fired = []
        self.enabled = True
        self.root = tempfile.mkdtemp(prefix='vsimdisk_')
        self.old_tempdir = tempfile.tempdir
        self.path_of_fd = {}
        self.open_files = []

    # -- life cycle
    def __enter__(self):
        global _DISK
        assert _DISK is None
        _DISK = self
        tempfile.tempdir = self.root
        # repeatable names of temporary files
        self.old_names = tempfile._name_sequence
        tempfile._name_sequence = ('t%06d' % i for i in itertools.count())
        return self

    def __exit__(self, *exc):
        global _DISK
        _DISK = None
        tempfile.tempdir = self.old_tempdir
        tempfile._name_sequence = self.old_names
        for f in self.open_files:
            f._drop()
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.root, name)

    def files(self):
        out = []
        for d, ds, fs in os.walk(self.root):
            out += [os.path.relpath(os.path.join(d, f), self.root) for f in fs]
        return sorted(out)

    @contextlib.contextmanager
    def healthy(self):
        old, self.enabled = self.enabled, False
        try:
            yield
        finally:
            self.enabled = old

    # -- decisions
    def check(self, op):
        """Return the fault for this operation, or None."""
        if not self.enabled:
            return None
        hit = None
        for kind in (op, 'any'):
            k = self.n.get(kind, 0)
            self.n[kind] = k + 1
            for f in self.faults:
                if f['op'] == kind and f['nth'] == k and hit is None:
                    hit = f
        if hit is not None:
            self.fired.append((op, hit['how']))
            if self.sim is not None:
                self.sim.count('fault:disk-%s-%s' % (op, hit['how']))
                self.sim.log('disk-fault', op, hit['how'])
        return hit


def _error(f):
    no = f.get('errno', errno.ENOSPC)
    return OSError(no, os.strerror(no))


class SimFile(object):
    """Wrapper of a binary or text file."""

    def __init__(self, disk, raw, writing, name):
        self._d = disk
        self._f = raw
        self._w = writing
        self._dead = False
        self.name = name
        self._lost = False

    def _drop(self):
        if not self._f.closed:
            try:
                self._f.close()
            except Exception:
                pass

    def write(self, data):
        if self._dead:
            return len(data)
        f = self._d.check('write') if self._w else None
        if f is None:
            if self._lost:
                return len(data)
            n = self._f.write(data)
            self._f.flush()
            return n
        how = f['how']
        if how == 'lost':
            # acknowledged but never reaches the disk
            self._lost = True
            return len(data)
        mv = data if isinstance(data, str) else bytes(data)
        k = int(len(mv) * f.get('cut', 0.5))
        if how in ('short', 'crash'):
            self._f.write(mv[:k])
            self._f.flush()
        if how == 'crash':
            raise DiskCrash()
        raise _error(f)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def _read(self, fn, *a):
        f = self._d.check('read') if self._d.enabled else None
        if f is not None:
            if f['how'] == 'short':
                data = fn(*a)
                return data[:int(len(data) * f.get('cut', 0.5))]
            if f['how'] == 'crash':
                raise DiskCrash()
            raise _error(f)
        return fn(*a)

    def read(self, *a):
        return self._read(self._f.read, *a)

    def readline(self, *a):
        return self._read(self._f.readline, *a)

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def close(self):
        if self._f.closed:
            return
        f = self._d.check('close') if self._w else None
        self._f.close()
        if f is not None:
            if f['how'] == 'crash':
                raise DiskCrash()
            if f['how'] != 'lost':
                raise _error(f)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __del__(self):
        try:
            self._drop()
        except Exception:
            pass


def _where(file):
    if isinstance(file, int):
        try:
            return os.readlink('/proc/self/fd/%d' % file)
        except OSError:
            return ''
    try:
        return os.path.abspath(os.fspath(file))
    except TypeError:
        return ''


def _open(file, mode='r', *args, **kwargs):
    disk = _DISK
    if disk is None:
        return _real_open(file, mode, *args, **kwargs)
    name = _where(file)
    if not isinstance(name, str) or not (name == disk.root or name.startswith(disk.root + os.sep)):
        return _real_open(file, mode, *args, **kwargs)
    writing = any(c in mode for c in 'wax+')
    f = disk.check('open' if writing else 'openr')
    if f is not None:
        if f['how'] == 'crash':
            raise DiskCrash()
        raise _error(f)
    raw = _real_open(file, mode, *args, **kwargs)
    sf = SimFile(disk, raw, writing, file)
    disk.open_files.append(sf)
    return sf


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    io.open = _open
    builtins.open = _open
    import _io
    # tempfile refers to the C module
    tempfile._io = _IoProxy(_io)


class _IoProxy(object):
    def __init__(self, mod):
        self._mod = mod
        self.open = _open

    def __getattr__(self, name):
        return getattr(self._mod, name)
