"""Simulated worker processes.

The real worker program runs in a real child process (forked from a single
threaded zygote which has numpy and mdp already imported), in lockstep: after
every request the simulator waits until the child asks for more input or exits,
so the child's answer is a function of the requests it got.  When the answer
becomes visible, whether it is torn, and when the worker dies is decided by the
simulator in virtual time.
"""
import array
import io
import json
import os
import signal
import socket
import struct
import subprocess
import sys

from . import core

_real_Popen = subprocess.Popen
_zygote = None           # socket


def install():
    class DualPopen(_real_Popen):
        def __new__(cls, *args, **kwargs):
            sim, t = core.current()
            if sim is not None:
                return SimPopen(sim, *args, **kwargs)
            return super().__new__(cls)
    DualPopen.__name__ = 'Popen'
    subprocess.Popen = DualPopen


# -------------------------------------------------------------- zygote

def start_zygote():
    """Start the zygote; called once per harness process, before any threads."""
    global _zygote
    if _zygote is not None:
        return
    a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '0'
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    _real_Popen([sys.executable, '-W', 'ignore', '-c',
                 'import sys; sys.path.insert(0, %r); sys.path.insert(0, %r); from vsim import zygote; '
                 'zygote.main(%d)' % (here, core.REPO, b.fileno())],
                pass_fds=[b.fileno()], env=env, cwd='/')
    b.close()
    _zygote = a
    msg = a.recv(100)
    assert msg == b'ready', msg


def _recvn(sock, n):
    buf = b''
    while len(buf) < n:
        part = sock.recv(n - len(buf))
        if not part:
            return None
        buf += part
    return buf


class SimPopen(object):
    """Looks like subprocess.Popen with pipes for stdin and stdout."""

    def __init__(self, sim, args=None, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, **kw):
        self._sim = sim
        self.args = args
        self.returncode = None
        self.index = len(sim.procs)
        self.pid = 4000000 + self.index
        plan = getattr(sim, 'proc_plan', None)
        self._plan = plan(self) if plan is not None else None
        sim.procs.append(self)
        a, b = socket.socketpair()
        req = json.dumps({'args': [str(x) for x in args]}).encode()
        socket.send_fds(_zygote, [req], [b.fileno()])
        b.close()
        self._sock = a
        self._alive = True          # real child alive
        self._dead = False          # simulated death (pipes broken)
        self._exit_code = None
        self._n_req = 0
        self._open = 0
        self._out_eof = False
        self._rbuf = b''
        self._waiters = []
        self._busy_until = 0.0
        self.stdin = SimStdin(self) if stdin is not None else None
        self.stdout = SimStdout(self) if stdout is not None else None
        self.stderr = None
        self._inpending = b''
        # run the child until it waits for input
        self._advance(b'', first=True)
        sim.yield_point('popen')

    # ---- lockstep with the real child
    def _advance(self, data, first=False):
        """Feed data; run the child to its next read or exit.  Returns (out, slept)."""
        out = b''
        slept = 0.0
        sock = self._sock
        if data:
            try:
                sock.sendall(struct.pack('>I', len(data)) + data)
            except (BrokenPipeError, ConnectionResetError):
                self._alive = False
                return out, slept
        while True:
            head = _recvn(sock, 5)
            if head is None:
                self._alive = False
                self._exit_code = -9 if self._exit_code is None else self._exit_code
                return out, slept
            kind, ln = head[:1], struct.unpack('>I', head[1:])[0]
            body = _recvn(sock, ln) if ln else b''
            if kind == b'N':
                return out, slept
            elif kind == b'O':
                out += body
            elif kind == b'S':
                slept += float(body)
            elif kind == b'L':
                self._sim.log('child', self.index, *json.loads(body))
            elif kind == b'X':
                self._exit_code = int(body)
                self._alive = False
                return out, slept

    def _request(self, data):
        """Data reached the worker's stdin."""
        sim = self._sim
        if self._dead:
            raise BrokenPipeError(32, 'Broken pipe')
        i = self._n_req
        self._n_req += 1
        plan = self._plan(i, data) if self._plan is not None else {}
        delay = plan.get('delay', 0.001)
        fault = plan.get('fault')
        sim.progress()
        if self._open:
            sim.count('overlapping-requests')
        self._open += 1
        sim.log('request', self.index, i)
        if fault == 'before':           # dies when it gets the request
            sim.count('fault:worker-dies-before-task')
            self._kill_real()
            sim.call_at(max(sim.now, self._busy_until) + delay, self._die)
            return
        was_alive = self._alive
        out, slept = self._advance(data)
        start = max(sim.now, self._busy_until)
        done = start + delay + slept
        self._busy_until = done
        if fault == 'during':
            sim.count('fault:worker-dies-during-task')
            self._kill_real()
            sim.call_at(done, self._die)
            return
        if fault == 'torn' and out:
            k = int(plan.get('cut', 0.5) * (len(out) - 1))
            sim.count('fault:torn-answer')
            self._kill_real()
            part = out[:k]
            sim.call_at(done, lambda: self._deliver(part, False))
            sim.call_at(done, self._die)
            return
        if fault == 'garbage' and out:
            sim.count('fault:garbage-answer')
            self._kill_real()
            part = b'\x00garbage' * 3
            sim.call_at(done, lambda: self._deliver(part))
            sim.call_at(done, self._die)
            return
        if out:
            # deliver in two pieces now and then: readers must not rely on one read
            if plan.get('split') and len(out) > 1:
                k = max(1, int(plan['split'] * (len(out) - 1)))
                a, b = out[:k], out[k:]
                sim.call_at(done, lambda: self._deliver(a, False))
                sim.call_at(done + 0.01, lambda: self._deliver(b))
                done += 0.01
            else:
                sim.call_at(done, lambda: self._deliver(out))
        if fault == 'after':
            sim.count('fault:worker-dies-after-task')
            self._kill_real()
            sim.call_at(done, self._die)
        elif not self._alive:
            sim.call_at(done, self._die)

    def _kill_real(self):
        if self._alive:
            self._alive = False
            if self._exit_code is None:
                self._exit_code = -9
        try:
            self._sock.close()      # the child sees EOF and leaves
        except OSError:
            pass

    def _deliver(self, data, last=True):
        if last:
            self._sim.log('answer', self.index)
            self._open = 0
        self._sim.progress()
        self._rbuf += data
        self._wake()

    def _die(self):
        if self._dead:
            return
        self._sim.log('worker-exit', self.index)
        self._open = 0
        self._dead = True
        self._out_eof = True
        self.returncode_pending = self._exit_code
        self._wake()

    def _wake(self):
        for w in self._waiters:
            self._sim.make_runnable(w)

    def _wait_event(self, why, timeout=None):
        sim, t = core.current()
        if sim is None:
            raise RuntimeError('simulated process used outside of its simulation')
        self._waiters.append(t)
        try:
            sim.block(t, why, None if timeout is None else sim.now + timeout)
        finally:
            if t in self._waiters:
                self._waiters.remove(t)

    # ---- Popen interface
    def poll(self):
        if self.returncode is None and self._dead:
            self.returncode = self._exit_code if self._exit_code is not None else 0
        return self.returncode

    def wait(self, timeout=None):
        deadline = None if timeout is None else self._sim.now + timeout
        while self.poll() is None:
            if deadline is not None and self._sim.now >= deadline:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self._wait_event('process exit',
                             None if deadline is None else deadline - self._sim.now)
        return self.returncode

    def communicate(self, input=None, timeout=None):
        if input and self.stdin:
            self.stdin.write(input)
        if self.stdin:
            self.stdin.close()
        data = self.stdout.read() if self.stdout else None
        self.wait(timeout)
        return data, None

    def send_signal(self, sig):
        if self.poll() is None:
            self._kill_real()
            self._exit_code = -int(sig)
            self._die()

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self.stdout:
            self.stdout.close()
        if self.stdin:
            self.stdin.close()
        self.wait()

    def __del__(self):
        pass

    def _sim_dispose(self):
        try:
            self._sock.close()
        except OSError:
            pass


class SimStdin(object):
    """Buffered writer end of the worker's stdin."""

    BUF = 8192

    def __init__(self, proc):
        self._p = proc
        self._buf = b''
        self.closed = False
        self.name = '<sim stdin>'

    def writable(self):
        return True

    def write(self, data):
        if self.closed:
            raise ValueError('write to closed file')
        data = bytes(data)
        self._buf += data
        if len(self._buf) > self.BUF:
            self._push()
        return len(data)

    def _push(self):
        p = self._p
        p._sim.yield_point('pipe-write')
        data, self._buf = self._buf, b''
        if p._dead:
            raise BrokenPipeError(32, 'Broken pipe')
        if data:
            p._request(data)

    def flush(self):
        if self.closed:
            raise ValueError('flush of closed file')
        self._push()

    def close(self):
        if self.closed:
            return
        try:
            if not self._p._dead:
                self._push()
        except OSError:
            pass
        finally:
            self.closed = True
        p = self._p
        if not p._dead and p._alive:
            # EOF for the worker: it leaves after what it is doing
            p._kill_real()
            p._sim.call_at(max(p._sim.now, p._busy_until) + 0.001, p._die)

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


class SimStdout(object):
    """Reader end of the worker's stdout."""

    def __init__(self, proc):
        self._p = proc
        self.closed = False
        self.name = '<sim stdout>'

    def readable(self):
        return True

    def _need(self):
        """Block until more data or EOF; False at EOF."""
        p = self._p
        n = len(p._rbuf)
        while len(p._rbuf) == n and not p._out_eof:
            p._wait_event('worker answer')
        return len(p._rbuf) > n

    def read(self, n=-1):
        p = self._p
        p._sim.yield_point('pipe-read')
        while n is None or n < 0 or len(p._rbuf) < n:
            if not self._need():
                break
        if n is None or n < 0:
            n = len(p._rbuf)
        data, p._rbuf = p._rbuf[:n], p._rbuf[n:]
        return data

    def read1(self, n=-1):
        p = self._p
        if not p._rbuf:
            self._need()
        if n is None or n < 0:
            n = len(p._rbuf)
        data, p._rbuf = p._rbuf[:n], p._rbuf[n:]
        return data

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)

    def readline(self, limit=-1):
        p = self._p
        while b'\n' not in p._rbuf:
            if not self._need():
                break
        i = p._rbuf.find(b'\n')
        n = len(p._rbuf) if i < 0 else i + 1
        data, p._rbuf = p._rbuf[:n], p._rbuf[n:]
        return data

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def close(self):
        self.closed = True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')
