"""Zygote: forks worker children which run the real worker program."""
import io
import json
import os
import runpy
import signal
import socket
import struct
import sys
import time


class _ChildIn(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock
        self.buf = b''

    def readable(self):
        return True

    def readinto(self, b):
        if not self.buf:
            try:
                self.sock.sendall(b'N' + struct.pack('>I', 0))
                head = self._recvn(4)
                if head is None:
                    return 0
                self.buf = self._recvn(struct.unpack('>I', head)[0]) or b''
            except OSError:
                os._exit(0)
        n = min(len(b), len(self.buf))
        b[:n] = self.buf[:n]
        self.buf = self.buf[n:]
        return n

    def _recvn(self, n):
        out = b''
        while len(out) < n:
            part = self.sock.recv(n - len(out))
            if not part:
                os._exit(0)      # killed by the simulator
            out += part
        return out


class _ChildOut(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        try:
            self.sock.sendall(b'O' + struct.pack('>I', len(b)) + b)
        except OSError:
            os._exit(0)
        return len(b)


def child(sock, args):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import numpy
    numpy.random.seed(12345)
    import random
    random.seed(12345)
    devnull = os.open('/dev/null', os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(devnull, fd)

    def send(kind, body=b''):
        try:
            sock.sendall(kind + struct.pack('>I', len(body)) + body)
        except OSError:
            os._exit(0)

    def fake_sleep(secs):
        send(b'S', repr(float(secs)).encode())
    time.sleep = fake_sleep
    import vsim.vtasks
    vsim.vtasks.child_log = lambda obj: send(b'L', json.dumps(obj).encode())
    # [exe, options..., script, arguments...]
    rest = list(args[1:])
    unbuffered = False
    while rest and rest[0].startswith('-'):
        opt = rest.pop(0)
        unbuffered = unbuffered or opt == '-u'
        if opt in ('-W', '-X'):
            rest.pop(0)
    script = rest[0]
    sys.argv = rest
    raw_in = _ChildIn(sock)
    sys.stdin = io.TextIOWrapper(io.BufferedReader(raw_in, 65536))
    raw_out = _ChildOut(sock)
    if not unbuffered:
        raw_out = io.BufferedWriter(raw_out, 8192)
    sys.stdout = out = io.TextIOWrapper(raw_out, write_through=True)
    sys.stderr = open('/dev/null', 'w')
    sys.path[0:0] = [os.path.dirname(os.path.abspath(script))]
    code = 0
    try:
        runpy.run_path(script, run_name='__main__')
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        code = 1
    try:
        out.flush()
    except Exception:
        pass
    send(b'X', str(code).encode())
    os._exit(0)


def main(fd):
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.dont_write_bytecode = True
    ctl = socket.socket(fileno=fd)
    import numpy
    import scipy.linalg
    import mdp
    import bimdp
    import mdp.parallel
    import bimdp.parallel
    import mdp.hinet
    import mdp.utils
    import vsim.vtasks
    import vsim.vnodes
    ctl.send(b'ready')
    while True:
        try:
            msg, fds, flags, addr = socket.recv_fds(ctl, 1 << 20, 1)
        except OSError:
            os._exit(0)
        if not msg:
            os._exit(0)
        req = json.loads(msg)
        sock = socket.socket(fileno=fds[0])
        if os.fork() == 0:
            ctl.close()
            try:
                child(sock, req['args'])
            finally:
                os._exit(1)
        sock.close()
