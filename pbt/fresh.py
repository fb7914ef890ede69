"""Run a conversion in a process that has not converted anything before.

A child forked at start (before the first conversion of this process) waits
for requests and forks again for each of them, so every request sees a newly
imported freesif at the cost of a fork.
"""
import os
import pickle
import struct
import sys

_state = {}


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _recv_exact(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, min(n - len(out), 1 << 20))
        if not b:
            raise EOFError
        out += b
    return out


def _recv(fd):
    n, = struct.unpack('<Q', _recv_exact(fd, 8))
    return pickle.loads(_recv_exact(fd, n))


def start(function):
    """function(request) -> picklable result, run in the fresh process."""
    stop()
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(w1)
            os.close(r2)
            _serve(r1, w2, function)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _state.update(pid=pid, w=w1, r=r2, owner=os.getpid())


def _serve(r, w, function):
    import signal
    signal.setitimer(signal.ITIMER_REAL, 0)
    while True:
        try:
            req = _recv(r)
        except EOFError:
            return
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(a)
            try:
                res = ('result', function(req))
            except BaseException as e:
                res = ('error', '%s: %s' % (type(e).__name__, e))
            try:
                _send(b, res)
            finally:
                os._exit(0)
        os.close(b)
        try:
            res = _recv(a)
        except EOFError:
            res = ('error', 'the process ended without an answer')
        os.close(a)
        os.waitpid(pid, 0)
        _send(w, res)


def call(req):
    if _state.get('owner') != os.getpid():
        raise RuntimeError('fresh.start() has not been called')
    _send(_state['w'], req)
    kind, res = _recv(_state['r'])
    if kind == 'error':
        raise RuntimeError('fresh process: ' + res)
    return res


def stop():
    if _state.get('owner') == os.getpid():
        os.close(_state['w'])
        os.close(_state['r'])
        os.waitpid(_state['pid'], 0)
    _state.clear()
