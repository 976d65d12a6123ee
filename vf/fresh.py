"""Run a function in a process in which nothing of the library was used before.

`Fresh()` forks a server when it is created (do that before the first case does
anything); every call forks the server again, so each call sees the state right
after the imports."""
import os
import pickle
import struct
import traceback


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<q', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def get(n):
        out = b''
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out
    return pickle.loads(get(struct.unpack('<q', get(8))[0]))


class Fresh:
    def __init__(self):
        self.pid = os.getpid()
        a, b = os.pipe(), os.pipe()
        if os.fork() == 0:
            try:
                os.close(a[1])
                os.close(b[0])
                while True:
                    try:
                        func, args, kw = _recv(a[0])
                    except EOFError:
                        break
                    p = os.fork()
                    if p == 0:
                        try:
                            r = (True, func(*args, **kw))
                        except BaseException:
                            r = (False, traceback.format_exc())
                        try:
                            _send(b[1], r)
                        except BaseException:
                            _send(b[1], (False, traceback.format_exc()))
                        os._exit(0)
                    os.waitpid(p, 0)
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.w, self.r = a[1], b[0]

    def __call__(self, func, *args, **kw):
        """-> (ok, result or traceback text)"""
        _send(self.w, (func, args, kw))
        return _recv(self.r)


_f = None


def fresh():
    """one server per process"""
    global _f
    if _f is None or _f.pid != os.getpid():
        _f = Fresh()
    return _f
