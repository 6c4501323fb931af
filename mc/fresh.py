"""A freshly started interpreter that imported kcorrect and did nothing else, forking once per request.

python -m mc.fresh SOCKET SCRATCH"""
import atexit
import os
import pickle
import socket
import struct
import subprocess
import sys
import time


def send(s, x):
    b = pickle.dumps(x)
    s.sendall(struct.pack("<q", len(b)) + b)


def receive(s):
    def read(n):
        b = b""
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x:
                raise EOFError("the interpreter ended")
            b += x
        return b
    return pickle.loads(read(struct.unpack("<q", read(8))[0]))


class Fresh:
    """The caller's end"""

    def __init__(self):
        from mc import kc
        self.path = os.path.join(kc.scratch(), "fresh-%d" % os.getpid())
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mc.fresh", self.path, kc.scratch()], cwd=root,
                                  stdin=subprocess.DEVNULL)
        me = os.getpid()
        atexit.register(lambda: self.p.kill() if os.getpid() == me else None)
        t = time.time()
        while not os.path.exists(self.path):
            if self.p.poll() is not None or time.time() - t > 120:
                raise RuntimeError("no fresh interpreter")
            time.sleep(0.05)

    def __call__(self, blob, fn, *args):
        """fn(object, *args) in that interpreter: result, the pickled object"""
        with socket.socket(socket.AF_UNIX) as s:
            s.connect(self.path)
            send(s, (blob, fn, args))
            ok, x = receive(s)
        if not ok:
            raise RuntimeError(x)
        return x


def answer(s):
    try:
        blob, fn, args = receive(s)
        o = pickle.loads(blob)
        r = fn(o, *args)
        x = True, (r, pickle.dumps(o, pickle.HIGHEST_PROTOCOL))
    except Exception as e:                                  # noqa: BLE001
        x = False, "in a freshly started interpreter: %s: %s" % (type(e).__name__, e)
    send(s, x)


def serve(path, scratch):
    from mc import kc
    kc._scratch = scratch
    import mc.world                                         # noqa: F401
    parent = os.getppid()
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + ".new")
    s.listen(64)
    os.rename(path + ".new", path)
    s.settimeout(1.)
    while os.getppid() == parent and os.path.exists(path):
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        try:
            c, _ = s.accept()
        except socket.timeout:
            continue
        if os.fork() == 0:
            try:
                c.settimeout(100.)
                answer(c)
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    serve(*sys.argv[1:])
