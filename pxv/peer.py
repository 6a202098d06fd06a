"""python -m pxv.peer MODULE - answers observe(part, case) for another process, on another backend."""
import importlib
import os
import pickle
import struct
import subprocess
import sys
import traceback


def send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack('>I', len(b)) + b)
    f.flush()


def receive(f):
    head = f.read(4)
    if len(head) < 4:
        raise EOFError
    n = struct.unpack('>I', head)[0]
    return pickle.loads(f.read(n))


class Peer:
    def __init__(self, module, std):
        self.module, self.std = module, std
        self.p = None

    def ask(self, *q):
        if self.p is None:
            env = dict(os.environ, FORCE_STD_XML='true' if self.std else 'false', PYTHONHASHSEED='0')
            root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            self.p = subprocess.Popen([sys.executable, '-m', 'pxv.peer', self.module], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      cwd=root, env=env)
        try:
            send(self.p.stdin, q)
            kind, a = receive(self.p.stdout)
        except (EOFError, BrokenPipeError) as e:
            self.p = None
            raise RuntimeError('the peer process died') from e
        if kind == 'error':
            raise RuntimeError('in the peer process: ' + a)
        return a


def main(name):
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)           # nothing else goes to the answers
    sys.setrecursionlimit(3000)
    from . import env
    env.setup()
    mod = importlib.import_module(name)
    while True:
        try:
            q = receive(sys.stdin.buffer)
        except EOFError:
            return
        try:
            a = ('ok', mod.observe(*q))
        except BaseException:
            a = ('error', traceback.format_exc()[-4000:])
        send(out, a)


if __name__ == '__main__':
    main(sys.argv[1])
