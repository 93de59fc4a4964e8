"""Runs inside simulated processes: values for the pipelines, and the external programs."""
import os
import time
from sim.vhelper import spec, nap, step


def val(x):
    v = spec()['values'][x]
    return tuple(v) if isinstance(v, list) else v


def got(tag, x):
    """A value came out of an external command."""
    step('got', tag, 'err' if type(x).__name__ == 'Error' else 'out', str(x))
    s = spec()['down']
    n = got.n[tag] = got.n.get(tag, 0) + 1
    nap(s.get('nap', 0))
    f = s.get('fail')
    if f and f[1] == n - 1:
        step('failing', f[0])
        if f[0] == 'raise':
            raise ValueError('deliberate')
        import marcel.exception
        raise marcel.exception.KillCommandException('deliberate')
    return x


got.n = {}


def up(x):
    """Upstream of an external command."""
    s = spec()['up']
    nap(s.get('nap', 0))
    f = s.get('fail')
    if f and f[1] == x:
        step('failing', f[0])
        if f[0] == 'raise':
            raise ValueError('deliberate')
        import marcel.exception
        raise marcel.exception.KillCommandException('deliberate')
    return val(x)


# ---------------------------------------------------------------- external programs

class Stdin(object):

    def __init__(self):
        self.buf = b''
        self.eof = False

    def line(self):
        while b'\n' not in self.buf and not self.eof:
            d = os.read(0, 4096)
            if d:
                self.buf += d
            else:
                self.eof = True
        if b'\n' in self.buf:
            l, self.buf = self.buf.split(b'\n', 1)
        elif self.buf:
            l, self.buf = self.buf, b''
        else:
            return None
        step('in', l.decode('utf8', 'backslashreplace'))
        return l


def put(fd, data):
    try:
        os.write(fd, data)
    except BrokenPipeError:
        step('sigpipe', fd)
        os.kill(os.getpid(), 13)
    except OSError as e:
        step('eio', fd, e.errno)
        os._exit(1)
    step('wrote', fd, data.decode('latin-1'))


def program(i):
    step('start', i)
    stdin = Stdin()
    for a in spec()['programs'][i]:
        k = a[0]
        if k == 'w':
            put(a[1], a[2].encode('latin-1'))
        elif k == 'nap':
            nap(a[1])
        elif k == 'cat':
            while True:
                l = stdin.line()
                if l is None:
                    break
                nap(a[1])
                put(a[2], b'e:' + l + b'\n')
        elif k == 'read':
            for _ in range(a[1]):
                stdin.line()
        elif k == 'slurp':
            while stdin.line() is not None:
                nap(a[1])
        elif k == 'close':
            os.close(a[1])
        elif k == 'bg':
            if os.fork() == 0:
                os.close(0)
                step('bg')
                for t, text in a[1]:
                    nap(t)
                    put(1, text.encode('latin-1'))
                os._exit(0)
        elif k == 'exit':
            step('exiting')
            os._exit(a[1])
        elif k == 'die':
            step('exiting')
            os.kill(os.getpid(), a[1])
    step('exiting')
    os._exit(0)
