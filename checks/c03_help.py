"""Runs inside simulated processes: the pipelines, and ssh, sudo and what they run."""
import io
import os
import sys
import time
from sim import rt
from sim.vhelper import spec, nap, step

PAD = 'p' * 3000


def host():
    return os.environ.get('VHOST', 'here')


def fate():
    return spec()['hosts'].get(host(), {})


def noise(x):
    n = fate().get('noise')
    if n and n[1] == x:
        put(2, b'noise\n' * (n[0] // 6))


def make(x, bulk=None):
    """One value of a host."""
    h = fate()
    v = h['values'][x]
    noise(x + 1)
    nap(v['nap'])
    if v['kind'] == 'error':
        raise ValueError(f'deliberate {x} at {host()}')
    text = f'{host()}/{x}/' + PAD[:v['pad']]
    return (text, x) if v['kind'] == 'tuple' else text


def program(name):
    """What the pipeline of a host runs."""
    os.environ['VHOST'] = name
    for i in range(count()):
        put(1, make(i).encode() + b'\n')
    os._exit(0)


def count():
    return len(fate()['values'])


def got(*v):
    """A value arrives downstream."""
    d = spec()['down']
    nap(d)
    return 'v:' + '|'.join(str(x) for x in v)


class FdRaw(io.RawIOBase):

    def __init__(self, fd):
        self.fd = fd
        self.count = 0

    def fileno(self):
        return self.fd

    def readable(self):
        return self.fd == 0

    def writable(self):
        return self.fd > 0

    def readinto(self, b):
        d = os.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        b = bytes(b)
        f = fate().get('fault')
        if self.fd == 1 and f and f[0] == 'cut' and self.count + len(b) > f[1]:
            put(1, b[:f[1] - self.count])
            over(f)
        put(self.fd, b)
        self.count += len(b)
        return len(b)


def put(fd, b):
    while b:
        try:
            n = os.write(fd, b)
        except OSError:
            os._exit(1)
        b = b[n:]


def over(f):
    """The connection is lost."""
    if not f[2]:
        put(2, f'client_loop: send disconnect: Broken pipe to {host()}\n'.encode())
    step('failed', host(), f[0])
    os._exit(255)


def command(name):
    os.environ['VHOST'] = name
    step('connect', name)
    h = fate()
    nap(h.get('delay', 0))
    f = h.get('fault')
    noise(0)
    if f:
        if f[0] == 'refuse':
            if not f[2]:
                put(2, f'ssh: connect to host {name} port 22: Connection refused\n'.encode())
            step('failed', name, f[0])
            os._exit(255)
        if f[0] == 'notfound':
            while os.read(0, 65536):
                pass
            put(2, f'bash: farcel.py: command not found at {name}\n'.encode())
            step('failed', name, f[0])
            os._exit(127)
        if f[0] == 'banner':
            put(2, [b'Welcome to ' + name.encode() + b'\n', b'\xff\xfe W\xe4rnung at ' + name.encode() + b'\n', b'no newline'][f[1] % 3])
    farcel()


def farcel():
    import marcel.util
    import marcel.api
    real_trace = marcel.util.Trace
    marcel.util.Trace = lambda path: real_trace(os.path.join(os.environ['HOME'], f'farcel-{os.getpid()}.log'))
    sys.stdin = sys.__stdin__ = io.TextIOWrapper(io.BufferedReader(FdRaw(0)))
    sys.stdout = sys.__stdout__ = io.TextIOWrapper(io.BufferedWriter(FdRaw(1)))
    sys.stderr = io.TextIOWrapper(io.BufferedWriter(FdRaw(2)), write_through=True)
    from sim.boot import REPO
    path = os.path.join(REPO, 'bin', 'farcel.py')
    with rt.real.io_open(path) as f:
        code = compile(f.read(), path, 'exec')
    try:
        exec(code, {'__name__': '__main__', '__file__': path})
    except SystemExit:
        pass
    finally:
        try:
            sys.stdout.flush()
        except ValueError:
            pass
    step('served', host())
    os._exit(0)
