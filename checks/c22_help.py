"""Runs inside simulated processes."""
import os
import sys
import threading
from sim.vhelper import step, spec, nap


def forever(x):
    return forever(x) + 1


def work(i, x):
    """Processing of one value by command i, which may go wrong."""
    c = spec()['cmds'][i]
    step('work', i)
    n = work.n[i] = work.n.get(i, -1) + 1
    nap(c['nap'])
    f = c['fail']
    if f and f[1] == n:
        step('failing', i, f[0])
        if f[0] == 'raise':
            raise ValueError('deliberate')
        if f[0] == 'kill':
            import marcel.exception
            raise marcel.exception.KillCommandException('deliberate')
        if f[0] == 'memory':
            raise MemoryError()
        if f[0] == 'exit':
            sys.exit(3)
        if f[0] == 'die':
            os.kill(os.getpid(), 9)
        if f[0] == 'recurse':
            return forever(x)
        if f[0] == 'odd':
            return Odd()
        if f[0] == 'stop':
            raise StopIteration()
        if f[0] == 'os':
            raise OSError(5, 'deliberate')
    return x


work.n = {}


class Odd(object):
    """A value that nothing can be done with."""

    def __repr__(self):
        raise RuntimeError('deliberate')

    def __reduce__(self):
        raise RuntimeError('deliberate')


def val(i, x):
    work(i, x)
    return x


def got(tag, *v):
    step('got', tag, ' '.join(str(getattr(x, 'path', x)) for x in v))
    return v[0]


def probe(i, pwd, dirs, *v):
    try:
        cwd = os.getcwd()
    except OSError:
        cwd = None
    step('probe', i, cwd, str(pwd), [str(d) for d in dirs], [repr(x) for x in v], threading.active_count())


def program(i):
    for x in range(3):
        try:
            nap(spec()['cmds'][i]['nap'])
            os.write(1, b'line %d\n' % x)
        except OSError:
            os._exit(1)
        f = spec()['cmds'][i]['fail']
        if f and f[1] == x:
            if f[0] == 'die':
                os.kill(os.getpid(), 9)
            os._exit(5)
    os._exit(0)
