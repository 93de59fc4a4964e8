import os
import signal
from sim.vhelper import spec, nap, step


def me(t):
    s = spec()
    return s['workers'][s['ids'].index(t)]


def want(t, x):
    w = me(t)
    if x == 0:
        nap(w['start'])
        step('begun')
        if w.get('linger'):
            import multiprocessing.util
            multiprocessing.util.Finalize(None, linger, (w['linger'],), exitpriority=1)
    return x < w['count']


def linger(n):
    step('bye')
    nap(n)
    step('bye')


EXTRAS = [None, False, '', 0, (), [], {}, ('a', None), [1, [2, (3,)]], {'a': (1, [])}, b'', 1.5, 'a\nb', '\u00e9', 2 ** 70, True]


def extra(x):
    return EXTRAS[x % len(EXTRAS)]


def work(t, x):
    w = me(t)
    nap(w['nap'])
    f = w.get('fail')
    if f and f[1] == x and f[0] in ('raise', 'die', 'abort'):
        step('failing', f[0])
        if f[0] == 'raise':
            raise ValueError(f'deliberate {t} {x}')
        if f[0] == 'abort':
            import marcel.exception
            raise marcel.exception.KillCommandException(f'deliberate {t} {x}')
        os.kill(os.getpid(), signal.SIGKILL)
    size = w['size'] if w['size'] < 50 else Pad(w['size'])
    return (t, x, size, extra(x)) if spec().get('extra') else (t, x, size)


class Pad(int):
    """An int whose pickle is big."""

    def __reduce__(self):
        return (unpad, (int(self), 'x' * int(self)))


def unpad(n, s):
    assert len(s) == n
    return Pad(n)
