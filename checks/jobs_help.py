import os
import signal
from sim.vhelper import spec, nap, step


def work(i, x):
    j = spec()['jobs'][i]
    if j['count'] == 0:
        return 0
    nap(j['nap'])
    f = j.get('fail')
    if f and f[0] != 'oom' and f[1] == x:
        step('failing', f[0])
        if f[0] == 'raise':
            raise ValueError('deliberate')
        if f[0] == 'abort':
            import marcel.exception
            raise marcel.exception.KillCommandException('deliberate')
        if f[0] == 'exit':
            os._exit(3)
        os.kill(os.getpid(), signal.SIGKILL)
    return i * 1000 + x
