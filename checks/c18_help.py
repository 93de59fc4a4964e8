"""Runs inside simulated processes."""
import time
from sim.vhelper import spec, step


def tick(cmd, t):
    c = spec()['cmds'][cmd]
    n = tick.n[cmd] = tick.n.get(cmd, 0) + 1
    step('tick', cmd, n, t, time.time())
    naps = c['naps']
    if n > len(naps) and c['stop'] == 'int':
        return n
    if n > len(naps):
        import marcel.exception
        raise marcel.exception.KillCommandException('enough')
    if naps[n - 1] < 0:
        raise ValueError('deliberate')
    time.sleep(naps[n - 1])
    step('tock', cmd, n, time.time())
    return n


tick.n = {}
