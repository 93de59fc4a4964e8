"""Values for stored streams; runs inside simulated processes."""
from sim.vhelper import spec, nap, step

POOL = ['abc', 'def', ('t', 1), 'long ' * 10]
SHARED = []
SHARED_DICT = {}


def make(d):
    k, v = d
    if k == 'pool':
        return POOL[v]
    if k == 'mut':
        SHARED.append(v)
        return SHARED, v
    if k == 'dict':
        SHARED_DICT[v] = POOL[v % 4]
        return SHARED_DICT
    if k == 'big':
        return 'B%d' % v + 'x' * 20000
    if k == 'tuple':
        return v, POOL[0], None, [v]
    if k == 'list':
        return [v, POOL[1], POOL[1]]
    if k == 'bytes':
        return b'\x00\xff%d' % v
    if k == 'empty':
        return ''
    if k == 'none':
        return None
    if k == 'bad':
        import _thread
        return (x for x in (v,))
    return v


def short(r):
    import zlib
    return r if len(r) < 300 else r[:40] + '...' + str(zlib.crc32(r.encode()))


def put(c, x):
    """The xth value of command c."""
    cmd = spec()['cmds'][c]
    nap(cmd['nap'])
    if cmd.get('abort') == x:
        step('aborting', c)
        import marcel.exception
        raise marcel.exception.KillCommandException('deliberate')
    d = cmd['values'][x]
    v = make(d)
    if d[0] != 'bad':
        row = tuple(v) if isinstance(v, (tuple, list)) else (v,)
        step('put', c, short(repr(row)))
    return v


def got(c, tag, *row):
    cmd = spec()['cmds'][c]
    n = got.n[c, tag] = got.n.get((c, tag), 0) + 1
    if cmd.get('fail') and cmd['fail'][1] == n - 1:
        step('failing', c)
        if cmd['fail'][0] == 'raise':
            raise ValueError('deliberate')
        import marcel.exception
        raise marcel.exception.KillCommandException('deliberate')
    step('got', c, tag, short(repr(row)))
    return row


got.n = {}


def same(c, *row):
    step('put', c, short(repr(row)))
    return row
