"""store, append, load: exactly the stored stream, against a model of the variables."""
from checks.common import *

QUICK = 1600
THOROUGH = 60000
RULE = 'distinct (schedule, workload) pairs in which something was stored and later loaded'
REAL = [REAL_MAIN, 'store, load, reservoirs, pickle files', 'job control, fork workers (multiprocessing) where used']
STUBS = ['line editor and user in the interactive variants', 'process creation, waiting, signals, locks, sleeping and '
         'readiness are served by the simulated kernel']
ASSUMPTIONS = ['files are real files in a memory file system; only calls on them are made to fail']
H = "__import__('checks.c16_help').c16_help"
KINDS = ['int', 'pool', 'pool', 'pool', 'mut', 'mut', 'dict', 'big', 'tuple', 'list', 'bytes', 'empty', 'none']


class Streams(Interactive):
    max_steps = 120000
    faulty = False

    def build(self, ch):
        cmds = []
        n = ch.between(2, 12)
        names = ['v', 'w', 'u'][:ch.between(1, 3)]
        kinds = ['store', 'store', 'append', 'append', 'load', 'load', 'load', 'load2', 'args', 'case', 'fork', 'copy', 'self',
                 'assign', 'delete', 'badload', 'head']
        for i in range(n):
            c = dict(kind=ch.pick(kinds) if i else 'store', var=ch.pick(names), nap=ch.pick([0, 0, 0, 0.7]))
            if c['kind'] in ('store', 'append'):
                c['values'] = [[ch.pick(KINDS), ch.draw(4)] for _ in range(ch.pick([1, 2, 3, 6, 15]))]
                if ch.coin(0.15):
                    c['values'][ch.draw(len(c['values']))] = ['bad', 0]
                if ch.coin(0.12):
                    c['abort'] = ch.draw(len(c['values']))
            if c['kind'] == 'copy':
                c['to'] = ch.pick(names)
            if c['kind'] == 'badload':
                c['fail'] = [ch.pick(['raise', 'abort']), ch.draw(3)]
            cmds.append(c)
        cmds += [dict(kind='load', var=v, nap=0) for v in names]
        s = dict(cmds=cmds, mode=ch.pick(['script', 'script', 'shell', 'shell-fork']))
        if self.faulty:
            # errors of calls on the files of one command, or death of its job
            at = [i for i, c in enumerate(cmds) if c['kind'] in ('store', 'append', 'copy')]
            c = cmds[ch.pick(at)]
            if s['mode'] == 'script' or ch.coin(0.4):
                c['fault'] = ['err', ch.pick([errno.ENOSPC, errno.EIO, errno.EDQUOT]), ch.draw(8), ch.pick([1, 1, 100]),
                              ch.draw(3)]
            else:
                c['fault'] = ['kill', 0, ch.draw(60), 1, 0]
        return s

    def text(self, i):
        c = self.k.spec['cmds'][i]
        k, v = c['kind'], c['var']
        feed = f"gen {len(c.get('values', ()))} | (x: {H}.put({i}, x)) "
        show = f"map (*x: {H}.got({i}, 0, *x)) | select (*x: False)"
        return {'store': feed + f'>$ {v}',
                'append': feed + f'>>$ {v}',
                'load': f'{v} <$ {show}',
                'load2': f"{v} <$ args (|a: {v} <$ map (*x: {H}.got({i}, 0, *x)) | select (*x: False) |)",
                'args': f"gen 2 | args (|a: load {v} | map (*x: {H}.got({i}, a, *x)) | select (*x: False) |)",
                'case': f"gen 2 | case (x: True) (| load {v} | map (*x: {H}.got({i}, 0, *x)) | select (*x: False) |)",
                'fork': f"fork 2 (|a: {v} <$ map (*x: {H}.got({i}, a, *x)) | select (*x: False) |)",
                'copy': f"{v} <$ map (*x: {H}.same({i}, *x)) >$ {c.get('to')}",
                'self': f'{v} <$ map (*x: x) >$ {v}',
                'assign': f'{v} = (7)',
                'delete': f'env -d {v}',
                'badload': f'{v} <$ {show}',
                'head': f'{v} <$ head 1 | {show}'}[k]

    def boot(self, k):
        self.k = k
        k.gated = {'openw', 'write', 'open'} if self.faulty else ()
        k.choose_policy()
        s = k.spec
        self.model = {}            # var -> list of reprs | 'int' | absent; ('partial', base, new): base + a prefix of new
        self.current = None
        self.torn, self.left, self.stale = set(), {}, {}
        n = len(s['cmds'])
        mark = lambda i: f'(__import__("sim.vhelper").vhelper.step("cmd", {i}))'
        lines = []
        for i in range(n):
            lines += [mark(i), self.text(i)]
        lines.append(mark(n))
        if s['mode'] == 'script':
            boot_script(k, lines, s)
        else:
            self.shell = self.terminal(k, 'shell', [(0.05, l) for l in lines], spec=s, MARCEL_MULTIPROCESSING_START_METHOD=
                                       'spawn' if s['mode'] == 'shell' else 'fork')['proc']

    def on_note(self, k, proc, args):
        if args[0] == 'cmd':
            self.current = args[1]
            self.calls = 0

    def gate(self, k, proc, task, args):
        if self.current is None or self.current >= len(k.spec['cmds']):
            return None
        f = k.spec['cmds'][self.current].get('fault')
        if not f:
            return None
        if f[0] == 'kill':
            if proc.kind in ('mp', 'fork') and proc.steps >= f[2] and not getattr(self, 'murdered', None):
                self.murdered = True
                k.fault('job_killed')
                return ('kill',)
        elif args[0] == 'fs' and '.pickle' in args[2]:
            self.calls += 1
            if f[2] < self.calls <= f[2] + f[3]:
                k.fault(errno.errorcode[f[1]])
                if args[1] == 'write' and f[4] == 2 and args[3] > 1 and self.calls == f[2] + 1:
                    # A part is written, then the error follows
                    f[2] += 1
                    return ('short', args[3] // 2)
                return ('err', f[1])
        return None

    # ------------------------------------------------------------ judgement

    def check(self, k):
        s = k.spec
        if not self.liveness(k):
            return
        if not any(h[5] == len(s['cmds']) for h in k.history if h[2] == 'cmd'):
            k.violation(('stopped', f'a command ended the session: {self.uncaught(k)} {self.output(k, fd=2)[-1500:]}'))
            return
        at = {h[5]: i for i, h in enumerate(k.history) if h[2] == 'cmd'}
        m = self.model
        for i, c in enumerate(s['cmds']):
            hist = k.history[at[i]:at[i + 1]]
            out = ''.join(h[6] for h in hist if h[2] == 'out')
            puts = [h[6] for h in hist if h[2] == 'put' and h[5] == i]
            gots = {}
            for h in hist:
                if h[2] == 'got' and h[5] == i:
                    gots.setdefault(h[6], []).append(h[7])
            self.judge(k, i, c, puts, gots, out)
            if k.violations:
                return

    def judge(self, k, i, c, puts, gots, out):
        m = self.model
        kind, v = c['kind'], c['var']
        was = m.get(v)
        where = f'command {i} {self.text(i)}'
        stream = isinstance(was, (list, tuple))
        if c.get('fault') and k.faults:
            # Whatever is stored now is what was there before, followed by a beginning of what should have been stored
            to = c.get('to', v)
            old = m.get(to)
            if kind == 'append' and isinstance(old, list):
                m[to] = ('partial', old, puts, None)
            elif kind == 'append' and old == 'int':
                pass
            elif isinstance(old, tuple) or kind == 'append' and self.left.get(to):
                m[to] = ('unknown',)
                self.left[to] = self.left.get(to, []) + puts
            else:
                # A new variable: a job that dies does not define it
                if not isinstance(old, list):
                    self.left[to] = self.left.get(to, []) + puts
                m[to] = ('partial', [], puts, old)
            self.torn.add(to)
            return
        if kind in ('store', 'append', 'copy'):
            to = c.get('to', v)
            if kind == 'copy' and (not stream or to == v):
                if puts:
                    k.violation(('wrong', f'{where}: should have been refused, wrote {puts}'))
                return
            if kind == 'append' and was == 'int':
                if 'appended' not in out:
                    k.violation(('wrong', f'{where}: appending to something that is not a stream was not refused: {out}'))
                return
            if kind == 'append' and isinstance(was, tuple):
                m[to] = ('unknown',)
                self.left[to] = self.left.get(to, []) + puts
                return
            if kind == 'append' and was is not None:
                m[to] = was + puts if to not in self.torn else ('unknown',)
            elif kind == 'copy' and isinstance(was, tuple):
                m[to] = ('unknown',)
            else:
                self.torn.discard(to)
                if kind == 'append' and self.left.get(to):
                    self.stale[to] = [self.left[to], puts]
                else:
                    self.stale.pop(to, None)
                if kind != 'append':
                    self.left.pop(to, None)
                # A job that is aborted does not define a new variable in the shell
                cut = 'abort' in c and k.spec['mode'] != 'script' and not isinstance(m.get(to), list)
                if cut and to in self.stale:
                    m[to] = ('unknown',)
                elif cut:
                    self.left[to] = (self.left.get(to, []) if kind == 'append' else []) + puts
                    m[to] = ('partial', [], puts, m.get(to))
                else:
                    m[to] = puts
            nbad = sum(1 for d in c.get('values', ())[:c.get('abort', 99)] if d[0] == 'bad')
            if nbad and 'Error' not in out:
                k.violation(('error_lost', f'{where}: a value that cannot be stored was not reported: {out}'))
            expect = c.get('abort', len(c.get('values', puts))) - nbad
            if len(puts) != expect and kind != 'copy':
                k.violation(('wrong', f'{where}: {expect} values should have been stored, {len(puts)} were produced: {out}'))
        elif kind == 'assign':
            m[v] = 'int'
        elif kind == 'delete':
            if isinstance(was, list):
                self.left.pop(v, None)
            m.pop(v, None)
        elif kind == 'self':
            pass
        else:
            if not stream:
                if gots:
                    k.violation(('ghost', f'{where}: {v} is no stream, loaded {gots}'))
                if not re.search('undefined|not a Reservoir', out):
                    k.violation(('error_lost', f'{where}: {v} is no stream, the error was not reported: {out!r}'))
                return
            if isinstance(was, tuple) and was[0] == 'unknown':
                return
            if isinstance(was, tuple):
                if kind != 'load':
                    return
                got = gots.get(0, [])
                _, base, new, old = was
                if got == base + new[:len(got) - len(base)] and len(got) >= len(base):
                    if 'not a Reservoir' in out or 'undefined' in out:
                        if old == 'int':
                            m[v] = ('unknown',)
                        else:
                            m.pop(v)
                    return
                if old is not None and got == old:
                    return
                k.violation(('damaged', f'{where}: after a store that was cut short, expected {base} and a beginning of {new} '
                                        f'(before: {old}), got {got}; {out}'))
                return
            expect = self.expected(c, was)
            if gots != expect and v in self.stale:
                left, puts = self.stale[v]
                rows = gots.get(0, [])
                if any(subsequence(rows[:n], left) and gots in (self.expected(c, rows[:n] + was), self.expected(c, rows[:n]))
                       for n in range(1, len(left) + 1)):
                    k.violation(('stale_append', f'{where}: loaded {gots}, of which only {puts} was stored in the variable; '
                                                 f'the rest was left by a command that was cut short'))
                    return
            if gots != expect:
                k.violation(('wrong', f'{where}: expected {expect}, got {gots}; {out[-600:]}'))

    def expected(self, c, was):
        kind = c['kind']
        if not was:
            return {}
        if kind in ('args', 'fork'):
            return {0: was, 1: was}
        if kind == 'badload':
            j = c['fail'][1]
            was = was if j >= len(was) else was[:j] if c['fail'][0] == 'abort' else was[:j] + was[j + 1:]
            return {0: was} if was else {}
        return {0: {'load': was, 'load2': was * len(was), 'case': was * 2, 'head': was[:1]}[kind]}

    def nontrivial(self, k):
        return bool(k.notes('put')) and bool(k.notes('got'))

    def measure(self, k):
        import zlib
        return zlib.crc32(repr([h[2:] for h in k.history if h[2] in ('put', 'got', 'cmd')]).encode()), len(k.history)

    def describe(self, spec):
        self.k = type('K', (), {'spec': spec})
        return '\n'.join(self.text(i) + '   # ' + str({x: y for x, y in c.items() if x not in ('kind', 'var')})
                         for i, c in enumerate(spec['cmds'])) + f'\n{spec["mode"]}'


def subsequence(a, b):
    b = iter(b)
    return all(x in b for x in a)


class Faulty(Streams):
    faulty = True


def scenario(i):
    return (Streams, Streams, Faulty)[i % 3]
