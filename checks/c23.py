"""Directory commands against a model of the directory stack, while directories disappear."""
import shutil
from checks.common import *

QUICK = 1600
THOROUGH = 60000
RULE = 'distinct (schedule, history) pairs in which the working directory changed at least twice'
REAL = [REAL_MAIN, 'directory state; cd, pushd, popd, dirs, pwd; file name expansion']
STUBS = ['line editor and user in the interactive variants', 'another party that removes, renames and creates directories',
         'process creation, waiting, signals, locks, sleeping and readiness are served by the simulated kernel']
ASSUMPTIONS = ['directories are real ones in a memory file system; calls on them are made to fail']
OPS = ('stat', 'lstat', 'access', 'chdir', 'scandir', 'listdir')
DIRS = ['d0', 'd1', 'd0/x', 'd0/x/y', 'd1/z', 'd 2']


class Directories(Interactive):
    max_steps = 60000
    faulty = True

    def build(self, ch):
        cmds = []
        n = ch.between(2, 14)
        names = [DIRS[i] for i in range(ch.between(2, len(DIRS)))]
        for i in range(n):
            kind = ch.pick(['cd', 'cd', 'pushd', 'pushd', 'pushd', 'swap', 'swap', 'popd', 'popd', 'dirs', 'clear', 'pwd', 'home'])
            c = dict(kind=kind)
            if kind in ('cd', 'pushd'):
                c['to'] = ch.pick(names + ['..', '.', 'x', '~', 'nowhere', 'file', 'd*', 'z/..'])
                c['how'] = ch.pick(['abs', 'abs', 'rel'])
            if self.faulty and ch.coin(0.25):
                c['fault'] = [ch.pick(['remove', 'remove', 'rename', 'create', 'err', 'err']), ch.pick(names), ch.draw(60),
                              ch.pick([errno.EACCES, errno.EIO, errno.ENOENT, errno.ESTALE]), ch.pick([1, 1, 1, 50]),
                              ch.pick(OPS + (None, 'chdir', 'chdir'))]
                c['before'] = ch.coin(0.3)
            cmds.append(c)
        return dict(cmds=cmds, mode=ch.pick(['script', 'shell', 'shell']))

    def text(self, c):
        if c['kind'] in ('cd', 'pushd'):
            to = c['to']
            if c['how'] == 'abs' and to not in ('..', '.', '~', 'd*'):
                to = '~/' + to
            return f'{c["kind"]} {to}'.replace('d 2', 'd\\ 2')
        return {'swap': 'pushd', 'clear': 'dirs -c', 'home': 'cd'}.get(c['kind'], c['kind'])

    def boot(self, k):
        self.k = k
        k.gated = set(OPS) if self.faulty else ()
        k.choose_policy()
        s = k.spec
        self.home = make_home(k)
        for d in DIRS:
            os.makedirs(f'{self.home}/{d}', exist_ok=True)
        write_file(f'{self.home}/file', 'x')
        self.current = None
        self.gone = {}          # command -> paths that were missing or could not be used at some time during it
        self.missing = set()
        self.during = set()     # commands during which something changed, or a call failed
        self.usable = {}        # command -> directories that exist as it starts
        n = len(s['cmds'])
        where = lambda i: f"(__import__('checks.c23_help').c23_help.where({i}, PWD, DIRS))"
        lines = [where(0)]
        for i, c in enumerate(s['cmds']):
            lines += [self.text(c), where(i + 1)]
        if s['mode'] == 'script':
            boot_script(k, lines, s)
        else:
            self.terminal(k, 'shell', [(0.05, l) for l in lines], spec=s)

    def on_note(self, k, proc, args):
        if args[0] == 'where':
            self.current = args[1]
            self.calls = 0
            self.gone[self.current] = set(self.missing)
            cmds = k.spec['cmds']
            if self.current < len(cmds):
                c = cmds[self.current]
                if c.get('before') and c['fault'][0] != 'err':
                    self.strike(k, c['fault'])
            self.usable[self.current] = {d for d in DIRS if os.path.isdir(f'{self.home}/{d}')}

    def strike(self, k, f):
        path = f'{self.home}/{f[1]}'
        k.note('strike', 0, 'other', f[0], f[1])
        k.fault(f[0])
        if f[0] == 'create':
            os.makedirs(path, exist_ok=True)
            self.missing = {p for p in self.missing if not os.path.isdir(f'{self.home}/{p}')}
            return
        if f[0] == 'rename' and os.path.isdir(path):
            os.rename(path, f'{path}-{k.step}')
        else:
            shutil.rmtree(path, ignore_errors=True)
        for d in DIRS:
            if d == f[1] or d.startswith(f[1] + '/'):
                self.missing.add(d)
                self.gone[self.current].add(d)

    def gate(self, k, proc, task, args):
        cmds = k.spec['cmds']
        if self.current is None or self.current >= len(cmds) or args[0] != 'fs':
            return None
        c = cmds[self.current]
        f = c.get('fault')
        if not f:
            return None
        if f[0] != 'err':
            if not c['before']:
                self.calls += 1
                if self.calls == f[2] // 3 + 1:
                    self.during.add(self.current)
                    self.strike(k, f)
            return None
        rel = args[2].removeprefix('/home/')
        if (f[5] is None or args[1] == f[5]) and (rel in DIRS or rel == '/home'):
            self.calls += 1
            n = f[2] // 10
            if n < self.calls <= n + f[4]:
                k.fault(errno.errorcode[f[3]])
                self.during.add(self.current)
                self.gone[self.current].add('' if rel == '/home' else rel)
                return ('err', f[3])
        return None

    # ------------------------------------------------------------ judgement

    def check(self, k):
        s = k.spec
        if not self.liveness(k):
            return
        n = len(s['cmds'])
        notes = {h[5]: (i, h[6], h[7], h[8]) for i, h in enumerate(k.history) if h[2] == 'where'}
        if n not in notes:
            k.violation(('stopped', f'a command ended the session: {self.uncaught(k)} {self.output(k, fd=2)[-1500:]}'))
            return
        self.lost, self.pruned = set(), set()
        for i in range(n + 1):
            at, cwd, pwd, dirs = notes[i]
            if i:
                was = notes[i - 1]
                hist = k.history[was[0]:at]
                self.judge(k, i - 1, s['cmds'][i - 1], was[1:], (cwd, pwd, dirs), hist)
            elif not (cwd == pwd and dirs == [pwd]):
                k.violation(('start', f'{notes[i]}'))
            if k.violations:
                return

    def ok(self, i, d):
        return os.path.isdir(d) if self.rel(d) == d else not self.rel(d) or self.rel(d) in self.usable[i]

    def rel(self, p):
        return p.removeprefix(self.home + '/') if p != self.home else ''

    def target(self, c, pwd):
        """The directory named, if a name of one; None if the command has to fail."""
        to = c['to']
        if to == '~':
            return self.home
        if to == 'd*':
            return None
        base = pwd if c['how'] == 'rel' or to in ('..', '.') else self.home
        return os.path.normpath(f'{base}/{to}')

    def judge(self, k, i, c, before, after, hist):
        home = self.home
        cwd0, pwd0, dirs0 = before
        cwd, pwd, dirs = after
        gone = {home if d == '' else f'{home}/{d}' for d in self.gone[i]}
        for h in hist:
            if h[2] == 'strike' and h[5] != 'create':
                self.lost |= {f'{home}/{d}' for d in DIRS if d == h[6] or d.startswith(h[6] + '/')}
        out = ''.join(h[6] for h in hist if h[2] == 'out' and h[5] == 2)
        kind = c['kind']
        show = f'command {i} {self.text(c)!r}: cwd {cwd0}, PWD {pwd0}, stack {dirs0} became {cwd}, {pwd}, {dirs}; inaccessible ' \
               f'at some time {sorted(gone)}; {out[-300:]!r}'.replace(home, '~')
        if not isinstance(dirs, list):
            k.violation(('type', show))
            return
        # Agreement
        if pwd not in self.lost:
            if cwd != pwd:
                k.violation(('disagree', show))
                return
            if (not dirs or dirs[-1] != pwd) and pwd not in gone and not (pwd in self.pruned and pwd == pwd0):
                k.violation(('disagree', show))
                return
        self.pruned |= gone
        if dirs and dirs[-1] == pwd:
            self.pruned.discard(pwd)
        if cwd == pwd:
            self.lost.discard(pwd)
        stack = dirs0
        other = stack[:-1] if stack and stack[-1] == pwd0 else stack
        cur = [pwd0] if len(other) < len(stack) else []
        faulty = bool(gone) or bool(self.lost)
        same = (pwd0, stack)
        t = None
        if kind in ('cd', 'pushd', 'home'):
            t = home if kind == 'home' else self.target(c, pwd0)
            if t is not None and t.startswith(home):
                valid = t == home or self.rel(t) in DIRS
            else:
                # Above the home directory
                valid = t is not None and os.path.isdir(t)
            done = (t, (stack if kind == 'pushd' else other) + [t]) if valid else None
            if c.get('to') == 'd*':
                # At least two matches, or whatever is left
                here = c['how']
                done = None
        elif kind == 'swap':
            done = (other[-1], other[:-1] + cur + [other[-1]]) if other else same
        elif kind == 'popd':
            done = (other[-1], other) if other else same
        elif kind == 'clear':
            done = (pwd0, [pwd0])
        else:
            done = same
        if not faulty:
            if kind == 'cd' and c.get('to') == 'd*' or kind == 'pushd' and c.get('to') == 'd*':
                # Expansion depends on the directory: one match is a target
                names = [d for d in DIRS if os.path.dirname(f'{home}/{d}') == pwd0 and os.path.basename(d).startswith('d')]
                done = None if len(names) != 1 else (f'{home}/{names[0]}', None)
            if done is None:
                if (pwd, dirs) != same:
                    k.violation(('failed_changed', show))
                elif not out:
                    k.violation(('error_lost', show))
            elif (pwd, dirs) != done:
                k.violation(('wrong', show + f'; expected {done}'.replace(home, '~')))
            return
        if i not in self.during and stack and stack[-1] == pwd0 and self.ok(i, pwd0) and cwd0 == pwd0 and \
                kind in ('swap', 'popd', 'dirs', 'clear'):
            # Nothing changed during the command. All of the entries that can't be used, and nothing else, have to be gone.
            k.probe('exactly')
            other = [d for d in stack[:-1] if self.ok(i, d)]
            if any(not self.ok(i, d) and not self.ok(i, e) for d, e in zip(stack, stack[1:])):
                k.probe('adjacent_lost')
            if kind == 'dirs':
                exact = (pwd0, other + [pwd0])
            elif kind == 'clear':
                exact = (pwd0, [pwd0])
            elif not other:
                exact = (pwd0, [pwd0])
            else:
                exact = (other[-1], other[:-1] + ([pwd0] if kind == 'swap' else []) + [other[-1]])
            if (pwd, dirs) != exact:
                k.violation(('wrong_after_loss', show + f'; expected {exact}'.replace(home, '~')))
            return
        # Entries that were gone at some time may be missing; the command may have failed; home is the last resort
        options = [same, (home, stack + [home]), (home, other + [home])]
        if done is not None:
            options.append(done)
        if kind in ('swap', 'popd'):
            # Which entry is next depends on which have been removed
            for j in range(len(other)):
                if all(d in gone or d in self.lost for d in other[j + 1:]):
                    options.append((other[j], other[:j] + (cur if kind == 'swap' else []) + [other[j]]))
        if c.get('to') == 'd*':
            options += [(f'{pwd0}/{os.path.basename(d)}', (other if kind == 'cd' else stack) + [f'{pwd0}/{os.path.basename(d)}'])
                        for d in DIRS]
        away = gone | self.lost
        if not any(pwd == p and shrunk(dirs, s, away) for p, s in options):
            k.violation(('wrong_after_fault', show))

    def nontrivial(self, k):
        return len({h[6] for h in k.history if h[2] == 'where'}) > 2

    def measure(self, k):
        import zlib
        return zlib.crc32(repr([h[5:] for h in k.history if h[2] in ('where', 'strike')]).encode()), len(k.history)

    def describe(self, s):
        return '\n'.join(self.text(c) + f"   # {c.get('fault', '')} {c.get('before', '')}" for c in s['cmds']) + f'\n{s["mode"]}'


def shrunk(a, b, away):
    """Is a what is left of b after removing some elements that are in away?"""
    j = 0
    for x in b:
        if j < len(a) and a[j] == x:
            j += 1
        elif x not in away:
            return False
    return j == len(a)


class Quiet(Directories):
    faulty = False


class Losing(Directories):
    """A deep stack; several of its directories disappear, and come back, between commands."""

    def build(self, ch):
        cmds = [dict(kind='pushd', to=ch.pick(DIRS), how='abs') for _ in range(ch.between(3, 9))]
        if ch.coin(0.7):
            # Stay in what will not disappear
            cmds.append(dict(kind='pushd', to='~', how='abs'))
        for i in range(ch.between(1, 6)):
            c = dict(kind=ch.pick(['popd', 'popd', 'swap', 'dirs', 'pushd', 'cd']), before=True)
            if c['kind'] in ('pushd', 'cd'):
                c.update(to=ch.pick(DIRS + ['~', '~']), how='abs')
            c['fault'] = [ch.pick(['remove', 'remove', 'rename', 'create']), ch.pick(['d0', 'd1', 'd 2', 'd0/x']), 0, 0, 1, None]
            cmds.append(c)
        return dict(cmds=cmds, mode=ch.pick(['script', 'shell', 'shell']))


def scenario(i):
    return (Directories, Losing, Directories, Quiet)[i % 4]
