"""ls on directory trees that change, and whose calls fail, while they are listed."""
import re
import shutil
import zlib
from checks.common import *

QUICK = 1600
THOROUGH = 60000
RULE = 'distinct (schedule, history) pairs in which at least three entries were listed'
REAL = [REAL_MAIN, 'ls: expansion of names, visiting, rendering', 'pathlib']
STUBS = ['line editor and user', 'another process that creates, removes, renames and replaces entries between any two file '
         'system calls of the listing',
         'process creation, waiting, signals, locks, sleeping and readiness are served by the simulated kernel']
ASSUMPTIONS = ['errors of file system calls are injected (checks run as root, for whom nothing is unreadable)']
H = "__import__('checks.c19_help').c19_help"
ANSI = re.compile('\x1b\\[[?0-9;]*[a-zA-Z]')
OPS = ('stat', 'lstat', 'scandir', 'listdir', 'readlink', 'access')
NAMES = ['a', 'b', 'c.txt', 'dd', 'e e', 'é', '.hid', 'x*y', "q'q"]
ERRNOS = [errno.EACCES, errno.EACCES, errno.EIO, errno.ENOENT, errno.ESTALE, errno.ENOTDIR]


class Tree(Interactive):
    max_steps = 120000
    faulty = True
    links = True

    def build(self, ch):
        # Entries: path -> [kind, volatile, link target]
        entries = {'t': ['dir', False, None], 'u': ['dir', False, None]}

        def fill(base, depth, volatile):
            for n in NAMES:
                if len(entries) > 40 or not ch.coin(0.45 if depth < 3 else 0.2):
                    continue
                p = f'{base}/{n}'
                kind = ch.pick(['file', 'file', 'dir', 'dir', 'link'] if self.links else ['file', 'file', 'dir', 'dir'])
                v = volatile or self.faulty and ch.coin(0.3)
                target = None
                if kind == 'link':
                    target = ch.pick(['.', '..', 'nowhere', '../a', 'a', '/', ''])
                    target = ch.pick(sorted(entries)) if target in ('/', '') else target
                    if target in entries:
                        target = '/' + target      # absolute, within the home directory
                files = [q for q, e in entries.items() if e[0] == 'file']
                if kind == 'file' and files and ch.coin(0.2):
                    target = ch.pick(files)        # another name of the same file
                entries[p] = [kind, v, target]
                if kind == 'dir' and depth < 4:
                    fill(p, depth + 1, v)
        fill('t', 1, False)
        fill('u', 2, False)
        dirs = [p for p, e in entries.items() if e[0] == 'dir']
        cmds = []
        for _ in range(ch.between(1, 4)):
            args = [ch.pick(['t', 't', 't', 'u', '.', 't/*', '*', 't/a', 't/dd', 't/*/*', 'u/../t', 't/[ab]', ch.pick(dirs)])
                    for _ in range(ch.pick([1, 1, 1, 2, 3]))]
            c = dict(args=args, depth=ch.pick(['', '-0', '-1', '-r', '-r', '-r', '-r']), show=ch.coin(0.3),
                     types=ch.pick(['', '', '', '', '-f', '-d', '-s', '-f -d']), nap=ch.pick([0, 0, 0, 0.1]))
            c['strikes'] = []
            if self.faulty:
                for _ in range(ch.pick([0, 1, 1, 2, 4])):
                    c['strikes'].append([ch.draw(60), ch.pick(['remove', 'remove', 'rename', 'create', 'replace', 'err', 'err']),
                                         ch.draw(1000), ch.draw(1000)])
                c['strikes'].sort()
            cmds.append(c)
        return dict(entries=entries, cmds=cmds, mode=ch.pick(['script', 'script', 'shell']))

    def text(self, s, i):
        c = s['cmds'][i]
        args = []
        for a in c['args']:
            if a not in ('t/*', '*', 't/*/*', 't/[ab]'):
                a = ''.join('\\' + x if x in " '*[" else x for x in a)
            args.append(a)
        flags = ' '.join(x for x in (c['depth'], c['types']) if x)
        tail = '' if c['show'] else f' | map (lambda x: {H}.got({i}, x))'
        return re.sub(' +', ' ', f"ls {flags} {' '.join(args)}") + tail

    def make(self, p, e):
        path = f'{self.home}/{p}'
        try:
            if e[0] == 'dir':
                os.makedirs(path, exist_ok=True)
            elif e[0] == 'link':
                os.symlink(self.home + e[2] if e[2].startswith('/') else e[2], path)
            elif e[2] and os.path.isfile(f'{self.home}/{e[2]}'):
                os.link(f'{self.home}/{e[2]}', path)
            else:
                write_file(path, p)
        except OSError:
            pass

    def boot(self, k):
        self.k = k
        k.gated = set(OPS) if self.faulty else ()
        k.choose_policy()
        s = k.spec
        self.home = make_home(k)
        for p, e in s['entries'].items():
            self.make(p, e)
        self.current = None
        self.calls = 0
        self.paths = sorted(s['entries'])
        self.volatile = [p for p in self.paths if s['entries'][p][1]]
        self.touched = set()     # paths at which something changed, ever
        self.failed = {}         # command -> [(op, path, errno)]
        self.alive = {}          # command -> paths that existed at some time during it
        lines = []
        note = lambda i: f'(__import__("sim.vhelper").vhelper.step("cmd", {i}))'
        for i in range(len(s['cmds'])):
            lines += [note(i), self.text(s, i)]
        lines.append(note(len(s['cmds'])))
        if s['mode'] == 'script':
            boot_script(k, lines, s)
        else:
            self.terminal(k, 'shell', [(0.05, l) for l in lines], spec=s)

    def walk(self):
        found = set()
        for top in os.listdir(self.home):
            if top.startswith('.'):
                continue
            found.add(top)
            for d, ds, fs in os.walk(f'{self.home}/{top}'):
                rel = d[len(self.home) + 1:]
                found |= {f'{rel}/{n}' for n in ds + fs}
        return found

    def on_note(self, k, proc, args):
        if args[0] == 'cmd':
            self.current = args[1]
            self.calls = 0
            self.failed[self.current] = []
            self.alive[self.current] = self.walk()
            self.pending = list(k.spec['cmds'][self.current]['strikes']) if self.current < len(k.spec['cmds']) else []

    def gate(self, k, proc, task, args):
        if self.current is None or self.current >= len(k.spec['cmds']) or args[0] != 'fs':
            return None
        rel = args[2].removeprefix('/home/')
        if rel == args[2] or rel.startswith('.'):
            return None
        self.calls += 1
        while self.pending and self.pending[0][0] < self.calls:
            n, kind, a, b = self.pending[0]
            if kind == 'err':
                if rel not in self.k.spec['entries']:
                    return None
                self.pending.pop(0)
                code = ERRNOS[b % len(ERRNOS)]
                if code == errno.ENOTDIR and args[1] in ('stat', 'lstat', 'access'):
                    code = errno.EACCES
                k.fault(errno.errorcode[code])
                self.failed[self.current].append((args[1], rel, code))
                k.note('failing', proc.vpid, proc.role, args[1], rel, code)
                return ('err', code)
            self.pending.pop(0)
            self.strike(k, kind, a, b)
        return None

    def strike(self, k, kind, a, b):
        entries = k.spec['entries']
        if not self.volatile and kind != 'create':
            return
        k.fault(kind)
        if kind == 'create':
            # Something new, in any directory
            dirs = [p for p in self.paths if entries[p][0] == 'dir' and os.path.isdir(f'{self.home}/{p}')]
            p = dirs[a % len(dirs)] + f'/new{a}'
            self.make(p, [['file', 'dir', 'link'][b % 3], True, '.'])
            where = p
        else:
            where = self.volatile[a % len(self.volatile)]
            path = f'{self.home}/{where}'
            is_dir = os.path.isdir(path) and not os.path.islink(path)
            if kind == 'rename' and os.path.lexists(path):
                to = f'{where}-{b}'
                os.rename(path, f'{self.home}/{to}')
            else:
                if is_dir:
                    shutil.rmtree(path)
                elif os.path.lexists(path):
                    os.unlink(path)
                if kind == 'replace':
                    self.make(where, [['file', 'dir', 'link'][b % 3], True, 'nowhere'])
        k.note('strike', 0, 'other', kind, where)
        self.alive[self.current] |= self.walk()

    # ------------------------------------------------------------ judgement

    def check(self, k):
        s = k.spec
        if not self.liveness(k):
            return
        if not any(h[5] == len(s['cmds']) for h in k.history if h[2] == 'cmd'):
            k.violation(('stopped', f'a command ended the session: {self.uncaught(k)} {self.output(k, fd=2)[-1500:]}'))
            return
        at = {h[5]: i for i, h in enumerate(k.history) if h[2] == 'cmd'}
        for i, c in enumerate(s['cmds']):
            hist = k.history[at[i]:at[i + 1]]
            self.judge(k, i, c, hist)
            if k.violations:
                return

    def judge(self, k, i, c, hist):
        entries = k.spec['entries']
        out = ANSI.sub('', ''.join(h[6] for h in hist if h[2] == 'out')).replace('\r', '')
        show = f'{self.text(k.spec, i)}: failing {self.failed[i]}, ' \
               f'{[h[5:] for h in hist if h[2] == "strike"]}; '
        stable = lambda p: p in entries and not entries[p][1]
        roots, through = self.roots(c, stable)
        if c['show']:
            listed = []
            base = self.base(c, through)
            if base is None:
                return
            for l in out.split('\n'):
                m = re.match(r'[-ld][-rwx]{9}\s.*\d\d:\d\d:\d\d  (.*)$', l)
                if m:
                    p = m.group(1).split('  ->  ')[0] if l[0] == 'l' else m.group(1)
                    listed.append(os.path.normpath(f'{base}/{p}') if base else p)
        else:
            got = [h for h in hist if h[2] == 'got']
            listed = []
            for h in got:
                if h[6] == 'File':
                    p = h[7].removeprefix(self.home).lstrip('/') or '.'
                    listed.append(p)
        twice = {p for p in listed if listed.count(p) > 1}
        if twice:
            k.violation(('twice', f'{show}listed twice: {sorted(twice)}'))
            return
        fails = self.failed[i]
        # An error in expanding the arguments may end the command, but not silently
        error = 'rror' in out or 'No qualifying' in out or 'denied' in out or bool(k.notes('x'))
        tops = {a for a in through} | {os.path.dirname(a) for a in through} | {''}
        ended = [f for f in fails if f[0] == 'scandir' or f[1] in tops]
        if ended:
            if not error and not listed and self.want(c, roots, stable) and any(f[2] not in (errno.ENOENT, errno.ENOTDIR) for f in ended):
                k.violation(('silent', f'{show}nothing listed, nothing reported; {out[-500:]}'))
            return
        invented = [p for p in listed if p != '.' and p not in self.alive[i] and not self.linked(p)
                    and not p.startswith('.')]
        if invented:
            k.violation(('invented', f'{show}listed {invented}, which never existed'))
            return
        want = self.want(c, roots, stable)
        missing = []
        for p in sorted(want - set(listed)):
            if not any((f[1] == p or p.startswith(f[1] + '/')) for f in fails):
                missing.append(p)
        if missing:
            k.violation(('missing', f'{show}not listed: {missing}; {out[-600:]}'))
            return
        hard = [f for f in fails if f[2] not in (errno.ENOENT, errno.ENOTDIR) and f[0] in ('listdir',)]
        if hard and not error and (want - set(listed)):
            k.violation(('silent', f'{show}not listed: {sorted(want - set(listed))}, and no error reported; {out[-500:]}'))

    def linked(self, p):
        """Does p lead through a symbolic link?"""
        parts = p.split('/')
        e = self.k.spec['entries']
        for n in range(1, len(parts)):
            q = '/'.join(parts[:n])
            if q in e and e[q][0] == 'link' or 'new' in q or q not in e:
                return True
        return any(e.get('/'.join(parts[:n]), ['dir', True])[1] for n in range(1, len(parts)))

    def roots(self, c, stable):
        """Stable entries that are certainly among the arguments; and all that may be."""
        entries = self.k.spec['entries']
        found, through = set(), set()
        for a in c['args']:
            if a == '.':
                found.add('')
                through.add('')
            elif a == '*':
                found |= {'t', 'u'}
                through |= {'t', 'u'}
            elif a in ('t/*', 't/[ab]', 't/*/*'):
                depth = a.count('/')
                for p in entries:
                    if p.startswith('t/') and p.count('/') == depth:
                        n = p.split('/')[-1]
                        if a == 't/[ab]' and n not in 'ab':
                            continue
                        through.add(p)
                        parents = ['/'.join(p.split('/')[:j]) for j in range(1, depth + 1)]
                        if stable(p) and all(stable(q) and entries[q][0] == 'dir' for q in parents):
                            found.add(p)
                if depth > 1:
                    through |= {p for p in entries if p.startswith('t/') and p.count('/') == 1}
                through.add('t')
            else:
                a = os.path.normpath(a)
                through.add(a)
                if a in entries and stable(a):
                    found.add(a)
        return found, through

    def want(self, c, roots, stable):
        entries = self.k.spec['entries']
        want = set()
        types = {'-f': 'file', '-d': 'dir', '-s': 'link'}
        kinds = {types[t] for t in c['types'].split()} or set(types.values())
        for r in roots:
            if r:
                want.add(r)
            if r and entries[r][0] != 'dir':
                continue
            if c['depth'] == '-0':
                continue
            for p in entries:
                if stable(p) and (not r or p.startswith(r + '/')):
                    below = p[len(r) + 1 if r else 0:]
                    if '/' in below and c['depth'] != '-r':
                        continue
                    want.add(p)
        return {p for p in want if entries[p][0] in kinds}

    def base(self, c, through):
        """The directory to which names shown are relative, if certain."""
        entries = self.k.spec['entries']
        if len(c['args']) != 1 or '*' in c['args'][0] or '[' in c['args'][0]:
            return None
        a = os.path.normpath(c['args'][0])
        if a == '.':
            return ''
        if a in entries and entries[a][0] == 'dir' and not entries[a][1]:
            return a
        return None

    def nontrivial(self, k):
        return sum(1 for h in k.history if h[2] == 'got') + self.output(k).count(':0') >= 3

    def measure(self, k):
        return k.schedule_hash, len(k.history), zlib.crc32(repr([h[5:] for h in k.history if h[2] in ('got', 'strike', 'failing')]).encode())

    def describe(self, s):
        return '\n'.join(self.text(s, i) + f'   # {c["strikes"]}' for i, c in enumerate(s['cmds'])) + \
            '\n' + ' '.join(f'{p}{"" if not e[1] else "(v)"}{"->" + e[2] if e[2] else "/" if e[0] == "dir" else ""}' for p, e in s['entries'].items())


class Quiet(Tree):
    faulty = False


class Plain(Tree):
    links = False


def scenario(i):
    return (Tree, Tree, Plain, Quiet)[i % 4]
