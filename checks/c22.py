"""Sessions of commands that fail or are interrupted, then commands that have to work."""
from checks.common import *

QUICK = 900
THOROUGH = 40000
RULE = 'distinct (schedule, history) pairs in which at least two commands failed or were interrupted'
REAL = [REAL_MAIN, 'all operators used by the commands: map, store, load, fork, bash, ls, read, write, args, case, timer, cd, '
        'pushd, popd, dirs, ws, env, import, help and others']
STUBS = ['line editor and user', 'external programs',
         'process creation, waiting, signals, locks, sleeping and readiness are served by the simulated kernel']
ASSUMPTIONS = ['file system errors are injected into calls about the user\'s files only (errors in saving are C12\'s)']
H = "__import__('checks.c22_help').c22_help"
OPS = ('stat', 'lstat', 'scandir', 'listdir', 'open', 'chdir', 'access', 'read', 'write')
W = H + '.work({i}, x)'
KINDS = dict(
    map='gen 4 | map (lambda x: ' + W + ')',
    select='gen 4 | select (lambda x: ' + W + ') | sort',
    nested='gen 3 | args (| a: gen 2 | map (lambda x: ' + W + ') |)',
    case='gen 4 | case (lambda x: ' + W + ' > 1) (| map (lambda x: -x) |) (| map (lambda x: x) |)',
    red='gen 4 | map (lambda x: ' + W + ') | red +',
    store='gen 4 | map (lambda x: ' + W + ') >$ st',
    loadmap='load ok | map (lambda x: ' + W + ')',
    fork='fork 2 (| gen 3 | map (lambda x: ' + W + ') |)',
    forkn='fork (lambda: ' + H + '.val({i}, 2)) (| gen 2 |)',
    bash='bash "vprog {i}" | map (lambda x: ' + W + ')',
    bashin='gen 4 | map (lambda x: ' + W + ') | bash "vprog {i}"',
    run='bash "vprog {i}"',
    assign='{v} = (' + H + '.val({i}, {i}))',
    assignp='p = (| gen 3 | map (lambda x: ' + W + ') |)',
    eval='(' + H + '.val({i}, 1))',
    ls='ls -r ~/d1 | map (lambda x: ' + W + ')',
    lsplain='ls -r ~',
    read='read ~/text | map (lambda x: ' + W + ')',
    write='gen 4 | map (lambda x: ' + W + ') | write ~/out{i}',
    pickle='gen 4 | map (lambda x: ' + W + ') | write --pickle ~/out{i}',
    join='gen 3 | join (| gen 3 | map (lambda x: ' + W + ') |)',
    window='gen 4 | window (lambda x: ' + W + ')',
    union='gen 3 | union (| gen 3 | map (lambda x: ' + W + ') |)',
    tee='gen 3 | tee (| map (lambda x: ' + W + ') |) (| map (lambda x: x) |)',
    timer='timer 0.3 | map (lambda x: ' + W + ')',
    sleep='gen 2 | sleep 0.5 | map (lambda x: ' + W + ')',
    cd='cd ~/d1', cdup='cd ..', pushd='pushd ~/d2', swap='pushd', popd='popd', dirs='dirs -c',
    cdno='cd ~/nowhere', pushno='pushd ~/nowhere', cdfile='cd ~/text',
    unknown='nosuchcommand x', badarg='gen x y', badarg2='head', syntax='map (lambda x: x', syntax2='gen 3 | | map (x: x)',
    syntax3="(1 +)", error='(1 / 0)', name='(nosuchname)', noload='load nosuch', wsno='ws -o nosuch', wsbad='ws -n a/b',
    wsdel='ws -d nosuch', imp='import nosuchmodule', impf='import os nosuch', help='help nosuch', envd='env -d nosuch', env='env nosuch',
    first='map (x: x)', lsno='ls ~/nowhere', readno='read ~/nowhere', fgno='fg 9', bgno='bg %3', ctrl='!nosuch', empty='gen 0 3 |',
    quote="(lambda: 'a)", paren='fork 2 (| gen 3', delete='delete x = 3', kw='sort (x: x.nosuch)', cmp="gen 3 | map (x: x if x else 'a') | sort",
    argsno='gen 2 | args (| gen 3 |)', forkbad="fork 'x' (| gen 2 |)", big='gen 4 | map (lambda x: ' + W + ') | sort | reverse | unique | tail 2')
MAIN = ('assign', 'assignp', 'eval')
DIRCMDS = ('cd', 'cdup', 'pushd', 'swap', 'popd', 'dirs', 'cdno', 'pushno', 'cdfile')


class Usable(Interactive):
    max_steps = 120000
    max_time = 40000
    gates = True

    def build(self, ch):
        cmds = []
        kinds = sorted(KINDS)
        pool = [ch.pick(kinds) for _ in range(6)] + ['cd', 'pushd', 'assign']
        for i in range(ch.between(2, 12)):
            c = dict(kind=ch.pick(kinds if ch.coin(0.6) else pool), nap=ch.pick([0, 0, 0, 0.05, 0.4]), fail=None, var=ch.pick('abc'))
            if ch.coin(0.5):
                c['fail'] = [ch.pick(['raise', 'raise', 'kill', 'memory', 'exit', 'die', 'recurse', 'odd', 'stop', 'os']), ch.draw(4)]
            if c['kind'] in MAIN and c['fail'] and c['fail'][0] in ('die', 'exit', 'odd'):
                c['fail'][0] = 'raise'
            what = ch.pick([None, None, None, 'int', 'int', 'err', 'err', 'nospawn'])
            if what == 'int' or c['kind'] == 'timer':
                c['int'] = ch.pick([0, 0.0003, 0.001, 0.003, 0.01, 0.05, 0.1, 0.3, 1.0])
            elif what == 'err' and self.gates and c['kind'] not in DIRCMDS:
                c['err'] = [ch.draw(30), ch.pick([errno.EIO, errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.ENOENT]), ch.pick([1, 1, 3, 100])]
            elif what == 'nospawn':
                c['nospawn'] = ch.draw(3)
            c['after'] = ch.pick([0.05, 0.05, 0.6])
            cmds.append(c)
        return dict(cmds=cmds, method=ch.pick(['fork', 'spawn']))

    def text(self, s, i):
        c = s['cmds'][i]
        return KINDS[c['kind']].replace('{i}', str(i)).replace('{v}', c['var'])

    CANARIES = [
        (f"gen 3 | map (lambda x: {H}.got('c0', x + 1))", 'c0', ['1', '2', '3']),
        (f"fork 2 (| gen 2 | map (lambda x: {H}.got('c1', x)) |)", 'c1', ['0', '0', '1', '1']),
        (f"bash \"vprog ok\" | map (lambda x: {H}.got('c2', x))", 'c2', ['good']),
        ("gen 3 >$ q", None, None),
        (f"load q | map (lambda x: {H}.got('c3', x))", 'c3', ['0', '1', '2']),
        (f"load ok | map (lambda x: {H}.got('c4', x))", 'c4', ['0', '1']),
        ("gen 2 | write ~/canary", None, None),
        (f"read ~/canary | map (lambda x: {H}.got('c5', x))", 'c5', ['0', '1']),
        (f"z = (17)", None, None),
        (f"({H}.got('c6', z))", 'c6', ['17']),
        (f"gen 2 | args (| x: gen 1 | map (lambda y: {H}.got('c7', x)) |)", 'c7', ['0', '1']),
        (f"gen 5 | sort (x: -x) | head 2 | map (lambda x: {H}.got('c8', x))", 'c8', ['4', '3']),
        ("cd ~/d1", None, None),
        (f"ls -f | map (lambda x: {H}.got('c9', x.name))", 'c9', ['f1', 'f2']),
        ("ws -n cw", None, None),
        ("ws -c", None, None),
        ("ws cw", None, None),
        ("ws -c", None, None),
        ("jobs", None, None)]

    def boot(self, k):
        self.k = k
        k.gated = set(OPS) if self.gates else ()
        k.choose_policy()
        s = k.spec
        self.home = make_home(k)
        for d in ('d1', 'd2'):
            os.makedirs(f'{self.home}/{d}', exist_ok=True)
        for f in ('text', 'd1/f1', 'd1/f2'):
            write_file(f'{self.home}/{f}', 'line 1\nline 2\n')
        self.now = None
        self.spawns = self.calls = 0
        self.pressed = set()
        n = len(s['cmds'])
        lines = [(0.1, 'gen 2 >$ ok'), (0.1, 'a = (-1)'), (0.1, 'b = (-2)'), (0.1, 'c = (-3)'), (0.1, 'pp = (| a: gen (a) 1 | map (lambda x: x + a) |)'),
                 (0.1, 'pd = (| b: ls (b) |)'), (0.1, 'pq = (| c: ls -r (c) | map (f: f.nosuch) |)'), (0.1, self.probe(0))]
        for i, c in enumerate(s['cmds']):
            lines += [(0.1, self.text(s, i)), (c['after'], self.probe(i + 1))]
        lines += [(2, '(0)')] + [(0.1, t) for t, _, _ in self.CANARIES] + [(0.1, self.probe('end'))]
        self.texts = {self.text(s, i) for i in range(n)}
        self.shell = self.terminal(k, 'shell', lines, spec=s, MARCEL_MULTIPROCESSING_START_METHOD=s['method'])['proc']

    @staticmethod
    def probe(i):
        return f'({H}.probe({i!r}, PWD, DIRS, a, b, c))'

    def external(self, k, parent, argv):
        line = argv[-1] if argv else ''
        if line.startswith('vprog '):
            def fn(arg=line.split()[1]):
                if arg == 'ok':
                    os.write(1, b'good\n')
                    os._exit(0)
                import checks.c22_help
                checks.c22_help.program(int(arg))
            if self.blocked(k):
                return None, errno.EAGAIN, None
            return fn, 'ext', 'prog'
        return Interactive.external(self, k, parent, argv)

    def program(self, k, parent, argv):
        if mp_child(argv) and self.blocked(k):
            return None, errno.EAGAIN, None
        return Interactive.program(self, k, parent, argv)

    def blocked(self, k):
        if type(self.now) is not int or self.now >= len(k.spec['cmds']):
            return False
        n = k.spec['cmds'][self.now].get('nospawn')
        self.spawns += 1
        if n is not None and self.spawns == n + 1:
            k.fault('spawn_failed')
            return True
        return False

    def on_note(self, k, proc, args):
        if args[0] == 'probe':
            self.now = args[1]
            self.calls = self.spawns = 0

    def on_typed(self, k, t, reply):
        s = k.spec
        if type(self.now) is int and self.now < len(s['cmds']) and reply[0] == 'text' and reply[1] == self.text(s, self.now) \
                and self.now not in self.pressed and 'int' in s['cmds'][self.now]:
            self.pressed.add(self.now)
            k.after(s['cmds'][self.now]['int'], lambda p=t['prompts']: self.press(k, t, p, 40))

    def press(self, k, t, p, n):
        if t['prompting'] or t['prompts'] != p or not t['proc'].alive or not n:
            return
        k.note('key', t['proc'].vpid, 'user', 'ctrl-c')
        k.fault('ctrl_c')
        k.deliver(-t['proc'].pgid, signal.SIGINT)
        k.after(2.0, lambda: self.press(k, t, p, n - 1))

    def gate(self, k, proc, task, args):
        if type(self.now) is not int or self.now >= len(k.spec['cmds']) or args[0] != 'fs':
            return None
        e = k.spec['cmds'][self.now].get('err')
        rel = args[2].removeprefix('/home/')
        if not e or rel == args[2] or rel.startswith('.'):
            return None
        self.calls += 1
        if e[0] < self.calls <= e[0] + e[2]:
            k.fault(errno.errorcode[e[1]])
            k.note('failing', proc.vpid, proc.role, self.now, args[1], rel)
            return ('err', e[1])
        return None

    # ------------------------------------------------------------ judgement

    def check(self, k):
        s = k.spec
        if not self.liveness(k):
            return
        n = len(s['cmds'])
        probes = {h[5]: h[6:] for h in k.history if h[2] == 'probe'}
        for i in list(range(n + 1)) + ['end']:
            if i not in probes:
                what = self.text(s, i - 1) if i != 'end' and i else i
                k.violation(('stopped', f'the session ended, or a command was lost, at {what!r}: {self.uncaught(k)} {self.output(k, fd=2)[-1500:]}'))
                return
        for i, c in enumerate(s['cmds']):
            cwd0, pwd0, dirs0, vars0, _ = probes[i]
            cwd, pwd, dirs, vars, _ = probes[i + 1]
            show = f'{self.text(s, i)} {c}: before {probes[i]}, after {probes[i + 1]}'
            if not cwd == pwd or not dirs or dirs[0] != pwd and dirs[-1] != pwd:
                k.violation(('directory', show))
                return
            if c['kind'] not in DIRCMDS and (cwd, dirs) != (cwd0, dirs0):
                k.violation(('directory', show))
                return
            want = list(vars0)
            if c['kind'] == 'assign':
                at = 'abc'.index(c['var'])
                new = list(vars0)
                new[at] = str(i)
                certain = not c['fail'] or c['fail'][1] != 0
                sure = 'int' not in c and 'nospawn' not in c and 'recurse' not in (c['fail'] or ())
                if certain and sure:
                    want = new
                elif not sure and vars == new and certain:
                    want = new
            if vars != want:
                k.violation(('variables', show + f', expected {want}'))
                return
        for text, tag, values in self.CANARIES:
            if tag:
                got = [h[6] for h in k.history if h[2] == 'got' and h[5] == tag]
                if (sorted(got) if tag in ('c1', 'c9') else got) != values:
                    k.violation(('canary', f'{text}: got {got}, expected {values}; {self.output(k)[-900:]} {self.output(k, fd=2)[-500:]}'))
                    return
        if probes[n][4] > probes[0][4]:
            k.violation(('threads', f'{probes[0][4]} threads at the start, {probes[n][4]} at the end'))

    def nontrivial(self, k):
        return len([h for h in k.history if h[2] in ('failing', 'key')]) + self.output(k).count('rror') > 1

    def measure(self, k):
        return k.schedule_hash, len(k.history)

    def describe(self, s):
        return '\n'.join(self.text(s, i) + f'   # {c["fail"]} {c["nap"]} ' + ' '.join(f'{x}={c[x]}' for x in ('int', 'err', 'nospawn') if x in c)
                         for i, c in enumerate(s['cmds'])) + f'\n{s["method"]}'


class NoErrors(Usable):
    gates = False


def scenario(i):
    return (Usable, NoErrors)[i % 2]
