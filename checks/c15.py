"""First start and upgrade: interrupted, failing, concurrent; then a start that has to find everything."""
import shutil
from checks.common import *

QUICK = 1600
THOROUGH = 60000
RULE = 'distinct (schedule, workload) pairs in which a start was killed, hit an I/O error, or ran together with another'
REAL = [REAL_MAIN, 'storage layouts and migrations, locations, workspaces']
STUBS = ['line editor and user', 'process creation, waiting, signals, locks, sleeping and readiness are served by the '
         'simulated kernel']
ASSUMPTIONS = ['older installations are made from a current one by moving its files to where older versions kept them',
               'process death leaves all completed file operations in effect (no power loss)']
GATED = {'mkdir', 'rename', 'replace', 'unlink', 'remove', 'rmdir', 'openw', 'write', 'chmod', 'open', 'link', 'utime'}
LAYOUTS = ['none', 'none', 'original', 'xdg', 'ws1', 'ws2', 'ws2', 'ws3', 'ws3', 'pt']
HISTORY = "ls -l\nsum = (1 + 2)\n"


class Starts(Interactive):
    max_steps = 150000
    errors = False
    single = False

    def build(self, ch):
        layout = ch.pick(LAYOUTS)
        rounds = []
        for _ in range(ch.pick([1, 1, 2, 3])):
            starts = []
            for _ in range(1 if self.single else ch.pick([1, 2, 2, 3])):
                f = None
                if ch.coin(0.75 if not rounds else 0.5):
                    if self.errors:
                        f = ['err', ch.draw(60), ch.pick([errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EACCES]),
                             ch.pick([1, 1, 3, 1000])]
                    else:
                        f = ['kill', ch.draw(ch.pick([20, 60]))]
                starts.append(dict(delay=ch.pick([0, 0, 0, 0.01, 0.3]), fault=f, script=ch.coin(0.2)))
            rounds.append(starts)
        return dict(layout=layout, rounds=rounds, history=ch.coin(0.7), named=ch.pick([[], ['wa'], ['wa', 'wb']]),
                    startup=ch.coin(0.8))

    def boot(self, k):
        self.k = k
        k.gated = GATED
        k.choose_policy()
        self.home = make_home(k)
        self.phase = -1            # -1: making the installation; then rounds; then the final start
        self.info = {}             # vpid -> dict of the start
        s = k.spec
        if s['layout'] == 'none':
            self.phase = 0
            self.begin(k)
            return
        lines = []
        if s['layout'] not in ('original', 'xdg'):
            for i, w in enumerate(s['named']):
                lines += [f'ws -n {w}', f'kept = ({40 + i})', f'gen {3 + i} >$ res', 'ws -c']
        self.launch(k, 'setup', lines, None)

    def launch(self, k, role, lines, start):
        t = self.terminal(k, role, [(0.05, l) for l in lines], spec=k.spec)
        self.info[t['proc'].vpid] = dict(start=start, role=role, calls=0, term=t)

    # ------------------------------------------------------------ the older installation

    def startup_text(self, which):
        return f"from marcel.builtin import *\nmarker = '{which}'\n"

    def rearrange(self, k):
        s, home, layout = k.spec, self.home, k.spec['layout']
        config, data = f'{home}/.config/marcel', f'{home}/.local/share/marcel'
        cw, dw = f'{config}/workspace', f'{data}/workspace'
        mv = lambda a, b: os.path.exists(a) and os.rename(a, b)
        write_file(f'{cw}/__DEFAULT__/startup.py', self.startup_text('default'))
        if layout not in ('original', 'xdg'):
            for w in s['named']:
                write_file(f'{cw}/{w}/startup.py', self.startup_text(w))
        if layout == 'pt':
            return
        for w in ['__DEFAULT__'] + s['named']:
            if s['history'] and os.path.isdir(f'{dw}/{w}'):
                write_file(f'{dw}/{w}/history', HISTORY)
        if layout == 'ws3':
            if not s['history'] and not os.path.exists(f'{dw}/__DEFAULT__/history'):
                write_file(f'{dw}/__DEFAULT__/history', 'ls\n')
            return
        for base in (config, data):
            shutil.rmtree(f'{base}/broken', ignore_errors=True)
            for w in s['named']:
                mv(f'{base}/workspace/{w}', f'{base}/{w}')
            mv(f'{base}/workspace/__DEFAULT__', f'{base}/__DEFAULT_WORKSPACE__')
            shutil.rmtree(f'{base}/workspace', ignore_errors=True)
        if layout == 'ws2':
            return
        for base in (config, data):
            for f in os.listdir(f'{base}/__DEFAULT_WORKSPACE__'):
                mv(f'{base}/__DEFAULT_WORKSPACE__/{f}', f'{base}/{f}')
            os.rmdir(f'{base}/__DEFAULT_WORKSPACE__')
        if layout == 'ws1':
            return
        os.unlink(f'{config}/.WORKSPACE')
        if os.path.exists(f'{config}/VERSION'):
            os.unlink(f'{config}/VERSION')
        shutil.rmtree(f'{data}/reservoirs', ignore_errors=True)
        if layout == 'xdg':
            return
        os.rename(f'{config}/startup.py', f'{home}/.marcel.py')
        write_file(f'{home}/.marcel_history', HISTORY)
        shutil.rmtree(f'{home}/.config')
        shutil.rmtree(f'{home}/.local')

    # ------------------------------------------------------------ course of events

    def begin(self, k):
        s = k.spec
        if self.phase < len(s['rounds']):
            self.waiting = len(s['rounds'][self.phase])
            for i, st in enumerate(s['rounds'][self.phase]):
                k.after(st['delay'], lambda i=i, st=st: self.start(k, f's{self.phase}.{i}', st))
        else:
            lines = ['(__import__("sim.vhelper").vhelper.step("saw", "default", marker))' if s['layout'] != 'none' else
                     '(__import__("sim.vhelper").vhelper.step("saw", "default", str(type(COLOR_SCHEME).__name__)))']
            if s['layout'] not in ('original', 'xdg', 'none'):
                for w in s['named']:
                    lines += [f'ws {w}', f'(__import__("sim.vhelper").vhelper.step("saw", "{w}", marker, kept, WORKSPACE))',
                              'res <$ (x: __import__("sim.vhelper").vhelper.step("row", "%s", x))' % w]
                lines.append('ws -c')
            lines += ['ws -n fresh', 'fine = (1)', '(__import__("sim.vhelper").vhelper.step("saw", "fresh", fine))', 'ws -c',
                      '(__import__("sim.vhelper").vhelper.step("end"))']
            self.launch(k, 'final', lines, None)

    def start(self, k, role, st):
        if st['script']:
            p = boot_script(k, ['(__import__("sim.vhelper").vhelper.step("ran", "%s"))' % role], k.spec, role=role)
            self.info[p.vpid] = dict(start=st, role=role, calls=0, term=None)
        else:
            self.launch(k, role, ['(__import__("sim.vhelper").vhelper.step("ran", "%s"))' % role], st)

    def gate(self, k, proc, task, args):
        i = self.info.get(proc.vpid)
        if i is None or args[0] != 'fs' or not i['start'] or not i['start']['fault']:
            return None
        f = i['start']['fault']
        i['calls'] += 1
        if f[0] == 'kill':
            if i['calls'] == f[1] + 1:
                k.fault('killed')
                i['struck'] = True
                if args[1] == 'write' and k.ch.coin(0.5):
                    return ('crash', k.ch.draw(1 + (args[3] or 0)))
                return ('kill',)
        elif f[1] < i['calls'] <= f[1] + f[3] and not (args[1] in ('open', 'utime') and f[2] in (errno.ENOSPC, errno.EDQUOT)):
            k.fault(errno.errorcode[f[2]])
            i['struck'] = True
            return ('err', f[2])
        return None

    def on_exit(self, k, proc):
        i = self.info.get(proc.vpid)
        if i is None or k.violations:
            return
        s = k.spec
        if i['role'] == 'setup':
            if proc.status != 0:
                k.violation(('setup', f'{self.uncaught(k)} {self.output(k, "setup", 2)}'))
                return
            self.rearrange(k)
        elif i['role'] == 'final':
            return
        else:
            if not i.get('struck') and not any(n[2] == i['role'] for n in k.notes('ran')):
                k.violation(('no_start', f'{i["role"]} ended without reaching its first command, layout {s["layout"]}: '
                                         f'{self.uncaught(k)} {self.output(k, i["role"], 2)[-1500:]}'))
                return
            self.waiting -= 1
            if self.waiting:
                return
        self.phase += 1
        k.after(0.5, lambda: self.begin(k))

    # ------------------------------------------------------------ judgement

    def check(self, k):
        s = k.spec
        if k.violations or not self.liveness(k):
            return
        err = self.output(k, 'final', 2)
        disk = sorted(p[len(self.home):] for p in walk(self.home))
        text = f'layout {s["layout"]}; {self.uncaught(k)}; {err[-1200:]}; {disk}'
        if not k.notes('end'):
            k.violation(('no_start', f'the last start did not work: {text}'))
            return
        saw = {n[2]: n[3:] for n in k.notes('saw')}
        if s['layout'] != 'none' and saw.get('default') != ('default',):
            k.violation(('startup_lost', f"the user's startup script is not in effect: {saw}; {text}"))
        elif s['layout'] == 'none' and saw.get('default') != ('ColorScheme',):
            k.violation(('startup_lost', f'the default startup script is not in effect: {saw}; {text}'))
        elif saw.get('fresh') != (1,):
            k.violation(('unusable', f'a new workspace cannot be used: {saw}; {text}'))
        elif s['layout'] not in ('original', 'xdg', 'none'):
            for i, w in enumerate(s['named']):
                if saw.get(w) != (w, 40 + i, w):
                    k.violation(('workspace_lost', f'workspace {w}: {saw}; {text}'))
                    return
                rows = [n[3] for n in k.notes('row') if n[2] == w]
                if rows != list(range(3 + i)):
                    k.violation(('workspace_lost', f'workspace {w}: stored stream is {rows}; {text}'))
                    return

    def nontrivial(self, k):
        return bool(k.faults.keys() - {'stall', 'early_timeout'}) or any(len(r) > 1 for r in k.spec['rounds'])

    def describe(self, s):
        return '\n'.join(f'{a}: {b}' for a, b in s.items())


def walk(d):
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for f in dirs + files:
            yield base + '/' + f


class Errors(Starts):
    errors = True


class Alone(Starts):
    single = True


def scenario(i):
    return (Starts, Alone, Errors)[i % 3]
