"""Edits of the startup script while a session is running."""
from checks.common import *

QUICK = 900
THOROUGH = 40000
RULE = 'distinct (schedule, history) pairs in which the session read its startup script at least twice'
REAL = [REAL_MAIN, 'configuration scripts, shell restart, workspaces, the default workspace\'s saved environment, job control']
STUBS = ['line editor and user', 'another party that edits the startup script, with a clock of its own',
         'process creation, waiting, signals, locks, sleeping and readiness are served by the simulated kernel']
ASSUMPTIONS = ['files are real ones in a memory file system; their modification times are simulated ones',
               'a save of the startup script changes its modification time, size or inode']
STEP = "__import__('sim.vhelper').vhelper.step"


class Edits(Interactive):
    max_steps = 200000
    max_time = 4000
    trace_lines = ('main.py', 'configscript.py', 'object/workspace.py')

    def build(self, ch):
        n = ch.between(2, 9)
        where = ch.pick(['', '', 'w'])
        cmds = []
        for i in range(n):
            kind = ch.pick(['see', 'see', 'job', 'job', 'set', 'set', 'bg', 'cd', 'store', 'store', 'load'])
            cmds.append(dict(kind=kind, think=ch.pick([0.1, 1, 1, 30])))
            if ch.coin(0.1):
                cmds[-1]['int'] = True
        edits = []
        for i in range(ch.between(1, 4)):
            edits.append(dict(
                at=ch.between(0, n), when=ch.pick(['prompt', 'typed', 'call', 'call']), call=ch.draw(40),
                # Modification time, relative to the shell's clock
                mtime=ch.pick([0, 0, 0, 5000, 90000, -5000, -90000, 0.25]),
                how=ch.pick(['write', 'write', 'replace', 'delete', 'broken', 'touch'])))
        for e in edits:
            if e['how'] == 'delete':
                # At other times, the missing file might be reported as damage of the workspace
                e['when'] = 'prompt'
        return dict(cmds=cmds, edits=edits, where=where)

    # What the startup script says

    def content(self, version, broken=False):
        text = f'V = {version}\n{STEP}("config", {version})\n'
        if broken:
            text += f'{STEP}("config_broken")\nx = 1 / 0\n'
        return text

    def publish(self, k, version, how='write', offset=0.0):
        path = self.config
        text = self.content(version, how == 'broken')
        if how == 'delete':
            if os.path.exists(path):
                os.unlink(path)
            return
        if how == 'touch':
            text = self.content(self.version)
            version = self.version
        target = path + '.new' if how == 'replace' else path
        if how == 'replace':
            target = f'{k.scratch}/replacement'
        with rt.real.io_open(target, 'w') as f:
            f.write(text)
        # No two saves at the same time
        self.saves += 1
        t = k.now + offset + self.saves / 1000
        os.utime(target, (t, t))
        if target != path:
            os.rename(target, path)
        self.version = version

    def boot(self, k):
        self.k = k
        s = k.spec
        k.gated = {'stat', 'open', 'rename', 'unlink', 'replace'}
        k.choose_policy(trace_lines=True, timers=False)
        k.trace_prefixes = tuple(f'{REPO}/marcel/{f}' for f in self.trace_lines)
        self.home = make_home(k)
        self.saves = 0
        self.version = 0
        self.pending = list(s['edits'])
        self.calls = 0
        self.current = -1           # index of the command that was typed or is about to be typed
        base = f'{self.home}/.config/marcel/workspace'
        self.config = f'{base}/{s["where"] or "__DEFAULT__"}/startup.py'
        self.base = base
        todo = [(0.1, f'({STEP}("ready"))'), (0.1, 'a = (-1)')]
        if s['where']:
            todo[0:0] = [(0.1, 'a = (-1)'), (0.1, f'ws -n {s["where"]}'), (0.1, f'ws {s["where"]}')]
        self.first = len(todo)
        for i, c in enumerate(s['cmds']):
            if c.get('int'):
                todo.append((c['think'], ('int',)))
            todo.append((c['think'], self.text(i, c)))
            os.makedirs(f'{self.home}/d{i}', exist_ok=True)
        todo.append((1, f'({STEP}("end"))'))
        self.terminal(k, 'shell', todo, spec=s)

    def text(self, i, c):
        kind = c['kind']
        note = f'{STEP}("cmd", {i}, V, a, PWD)'
        if kind == 'see':
            return f'({note})'
        if kind == 'job':
            return f'gen 1 | map (lambda x: {note})'
        if kind == 'set':
            return f'a = (({note}, {i})[1])'
        if kind == 'bg':
            return f'gen 1 | map (lambda x: {note}) &'
        if kind == 'store':
            return f'gen 2 | map (lambda x: {i} * 10 + x) | map (lambda x: ({STEP}("cmd", {i}, V, a, PWD) if x % 10 else 0, x)[1]) >$ b'
        if kind == 'load':
            return f'b <$ map (lambda x: ({STEP}("cmd", {i}, V, a, PWD) if x % 10 else 0, {STEP}("got", {i}, x))[1])'
        return f'cd {self.home}/d{i}'

    # ------------------------------------------------------------ edits

    def edit(self, k, when):
        for e in list(self.pending):
            if e['at'] == self.current and e['when'] == when:
                self.pending.remove(e)
                self.number += 1
                if e['how'] == 'delete' and not self.read:
                    e = dict(e, how='write')
                k.fault('edit_' + e['how'])
                if e['mtime'] > 1:
                    k.fault('mtime_ahead')
                elif e['mtime'] < 0:
                    k.fault('mtime_behind')
                self.publish(k, self.number, e['how'], e['mtime'])
                k.note('edit', 0, 'other', self.version, e['how'])

    number = 0
    read = False
    fallen = False

    def on_note(self, k, proc, args):
        if args[0] == 'config' and proc.kind == 'root':
            self.read = True
        if args[0] == 'config_broken' and k.spec['where'] and not self.fallen:
            # The session will be in the default workspace. From now on, edit the script of that one
            self.fallen = True
            self.config = f'{self.base}/__DEFAULT__/startup.py'
            self.number += 1
            self.publish(k, self.number)
            k.note('edit', 0, 'other', self.version, 'write')
        if args[0] == 'ready':
            # The session is in its workspace
            self.current = 0
            self.publish(k, 0, 'write')
            k.note('edit', 0, 'other', 0, 'write')

    def at_prompt(self, k, t):
        if self.current >= 0:
            self.edit(k, 'prompt')

    def on_typed(self, k, t, reply):
        if self.current >= 0 and reply[0] == 'text' and not reply[1].startswith('a = (-1)'):
            self.calls = 0
            self.edit(k, 'typed')
            self.running = self.current
            self.current += 1

    def gate(self, k, proc, task, args):
        if args[0] == 'fs' and self.current >= 0 and proc.kind == 'root':
            self.calls += 1
            for e in self.pending:
                if e['at'] == self.current and e['when'] == 'call' and self.calls > e['call']:
                    self.edit(k, 'call')
                    break
        return None

    # ------------------------------------------------------------ judgement

    def check(self, k):
        s = k.spec
        if not self.liveness(k):
            return
        hist = k.history
        versions = [(i, h[5], h[6]) for i, h in enumerate(hist) if h[2] == 'edit']
        configs = [(i, h[5]) for i, h in enumerate(hist) if h[2] == 'config' and h[4] == 'shell']
        broken = [i for i, h in enumerate(hist) if h[2] == 'config_broken']
        err = self.output(k, fd=2)
        limit = 1 + len(versions) + (1 if s['where'] else 0)
        if len(configs) > limit:
            k.violation(('restarts', f'the startup script was run {len(configs)} times after {len(versions)} edits'))
            return
        end = len(hist)
        if len(broken) > 1 and s['where']:
            # The script of the default workspace has an error too
            end = broken[1]
        elif broken:
            if not s['where']:
                end = broken[0]
            ended = any(h[2] == 'end' for h in hist)
            if not s['where']:
                if 'Error in startup script' not in err:
                    k.violation(('broken', f'no report of the error in the startup script: {err[-500:]}'))
            elif not ended:
                k.violation(('broken', f'the session is over: {self.uncaught(k)} {err[-1000:]}'))
        elif not any(h[2] == 'end' for h in hist):
            k.violation(('stopped', f'the session ended early: {self.uncaught(k)} {err[-1500:]}'))
            return
        # What has to have happened
        typed = [(i, h[5][1]) for i, h in enumerate(hist) if h[2] == 'typed' and h[5][0] == 'text']
        texts = {self.text(i, c): i for i, c in enumerate(s['cmds'])}
        notes = [(i, h[5], h[6], h[7], h[8]) for i, h in enumerate(hist) if h[2] == 'cmd']
        a, b, pwd = -1, None, self.home
        used = set()
        fallen, carried = False, None
        last = None
        for at, (pos, text) in enumerate(typed):
            if False:
                i = last
                if i is None:
                    continue
            elif text in texts:
                i = texts[text]
            else:
                continue
            if s['where'] and broken and pos > broken[0] and not fallen:
                fallen = True
                a, b, pwd = -1, None, None
                if carried is not None:
                    i0 = texts[carried]
                    kind = s['cmds'][i0]['kind']
                    if kind == 'set':
                        a = i0
                    elif kind == 'store':
                        b = i0
                    else:
                        pwd = f'{self.home}/d{i0}'
            nexts = typed[at + 1][0] if at + 1 < len(typed) else len(hist)
            if nexts > end:
                return
            if s['where'] and broken and pos < broken[0] < nexts:
                # Typed in the one workspace, carried out in the other
                if s['cmds'][i]['kind'] in ('set', 'store', 'cd'):
                    carried = self.text(i, s['cmds'][i])
                continue
            kind = s['cmds'][i]['kind']
            last = i if kind not in ('cd', 'bg') else None
            if kind == 'cd':
                pwd = f'{self.home}/d{i}'
                continue
            mine = [n for n in notes if n[1] == i and n[0] > pos and n[0] not in used and (n[0] < nexts or kind == 'bg')]
            show = f'command {i} {text!r}: versions {versions}, read {configs}, typed at {pos}: {mine}, expected a {a} in {pwd}; {err[-300:]!r}'
            if kind == 'bg' and not mine:
                continue
            present = [v[2] for v in versions if v[0] < pos][-1:] + [v[2] for v in versions if pos < v[0] < nexts]
            if kind in ('job', 'store', 'load') and not mine and 'delete' in present:
                # Jobs need the file
                b = 'unknown' if kind == 'store' else b
                continue
            if kind == 'load':
                got = [h[6] for h in hist[pos:nexts] if h[2] == 'got']
                if b != 'unknown' and got != ([] if b is None else [b * 10, b * 10 + 1]):
                    k.violation(('stored', show + f'; stored by command {b}, loaded {got}'))
                    return
                if b in (None, 'unknown'):
                    continue
            if len(mine) != 1 and not (kind == 'bg' and text != '!!'):
                k.violation(('lost' if not mine else 'twice', show))
                return
            n = mine[0]
            used.add(n[0])
            before = [v for v in versions if v[0] < pos]
            allowed = {before[-1][1] if before else 0} | {v[1] for v in versions if pos < v[0] < n[0]}
            if before and before[-1][2] == 'delete':
                # Nothing to read. What was read last stays in effect
                allowed |= {c[1] for c in configs if c[0] < pos}
            if n[2] not in allowed:
                k.violation(('stale', show))
            elif n[3] != a:
                k.violation(('variable', show))
            elif pwd is not None and n[4] != pwd:
                k.violation(('directory', show))
            if kind == 'set':
                a = i
            elif kind == 'store':
                b = i
        k.probe('judged')

    def nontrivial(self, k):
        return len(k.notes('config')) > 2

    def measure(self, k):
        return k.schedule_hash, len(k.history)

    def describe(self, s):
        return '\n'.join([f'{self.text(i, c)}' for i, c in enumerate(s['cmds'])] + [repr(e) for e in s['edits']] + [s['where']])


class Clock(Edits):
    """Modification times far from what the shell's clock says."""

    def build(self, ch):
        s = super().build(ch)
        for e in s['edits']:
            e['mtime'] = ch.pick([5000, 90000, -5000, -90000])
        return s


def scenario(i):
    return (Edits, Edits, Clock)[i % 3]
