"""Interactive sessions with workspaces, sharing one home directory: C10 - C13.

A reference model holds, for every workspace, the states the next opener may find (more than one after a crash or an
error), and for every session the states its variables may be in. Every observation (output of a command, prompt)
narrows them down; none left is a violation."""
import re
import zlib
from checks.common import *

REAL = [REAL_MAIN + ' in interactive sessions', 'workspaces, marker files, saved environments and reservoirs in a real '
        'directory tree', 'jobs as processes']
STUBS = ['line editor: typed text arrives through the prompt seam', 'process creation, signals, locks, existence of '
         'processes and the clock are served by the simulated kernel', 'the users at the terminals']
ASSUMPTIONS = ['a crash is the death of a process: what it had written to files before stays',
               'process ids are not reused']

NAMES = ('w1', 'w2', 'w3')
VARS = ('a', 'b', 'c', 'd')
ANSI = re.compile(r'\x1b\[[0-9;]*m')
PROMPT = re.compile(r'M (\S+) (?:(\S+) )?vuser@\S+ (.*)\$ $')
DIRS = ('d1', 'd2', 'd1/e')
MUTATING = ('mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace', 'chmod', 'utime', 'openw', 'write')


def copy(c):
    return dict(vars=dict(c['vars']), home=c['home'])


def dedupe(cands):
    out = []
    for c in cands:
        if c not in out:
            out.append(c)
    return out


class World(Interactive):
    max_steps = 60000
    max_time = 20000.0
    shells = 1
    kills = False
    errors = False
    unsavable = False
    ops = (4, 30)
    sessions = (1, 3)
    weights = dict(set=6, delete_var=2, show=6, cd=1, where=1, identify=2, list=1, home=1, open=4, new=3, close=2, delete=1,
                   eof=1)
    names = NAMES

    def build(self, ch):
        s = dict(shells=self.shells if type(self.shells) is int else ch.between(*self.shells),
                 method=ch.pick(['spawn', 'spawn', 'fork']), pre=ch.draw(3))
        s['slots'] = [[ch.between(*self.ops) for _ in range(ch.between(*self.sessions))] for _ in range(s['shells'])]
        return s

    def plan(self, ch, spec, k0):
        spec['kills'] = []
        spec['errors'] = []
        if self.kills:
            for _ in range(ch.between(1, 3)):
                slot = ch.draw(spec['shells'])
                i = ch.draw(len(spec['slots'][slot]))
                spec['kills'].append([slot, i, ch.draw(spec['slots'][slot][i] + 1), ch.draw((8, 25, 60)[ch.draw(3)])])
        if self.errors:
            for _ in range(ch.between(1, 3)):
                slot = ch.draw(spec['shells'])
                i = ch.draw(len(spec['slots'][slot]))
                spec['errors'].append([slot, i, ch.draw(spec['slots'][slot][i] + 1), ch.draw((3, 12)[ch.draw(2)]),
                                       ch.pick(['ENOSPC', 'EIO', 'EDQUOT', 'EACCES', 'short']), ch.coin(0.4)])

    calibrated = False

    def boot(self, k):
        self.k = k
        if self.gates:
            k.gated = None if self.gates == 'all' else set(self.gates)
        else:
            k.gated = ()
        if 'kills' not in k.spec:
            self.plan(k.ch, k.spec, None)
        if self.shells != 1:
            k.choose_policy(trace_lines=False)
        self.home_dir = make_home(k)
        for d in DIRS:
            os.makedirs(f'{self.home_dir}/{d}', exist_ok=True)
        self.disk = {}           # name -> list of states, None for absent
        self.tainted = set()     # names whose creation or deletion was interrupted
        self.sess = {}
        self.n = 0
        self.touring = False
        self.start_slot(k, 0, 0)
        for slot in range(1, k.spec['shells']):
            # The first start is C15's concern
            k.after(3.0 + 0.2 * k.ch.draw(4), lambda slot=slot: self.start_slot(k, slot, 0))

    gates = None

    def start_slot(self, k, slot, i):
        t = self.terminal(k, 'ABCDEFGH'[slot] + str(i), MARCEL_MULTIPROCESSING_START_METHOD=k.spec['method'])
        self.sess[t['proc'].vpid] = t
        t.update(slot=slot, index=i, left=k.spec['slots'][slot][i], ws='', cmd=None, starting=True, ncmd=0, leaving=None,
                 default=[dict(vars={}, home=None)], out0=len(k.history), queue=[], over=False,
                 contended=set(), gone=None,
                 pwd=self.home_dir)
        t['cands'] = t['default']
        k.probe('sessions')

    # ------------------------------------------------------------ model of the disk

    def states(self, name):
        return self.disk.get(name, [None])

    def existing(self, name):
        return [c for c in self.states(name) if c is not None]

    def absent(self, name):
        return None in self.states(name)

    def others(self, t):
        return [o for o in self.sess.values() if o is not t and not o['over']]

    def touches(self, t):
        """Names of workspaces that a session's current command (or start, or end) concerns."""
        c = t['cmd']
        s = set()
        if t['leaving'] is not None:
            s.add(t['leaving'])
        if c and c.get('name'):
            s.add(c['name'])
        return s

    def contend(self, t, names):
        for o in self.others(t):
            if o['cmd'] is not None:
                o['contended'] |= names

    def holder(self, name, t):
        for o in self.others(t):
            if o['ws'] == name and name not in (o['leaving'], o['gone']):
                return o
        return None

    def leave(self, t, union=False):
        """Session t has saved the workspace it was in."""
        name = t['leaving']
        t['leaving'] = None
        if name is None:
            return
        new = [self.saved(c) for c in t['cands']]
        if name == '':
            t['default'] = dedupe(new)
            if union:
                t['default'] = dedupe(t['default'] + [dict(vars={}, home=None)] + t.get('default_saved', []))
            t['default_saved'] = t['default']
        else:
            self.disk[name] = dedupe((self.existing(name) if union else []) + new)
            if union:
                # Files of reservoirs are removed and replaced before the state is saved
                self.unknown_reservoirs(name)

    def saved(self, c):
        c = copy(c)
        c['vars'] = {v: x for v, x in c['vars'].items() if x[0] != 'unsavable'}
        return c

    def unknown_reservoirs(self, name):
        for c in self.existing(name):
            for v, x in c['vars'].items():
                if x[0] == 'res':
                    c['vars'][v] = ('res', None)

    # ------------------------------------------------------------ the user

    def user_next(self, k, t):
        ch = k.ch
        think = (0.05, 0.2, 0.5, 1.5)[ch.draw(4)]
        if t['queue']:
            c = t['queue'].pop(0)
        elif t['left'] <= 0:
            c = dict(kind='eof')
        else:
            t['left'] -= 1
            c = self.choose(k, t)
        t['upcoming'] = c
        if c['kind'] == 'eof':
            return think, None
        return think, c['text']

    def choose(self, k, t):
        ch = k.ch
        doomed = any(x[0] == t['slot'] and x[1] == t['index'] and x[2] == t['ncmd'] for x in
                     k.spec['kills'] + k.spec['errors'])
        w = dict(self.weights)
        if doomed and ch.coin(0.8):
            w = {x: w[x] for x in ('home', 'open', 'new', 'close', 'delete', 'eof') if w.get(x)}
        if t['left'] > 2:
            w['eof'] = w.get('eof', 0) if doomed else 0
        total = sum(w.values())
        d = ch.draw(total)
        for kind, n in w.items():
            if d < n:
                break
            d -= n
        self.n += 1
        n = self.n
        if kind == 'set':
            v = ch.pick(VARS)
            how = ch.pick(['int', 'str', 'list', 'fn', 'pipe', 'res', 'append', 'import', 'int'] +
                          (['unsavable'] * 3 if self.unsavable else []))
            if any(x[0] == 'unsavable' for c in t['cands'] for x in c['vars'].values()):
                how = 'int'     # no jobs
            if how == 'append' and not all(c['vars'].get(v, ('',))[0] == 'res' for c in t['cands']):
                how = 'res'
            if how == 'import':
                return dict(kind='set_import', text='import math')
            if how == 'unsavable':
                # jobs are not possible with such a variable around
                t['queue'].append(dict(kind='close', text='ws -c') if t['ws'] else self.goto(k, t))
                return dict(kind='set', var=v, value=('unsavable', n), text=f'{v} = ((i for i in range({n})))')
            if how == 'append':
                return dict(kind='append', var=v, value=n, text=f'gen 1 {n} >>$ {v}')
            text = dict(int=f'{v} = ({n})', str=f'{v} = word{n}', list=f'{v} = ([1, {n}])',
                        fn=f'{v} = (lambda x: x + {n})', pipe=f'{v} = (| gen 2 {n} |)', res=f'gen 2 {n} >$ {v}')[how]
            value = ('res', (n, n + 1)) if how == 'res' else (how, n)
            return dict(kind='set_res' if how == 'res' else 'set', var=v, value=value, text=text)
        if kind == 'delete_var':
            v = ch.pick(VARS)
            return dict(kind='delete_var', var=v, text=f'env -d {v}')
        if kind == 'show':
            return self.show(t, ch.pick(VARS + ('math',)))
        if kind == 'cd':
            d = f'{self.home_dir}/{ch.pick(DIRS)}'
            return dict(kind='cd', dir=d, text=f'cd {d}')
        if kind == 'where':
            return dict(kind='where', text='(PWD)')
        if kind == 'identify':
            return dict(kind='identify', text='ws')
        if kind == 'list':
            return dict(kind='list', text='ws -l')
        if kind == 'home':
            d = f'{self.home_dir}/{ch.pick(DIRS)}'
            return dict(kind='home', dir=d, text=f'ws -h {d}')
        if kind == 'open':
            return self.goto(k, t)
        if kind in ('new', 'delete'):
            name = ch.pick(self.names)
            return dict(kind=kind, name=name, text=f'ws -{kind[0]} {name}')
        if kind == 'close':
            return dict(kind='close', text='ws -c')
        return dict(kind='eof')

    def goto(self, k, t):
        known = [n for n in self.names if self.existing(n) and n != t['ws']]
        name = k.ch.pick(known) if known and k.ch.coin(0.85) else k.ch.pick(self.names)
        return dict(kind='open', name=name, text=f'ws {name}' if k.ch.coin(0.5) else f'ws -o {name}')

    def show(self, t, v):
        x = t['cands'][0]['vars'].get(v, ('undef',))
        if any(y[0] == 'unsavable' for c in t['cands'] for y in c['vars'].values()):
            x = ('undef',)
        if v == 'math':
            return dict(kind='show', var='math', text='(math.floor(3.5))')
        if x[0] == 'fn':
            return dict(kind='show', var=v, how='fn', text=f'({v}(1))')
        if x[0] == 'pipe':
            return dict(kind='show', var=v, how='pipe', text=v)
        if x[0] == 'res':
            return dict(kind='show', var=v, how='res', text=f'{v} <$')
        return dict(kind='show', var=v, how='value', text=f'({v})')

    # ------------------------------------------------------------ following a session

    LEAVING = ('open', 'new', 'close', 'eof')

    def on_typed(self, k, t, reply):
        c = t['cmd'] = t['upcoming']
        t['upcoming'] = None
        c['n'] = t['ncmd']
        c['ops0'] = t['proc'].fs_ops
        t['ncmd'] += 1
        t['out0'] = len(k.history)
        t['faulted'] = False
        kind = c['kind']
        if kind in self.LEAVING and not (kind == 'open' and c['name'] == t['ws']) and not (kind == 'close' and not t['ws']):
            t['leaving'] = t['ws']
        t['contended'] = set()
        for o in self.others(t):
            t['contended'] |= self.touches(o)
        mine = self.touches(t)
        self.contend(t, mine)
        name = c.get('name')
        if name:
            c['held'] = self.holder(name, t)
            c['before'] = list(self.states(name))
            # until it is known what becomes of it
            if kind == 'new' and None in c['before']:
                self.disk[name] = dedupe(c['before'] + [dict(vars={}, home=None)])
        if kind == 'home' and t['ws']:
            # saved immediately
            self.disk[t['ws']] = dedupe(self.existing(t['ws']) + [dict(copy(x), home=c['dir'])
                                                                  for x in self.existing(t['ws'])])
        if kind == 'eof':
            t['exiting'] = True

    def text_since(self, k, t):
        out, err = [], []
        for h in k.history[t['out0']:]:
            if h[2] == 'out' and h[4].rstrip('+') == t['role']:
                (out if h[5] == 1 else err).append(h[6])
        return ANSI.sub('', ''.join(out)), ANSI.sub('', ''.join(err))

    def ask(self, k, proc, task, args):
        t = self.terms.get(proc.vpid)
        if t is not None and args[0] == 'prompt':
            t['prompt_text'] = ANSI.sub('', str(args[1]))
        return super().ask(k, proc, task, args)

    def at_prompt(self, k, t):
        out, err = self.text_since(k, t)
        m = PROMPT.search(t['prompt_text'].replace('\n', ''))
        if not m:
            k.violation(('prompt', f'{t["role"]}: unexpected prompt {t["prompt_text"]!r} {err[-800:]}'))
            return
        shown, pdir = m[2] or '', m[3]
        c = t['cmd']
        if t['starting']:
            t['starting'] = False
            if not self.tainted and 'Damaged' in err:
                k.violation(('damaged', f'{t["role"]} reports: {err}'))
            if shown != '':
                k.violation(('prompt', f'a new shell starts in workspace {shown}'))
        elif c is not None:
            self.judge(k, t, c, shown, out, err)
        t['cmd'] = None
        t['gone'] = None
        if k.violations:
            return
        # In two shells at once?
        if shown:
            for o in self.others(t):
                if o['ws'] == shown and shown not in (o['leaving'], o['gone']):
                    k.violation(('two_owners', f'workspace {shown} is open in {t["role"]} and in {o["role"]}'))
        if shown != t['ws']:
            k.violation(('wrong_workspace', f'{t["role"]} should be in workspace {t["ws"]!r}, prompt says {shown!r}: '
                                            f'{c and c.get("text")} {err[-600:]}'))
            return
        self.narrow(k, t, lambda x: pdir in self.prompt_dirs(t['ws'], x, t['pwd']), f'the prompt shows directory {pdir}')

    def prompt_dirs(self, ws, c, pwd):
        if ws == '':
            return ['~' + pwd[len(self.home_dir):]]
        if c['home']:
            if pwd == c['home']:
                return ['']
            if pwd.startswith(c['home'] + '/'):
                return [pwd[len(c['home']) + 1:]]
        return [pwd]

    def narrow(self, k, t, ok, what):
        left = [c for c in t['cands'] if ok(c)]
        if not left:
            k.violation(('wrong_state', f'{t["role"]} in workspace {t["ws"]!r}: {what}, expected one of '
                                        f'{t["cands"]}'))
            return
        t['cands'][:] = left

    def enter(self, k, t, name, cands):
        """Session t is now in workspace name, in one of the states cands."""
        t['ws'] = name
        t['cands'] = dedupe([copy(c) for c in cands])

    def left_by_others(self, k, t, name):
        """Session t has opened name: whoever was about to leave it has left it."""
        for o in self.others(t):
            if o['leaving'] == name and o['ws'] == name:
                self.leave(o)
                o['gone'] = name

    def finish_leaving(self, k, t, err):
        if t['leaving'] is None:
            return
        for x in [v for c in t['cands'] for v, y in c['vars'].items() if y[0] == 'unsavable']:
            k.probe('unsavable')
            if t['ws'] == '' and t['cmd']['kind'] == 'eof':
                continue    # not saved at all
            if f'Variable {x} cannot be saved' not in err:
                k.violation(('silent', f'variable {x} was not saved, this was not reported: {err}'))
        union = t['faulted'] and 'Unable to save' in err
        if union:
            k.probe('save_failed')
        self.leave(t, union)

    def judge(self, k, t, c, shown, out, err):
        kind = c['kind']
        lines = [l for l in out.split('\n') if l.strip() and '\x1b' not in l]
        name = c.get('name')
        uncertain = bool(name and (name in t['contended'] or name in self.tainted)) or t['faulted']
        k.probe('cmd_' + kind)

        def expect(ok, what):
            if not ok:
                k.violation(('outcome', f'{t["role"]} in {t["ws"]!r}: {c.get("text")}: {what}; workspace now {shown!r}, '
                                        f'output {lines} {err[-600:]!r}'))

        if kind == 'open':
            if name == t['ws']:
                expect(not lines and not err, 'expected no output')
                return
            if shown == name:
                self.finish_leaving(k, t, err)
                self.left_by_others(k, t, name)
                found = self.existing(name)
                expect(found, 'it does not exist')
                if c['held'] and name not in t['contended']:
                    expect(False, f'it is open in {c["held"]["role"]}')
                if not k.violations:
                    self.disk[name] = found
                    self.enter(k, t, name, found)
                    k.probe('opened')
                return
            # Refused
            expect(err, 'refused without saying why')
            if not uncertain:
                expect(None in c['before'] or c['held'], 'refused, though it exists and is not in use')
            if c['held']:
                k.probe('refused_in_use')
            if shown == '' and t['ws'] != '':
                self.finish_leaving(k, t, err)
                self.enter(k, t, '', t['default'])
            elif t['ws'] == '':
                # possibly closed and reopened
                t['default_saved'] = t['default'] = t['cands'] = [self.saved(x) for x in t['cands']] \
                    if 'does not' not in err and 'no workspace' not in err else t['cands']
                t['leaving'] = None
            else:
                t['leaving'] = None
        elif kind == 'new':
            if shown == name and t['ws'] != name:
                self.finish_leaving(k, t, err)
                self.left_by_others(k, t, name)
                expect(None in c['before'] or uncertain, 'created, though it exists')
                empty = [dict(vars={}, home=None)]
                # others may have been there after it was created
                found = self.existing(name) + empty if name in t['contended'] else empty
                self.tainted.discard(name)
                self.disk[name] = [copy(x) for x in found]
                self.enter(k, t, name, found)
                k.probe('created')
                return
            expect(err, 'refused without saying why')
            if not uncertain:
                expect(c['before'] != [None], 'refused, though no such workspace exists')
            if not uncertain:
                self.disk[name] = c['before']
            if t['faulted'] and None in c['before']:
                self.tainted.add(name)
            if shown == '' and t['ws'] != '':
                self.finish_leaving(k, t, err)
                self.enter(k, t, '', t['default'])
            else:
                t['leaving'] = None
        elif kind == 'close':
            if t['ws'] == '':
                expect(not lines and not err, 'expected no output')
                return
            self.finish_leaving(k, t, err)
            if not t['faulted']:
                expect(lines == ['Workspace()'], 'unexpected output')
            self.enter(k, t, '', t['default'])
        elif kind == 'delete':
            if err:
                if not uncertain:
                    expect(None in c['before'] or c['held'] or t['ws'] == name,
                           'refused, though it exists and is not in use')
                if t['faulted']:
                    self.tainted.add(name)
                    self.disk[name] = dedupe(self.states(name) + [None])
            else:
                self.left_by_others(k, t, name)
                expect(t['ws'] != name, 'current workspace deleted')
                if c['held'] and name not in t['contended']:
                    expect(False, f'deleted, though open in {c["held"]["role"]}')
                if name not in t['contended']:
                    expect(any(c['before']) or name in self.tainted, 'deleted, though it does not exist')
                    self.disk[name] = [None]
                    self.tainted.discard(name)
                else:
                    self.disk[name] = dedupe(self.states(name) + [None])
                k.probe('deleted')
        elif kind == 'home':
            if t['ws'] == '':
                expect(err, 'the default workspace got a home directory')
            elif err and t['faulted']:
                # unknown, in memory and on disk
                t['cands'] = dedupe(t['cands'] + [dict(copy(x), home=c['dir']) for x in t['cands']])
            else:
                expect(lines == [f'Workspace({t["ws"]} @ {c["dir"]})'], 'unexpected output')
                t['cands'] = [dict(copy(x), home=c['dir']) for x in t['cands']]
                self.disk[t['ws']] = dedupe([dict(copy(x), home=c['dir']) for x in self.existing(t['ws'])])
        elif kind == 'identify':
            self.narrow(k, t, lambda x: lines == [self.render(t['ws'], x)], f'ws prints {lines} {err}')
        elif kind == 'list':
            if not self.tainted and self.shells == 1:
                want = []
                for n in sorted(self.names):
                    if n == t['ws']:
                        want.append([self.render(n, x) for x in t['cands'] + self.existing(n)])
                    elif self.existing(n):
                        want.append([self.render(n, x) for x in self.existing(n)] +
                                    ([None] if self.absent(n) else []))
                got = list(lines)
                ok = bool(got) and got.pop(0) == 'Workspace()'
                for opts in want:
                    if got and got[0] in opts:
                        got.pop(0)
                    elif None not in opts:
                        ok = False
                expect(ok and not got, f'expected {want}')
        elif kind == 'cd':
            expect(not err, 'failed')
            t['pwd'] = c['dir']
        elif kind == 'where':
            expect(lines == [t['pwd']], f'PWD should be {t["pwd"]}')
        elif kind in ('set', 'set_res', 'set_import'):
            expect(not err and not lines, 'failed')
            for x in t['cands']:
                x['vars'][c.get('var', 'math')] = c.get('value', ('import', 0))
        elif kind == 'append':
            expect(not err and not lines, 'failed')
            for x in t['cands']:
                old = x['vars'][c['var']]
                x['vars'][c['var']] = ('res', None if old[1] is None else old[1] + (c['value'],))
        elif kind == 'delete_var':
            self.narrow(k, t, lambda x: not err and bool(lines) == (c['var'] in x['vars']),
                        f'{c["text"]} prints {lines} {err}')
            for x in t['cands']:
                x['vars'].pop(c['var'], None)
        elif kind == 'show':
            self.narrow(k, t, lambda x: self.looks(c, x['vars'].get(c['var'], ('undef',)), lines, out + err),
                        f'{c["text"]} prints {lines} {err}')
            k.probe('shown')

    def render(self, ws, c):
        return f'Workspace({ws} @ {c["home"]})' if c['home'] and ws else f'Workspace({ws})'

    def looks(self, c, x, lines, everything):
        """Could command c, showing a variable with value x, have printed lines?"""
        if c['var'] == 'math':
            return lines == ['3'] if x[0] == 'import' else 'NameError' in everything
        kind, n = x[0], x[1] if len(x) > 1 else None
        how = c['how']
        if kind == 'unsavable':
            return True
        if kind == 'res' and n is None:
            return True
        if how == 'fn':
            return lines == [str(n + 1)] if kind == 'fn' else 'Error' in everything
        if how == 'pipe':
            return lines == [str(n), str(n + 1)] if kind == 'pipe' else not any(l.strip().isdigit() for l in lines)
        if how == 'res':
            return lines == [str(i) for i in n] if kind == 'res' else not any(l.strip().isdigit() for l in lines)
        want = dict(int=str(n), str=f'word{n}', list=f'[1, {n}]')
        if kind in want:
            return lines == [want[kind]]
        if kind == 'undef':
            return 'NameError' in everything
        return not lines or lines[0] not in want.values()

    # ------------------------------------------------------------ ends of sessions, faults

    def gate(self, k, proc, task, args):
        t = self.sess.get(proc.vpid)
        if t is None or args[0] != 'fs' or t['cmd'] is None:
            return None
        c = t['cmd']
        for kl in k.spec['kills']:
            if kl[0] == t['slot'] and kl[1] == t['index'] and kl[2] == c['n']:
                c['nth'] = c.get('nth', -1) + 1
                if c['nth'] == kl[3]:
                    k.fault('shell_killed')
                    if t['leaving'] is not None:
                        k.fault('killed_leaving_workspace')
                    t['killed'] = True
                    return ('kill',) if args[1] != 'write' or k.ch.coin(0.5) else ('crash', k.ch.draw(len(args[3] or b'') if
                                                                                   isinstance(args[3], bytes) else 1 +
                                                                                   (args[3] or 0)))
        for i, e in enumerate(k.spec['errors']):
            if e[0] == t['slot'] and e[1] == t['index'] and e[2] == c['n'] and \
                    c['kind'] in self.LEAVING + ('home', 'delete') and args[1] in self.FAILING:
                if args[1] in ('unlink', 'remove', 'rename', 'replace') and e[4] in ('ENOSPC', 'EDQUOT', 'short'):
                    continue
                if str(args[2]).endswith('history') or '.WORKSPACE' in str(args[2]):
                    continue
                j = c['nerr'] = c.get('nerr', -1) + 1
                if j == e[3] or j > e[3] and e[5]:
                    t['faulted'] = True
                    k.fault('io_error_' + e[4])
                    if e[4] == 'short':
                        return ('err', errno.ENOSPC) if args[1] != 'write' else ('short', 1)
                    return ('err', getattr(errno, e[4]))
        return None

    FAILING = ('mkdir', 'openw', 'write', 'replace', 'rename', 'chmod', 'unlink')

    def on_exit(self, k, proc):
        t = self.sess.get(proc.vpid)
        if t is None:
            return
        out, err = self.text_since(k, t)
        t['over'] = True
        c = t['cmd']
        if t.get('killed'):
            self.killed(k, t, c)
        elif c is not None and c['kind'] == 'eof':
            self.finish_leaving(k, t, err)
            if proc.status != 0 and not t['faulted']:
                k.violation(('exit', f'{t["role"]} ended with status {proc.status}: {err[-800:]}'))
        elif t['faulted'] and 'Damaged workspaces' in err and 'OSError' in str(self.uncaught(k)):
            # The disk is still failing, in the command's aftermath: broken workspaces could not be put away
            k.probe('died_of_failing_disk')
            self.killed(k, t, c)
        elif not k.violations:
            k.violation(('shell_died', f'{t["role"]} ended during {c and c.get("text")}: {self.uncaught(k)} '
                                       f'{err[-1200:]}'))
        self.contend(t, {t['ws']} | ({c['name']} if c and c.get('name') else set()))
        i = t['index'] + 1
        if i < len(k.spec['slots'][t['slot']]):
            k.after((0.0, 0.5, 2.0)[k.ch.draw(3)], lambda: self.start_slot(k, t['slot'], i))
        elif all(o['over'] for o in self.sess.values()) and not self.touring and \
                all(o['index'] + 1 >= len(k.spec['slots'][o['slot']]) or
                    (o['slot'], o['index'] + 1) in [(p['slot'], p['index']) for p in self.sess.values()]
                    for o in self.sess.values()) and len({o['slot'] for o in self.sess.values()}) == k.spec['shells']:
            self.touring = True
            k.after(1.0, lambda: self.tour(k))

    def killed(self, k, t, c):
        if t['leaving'] is not None and t['leaving'] != '':
            name = t['leaving']
            self.leave(t, union=True)
        elif t['ws']:
            self.unknown_reservoirs(t['ws'])
        t['leaving'] = None
        name = c and c.get('name')
        if c and c['kind'] == 'new' and self.absent(name):
            self.disk[name] = dedupe(self.states(name) + [dict(vars={}, home=None)])
            self.tainted.add(name)
        if c and c['kind'] == 'delete' and self.existing(name) and not c['held'] and t['ws'] != name:
            self.disk[name] = dedupe(self.states(name) + [None])
            self.tainted.add(name)
            self.unknown_reservoirs(name)

    def tour(self, k):
        """A last session looks at everything."""
        k.spec['slots'].append([0])
        self.start_slot(k, len(k.spec['slots']) - 1, 0)
        t = [o for o in self.sess.values() if not o['over']][0]
        for name in self.names:
            if self.existing(name) and name not in self.tainted:
                t['queue'].append(dict(kind='open', name=name, text=f'ws {name}'))
                for v in VARS:
                    t['queue'].append(dict(kind='tour', var=v))
                t['queue'] += [dict(kind='where', text='(PWD)'), dict(kind='identify', text='ws')]
            elif self.absent(name) and name not in self.tainted:
                t['queue'].append(dict(kind='open', name=name, text=f'ws {name}'))
        t['queue'].append(dict(kind='list', text='ws -l'))
        self.expand(t)

    def expand(self, t):
        orig = self.user_next

        def next_(k, tt):
            if tt is t and t['queue'] and t['queue'][0]['kind'] == 'tour':
                t['queue'][0] = self.show(t, t['queue'][0]['var'])
            return orig(k, tt)
        self.user_next = next_

    def check(self, k):
        for v in self.uncaught(k):
            t = self.sess.get(v[0])
            if any(x in v[1] for x in ()) or (t and t['faulted']):
                continue
            k.violation(('uncaught', f'{v[1:]}'[:1500]))
        if k.violations:
            return
        if not self.liveness(k):
            return

    def nontrivial(self, k):
        return sum(k.probes.get(p, 0) for p in ('opened', 'created')) > 1

    def measure(self, k):
        return zlib.crc32(repr([(h[5] if len(h) > 5 else None) for h in k.history if h[2] == 'typed']).encode()) if self.shells == 1 \
            else k.schedule_hash
