"""External commands in pipelines: shared by C08 (output and input arrive exactly) and C09 (ends early, fails)."""
import re
from checks.common import *

REAL = [REAL_MAIN, 'bash operator: pipes to the external program, its output thread', 'subprocess']
STUBS = ['external programs: simulated processes that read and write real pipes as the scenario says',
         'process creation, waiting, signals, locks, sleeping and readiness are served by the simulated kernel',
         'line editor and user in the interactive variants']
ASSUMPTIONS = ['pipes are the real ones of the host kernel, driven serially',
               'the external program is handed to bash -c; the simulated program stands for bash and what it runs']
H = "__import__('checks.bash_help').bash_help"
ANSI = re.compile('\x1b\\[[?0-9;]*[a-zA-Z]')
WORDS = ['', 'x', 'two words', 'ünïcödé €', 'tab\there', 'y' * 200, 'z' * 3000, ' lead', 'trail ', '[x]', '0']


def chunked(ch, data, cuts):
    at = sorted(ch.draw(len(data) + 1) for _ in range(cuts)) if data else []
    out, prev = [], 0
    for a in at + [len(data)]:
        if a > prev:
            out.append(data[prev:a])
            prev = a
    return out


class Bashes(Interactive):
    max_steps = 250000
    max_time = 50000.0
    bad = False

    # ------------------------------------------------------------ workload

    def lines(self, ch, tag, maximum=12):
        n = ch.pick([0, 1, 2, 3, 5, maximum, maximum * 6 if ch.coin(0.2) else 4])
        words = WORDS if n <= maximum else [w for w in WORDS if len(w) < 3000]
        return [f'{tag}{i}:{ch.pick(words)}' if ch.coin(0.9) else '' for i in range(n)]

    def writes(self, ch, tag):
        """Actions that write lines to stdout and stderr, cut anywhere."""
        acts = []
        for fd, t in ((1, tag + 'o'), (2, tag + 'e')):
            ls = self.lines(ch, t) if fd == 1 or ch.coin(0.5) else []
            text = ''.join(l + '\n' for l in ls)
            if text and ch.coin(0.3):
                text = text[:-1]
            data = text.encode()
            if self.bad and data and ch.coin(0.15):
                at = ch.draw(len(data))
                data = data[:at] + b'\xff\xc3' + data[at:]
            acts.append([['w', fd, c.decode('latin-1')]
                         for c in chunked(ch, data, ch.pick([0, 1, 3, 6, len(ls)]))])
        out, err = acts
        merged = []
        while out or err:
            src = out if out and (not err or ch.coin(0.5)) else err
            src = src or out or err
            merged.append(src.pop(0))
            if ch.coin(0.25):
                merged.append(['nap', ch.pick([0.01, 0.05, 0.1, 0.11, 0.3, 1.5, 7.0])])
        return merged

    def program_acts(self, ch, i, first):
        acts = []
        if ch.coin(0.3):
            acts.append(['nap', ch.pick([0.05, 0.1, 0.2, 0.5, 3.0, 12.0])])
        if ch.coin(0.4):
            acts += self.writes(ch, f'p{i}a')
        k = ch.pick(['none', 'cat', 'slurp', 'read', 'writes']) if not first else ch.pick(['writes', 'none', 'slurp'])
        if k == 'cat':
            acts.append(['cat', ch.pick([0, 0, 0.02, 0.15]), ch.pick([1, 1, 1, 2])])
        elif k == 'slurp':
            acts.append(['slurp', ch.pick([0, 0, 0.02])])
        elif k == 'read':
            if self.bad:
                acts.append(['read', ch.pick([0, 1, 2, 5])])
            else:
                acts.append(['slurp', 0.02])
        if k in ('writes', 'slurp') or ch.coin(0.5):
            acts += self.writes(ch, f'p{i}b')
        if not self.bad and not any(a[0] in ('cat', 'slurp') for a in acts) and not first:
            acts.append(['slurp', 0])
        if self.bad:
            if ch.coin(0.4):
                at = ch.draw(len(acts) + 1)
                acts.insert(at, ch.pick([['exit', 0], ['exit', 1], ['exit', 127], ['die', 9], ['die', 15], ['close', 1],
                                         ['close', 2], ['close', 0]]))
            if ch.coin(0.3):
                acts.insert(ch.draw(len(acts) + 1),
                            ['bg', [[ch.pick([0, 0.05, 0.3, 3.0]), f'p{i}g{j}:x\n'] for j in range(ch.pick([0, 1, 3]))] +
                             [[ch.pick([0.5, 30.0, 1e7, 1e7]), '']]])
            if any(a[0] == 'bg' for a in acts):
                acts = self.whole(acts)
        else:
            if ch.coin(0.2):
                acts.append(['exit', ch.pick([0, 1, 2])])
            if ch.coin(0.2):
                acts.append(['nap', ch.pick([0.1, 0.2])])
        return acts

    @staticmethod
    def whole(acts):
        """The same, but every write ends at the end of a line (there is another writer)."""
        out, carry = [], ''
        for a in acts + [['end']]:
            if a[:2] == ['w', 1]:
                text = carry + a[2]
                n = text.rfind('\n') + 1
                carry = text[n:]
                if n:
                    out.append(['w', 1, text[:n]])
            else:
                if carry and a[0] not in ('nap', 'w'):
                    out.append(['w', 1, carry + '\n'])
                    carry = ''
                out.append(a)
        return out[:-1]

    def build(self, ch):
        shape = ch.pick(['first', 'filter', 'filter', 'chain', 'gchain', 'args'])
        nprog = 2 if 'chain' in shape else 1
        n = ch.pick([0, 1, 2, 3, 8, 30] if self.bad or shape != 'args' else [1, 2, 3])
        values = []
        for i in range(n):
            v = ch.pick([i, f'v{i}', [i, f'b{i}'], [i], f'é{i} ' + 'w' * ch.pick([0, 10, 4000]), '', i / 2, True])
            values.append(v)
        s = dict(shape=shape, values=values, tail=ch.pick(['plain', 'got', 'got', 'sort', 'sort']), up={'nap': ch.pick([0, 0, 0.05])},
                 down={'nap': ch.pick([0, 0, 0, 0.05])}, repeat=ch.pick([1, 1, 2]),
                 mode=ch.pick(['script', 'script', 'script', 'shell', 'shell-fork']))
        s['programs'] = [self.program_acts(ch, i, i == 0 and shape in ('first', 'chain')) for i in range(nprog)]
        if self.bad:
            if ch.coin(0.15):
                s['down']['fail'] = [ch.pick(['raise', 'abort', 'abort']), ch.draw(4)]
                s['tail'] = 'got'
            elif ch.coin(0.15) and n:
                s['up']['fail'] = [ch.pick(['raise', 'abort', 'abort']), ch.draw(n)]
            if s['mode'] != 'script' and ch.coin(0.3):
                s['ctrlc'] = ch.draw(300)
            if ch.coin(0.08):
                s['nospawn'] = ch.draw(2)
        return s

    def pipeline(self, s):
        n = len(s['values'])
        # gen 0 never ends
        feed = f"gen {n or 1} | " + ('select (x: False) | ' if n == 0 else '') + f"(x: {H}.up(x)) | "
        shape = s['shape']
        cmd = {'first': 'bash vprog 0',
               'filter': feed + 'bash vprog 0',
               'chain': 'bash vprog 0 | bash vprog 1',
               'gchain': feed + 'bash vprog 0 | bash vprog 1',
               'args': f"gen {n or 1} | " + ('select (x: False) | ' if n == 0 else '') + 'args (|x: bash vprog 0 |)'}[shape]
        if s['tail'] == 'got':
            cmd += f" | (x: {H}.got('t', x)) | select (x: False)"
        if s['tail'] == 'sort':
            cmd += ' | sort (lambda *x: 0)'
        return cmd

    def boot(self, k):
        k.gated = ()
        k.choose_policy()
        s = k.spec
        self.spawned = 0
        self.k = k
        cmds = [self.pipeline(s)] * s['repeat'] + ['(__import__("sim.vhelper").vhelper.step("end"))']
        if s['mode'] == 'script':
            boot_script(k, cmds, s)
        else:
            todo = [(0.1, c) for c in cmds]
            self.shell = self.terminal(k, 'shell', todo, spec=s, MARCEL_MULTIPROCESSING_START_METHOD=
                                       'spawn' if s['mode'] == 'shell' else 'fork')['proc']

    def on_typed(self, k, t, reply):
        at = k.spec.get('ctrlc')
        if at is not None and t['prompts'] <= k.spec['repeat']:
            k.after(at * 0.01, lambda p=t['prompts']: self.press(k, t, p))

    def press(self, k, t, p):
        if t['prompting'] or t['prompts'] != p or not t['proc'].alive:
            return
        k.note('key', t['proc'].vpid, 'user', 'ctrl-c')
        k.fault('ctrl_c')
        self.pressed = True
        k.deliver(-t['proc'].pgid, signal.SIGINT)
        k.after(2.0, lambda: self.press(k, t, p))

    def external(self, k, parent, argv):
        m = re.search(r'vprog (\d+)', argv[-1]) if argv else None
        if not m:
            return Interactive.external(self, k, parent, argv)
        i = int(m.group(1))
        if k.spec.get('nospawn') == self.spawned:
            self.spawned += 1
            k.fault('spawn_failed')
            return None, errno.EAGAIN, None
        self.spawned += 1

        def fn():
            import checks.bash_help
            checks.bash_help.program(i)
        return fn, 'ext', f'prog{i}'

    def fork_role(self, k, parent):
        return parent.role + ('+bg' if parent.kind == 'ext' else '+')

    def on_note(self, k, proc, args):
        if args[0] == 'bg':
            proc.patient = True

    def finished(self, k):
        return not any(p.alive and not p.role.endswith('+bg') for p in k.procs.values())

    # ------------------------------------------------------------ judgement

    @staticmethod
    def text_lines(data):
        text = data.encode('latin-1').decode('utf-8', 'backslashreplace').replace('\r\n', '\n').replace('\r', '\n')
        lines = text.split('\n')
        if lines[-1] == '':
            lines.pop()
        return lines

    def wrote(self, k, vpid, fd):
        return self.text_lines(''.join(h[6] for h in k.history
                                       if h[2] == 'wrote' and h[3] == vpid and h[5] == fd))

    def finished_ok(self, k):
        if not self.liveness(k):
            return False
        if not k.notes('end'):
            k.violation(('stopped', f'the command after the pipeline did not run: {self.uncaught(k)} '
                                    f'{self.output(k, fd=2)[-1500:]}'))
            return False
        return True

    def check(self, k):
        if not self.finished_ok(k):
            return
        s = k.spec
        for h in k.history:
            if h[2] == 'failing':
                k.fault('value_' + h[5])
            if h[2] == 'exiting':
                k.probe('program_ended')
            if h[2] == 'sigpipe':
                k.probe('program_sigpipe')
        if self.unlucky(k):
            return
        # External programs in the order in which they started
        progs = [p for p in k.procs.values() if p.kind == 'ext' and '+' not in p.role]
        # A command that is given no input is not started
        fed = len(s['values']) - (1 if s['up'].get('fail') else 0)
        n0 = s['repeat'] * (len(s['values']) if s['shape'] == 'args' else 1 if s['shape'] in ('first', 'chain') or fed else 0)
        first = [p for p in progs if p.role == 'prog0']
        if len(first) != n0:
            k.violation(('runs', f'program 0 ran {len(first)} times instead of {n0}; {self.output(k)[-500:]}'))
            return
        feeds = {}
        if len(s['programs']) == 2:
            feeders = [p for p in first if self.wrote(k, p.vpid, 1) or self.wrote(k, p.vpid, 2)]
            maybe = [p for p in first if p not in feeders and self.bg(k, p)]
            second = [p for p in progs if p.role == 'prog1']
            if len(second) < len(feeders) or len(second) > len(feeders) + len(maybe):
                k.violation(('runs', f'program 1 ran {len(second)} times, program 0 wrote output {len(feeders)} times'))
                return
            if len(second) == len(feeders):
                feeds = dict(zip([p.vpid for p in second], feeders))
            elif len(second) == len(first):
                feeds = dict(zip([p.vpid for p in second], first))
            else:
                return
        # Input
        expect_in = [str(v[0] if isinstance(v, list) and len(v) == 1 else tuple(v) if isinstance(v, list) else v)
                     for j, v in enumerate(s['values']) if not (s['up'].get('fail') or [0, -1])[1] == j]
        for p in progs:
            ins = [h[5] for h in k.history if h[2] == 'in' and h[3] == p.vpid]
            acts = s['programs'][int(p.role[4:])]
            reads_all = any(a[0] in ('cat', 'slurp') for a in acts) and not self.short(acts) and \
                not any(h[2] in ('eio', 'sigpipe') and h[3] == p.vpid for h in k.history)
            if p.role == 'prog1':
                src = feeds[p.vpid]
                good, lost = self.match(k, ins, self.wrote(k, src.vpid, 1), self.wrote(k, src.vpid, 2),
                                        self.bg(k, src), reads_all)
                if not good:
                    k.violation(('input', f'{p.role} should have read what the program before it wrote; {lost}'))
            else:
                want = [] if s['shape'] in ('first', 'chain', 'args') else expect_in
                if (ins != want) if reads_all else (ins != want[:len(ins)]):
                    k.violation(('input', f'{p.role} should have read {want}, got {ins}'))
        # Output
        last = f"prog{len(s['programs']) - 1}"
        finals = [p for p in progs if p.role == last]
        outs = [l for p in finals for l in self.wrote(k, p.vpid, 1)]
        errs = [l for p in finals for l in self.wrote(k, p.vpid, 2)]
        if s['shape'] != 'args' and s['tail'] == 'got' and s['repeat'] == 1:
            pass
        bg = [b for p in finals for b in self.bg(k, p)]
        if s['tail'] == 'got':
            got = [('Error: ' if h[6] == 'err' else '') + self.plain(h[7], h[6]) for h in k.history if h[2] == 'got']
        else:
            end = min(i for i, h in enumerate(k.history) if h[2] == 'end')
            t = ANSI.sub('', ''.join(h[6] for h in k.history[:end] if h[2] == 'out' and h[5] == 1))
            got = t.split('\n')[:-1]
            if s['up'].get('fail'):
                failed = [g for g in got if g.startswith('Error: Running map') and 'deliberate' in g]
                got = [g for g in got if g not in failed]
                if len(failed) != s['repeat'] and 'gen' in self.pipeline(s) and s['shape'] != 'args':
                    k.violation(('error_lost', f'the error on an input was reported {len(failed)} times'))
        good, lost = self.match(k, got, outs, errs, bg, True)
        if not good:
            k.violation(('output', lost))

    @staticmethod
    def plain(text, kind):
        text = ANSI.sub('', text)
        return text[7:] if kind == 'err' and text.startswith('Error: ') else text

    @staticmethod
    def short(acts):
        return any(a[0] in ('exit', 'die') or a[0] == 'close' and a[1] == 0 or a[0] == 'read' for a in acts)

    def bg(self, k, p):
        """Lines of p's background process: (line, written before p ended)."""
        out = []
        end = min([h[0] for h in k.history if h[2] == 'exiting' and h[3] == p.vpid] +
                  [h[0] for h in k.history if h[2] == 'sigpipe' and h[3] == p.vpid] + [1 << 60])
        for q in k.procs.values():
            if q.ppid0 == p.vpid and q.role.endswith('+bg'):
                for h in k.history:
                    if h[2] == 'wrote' and h[3] == q.vpid:
                        out += [(l, h[0] < end) for l in self.text_lines(h[6])]
        return out

    def match(self, k, got, outs, errs, bg, complete):
        """got is an interleaving of outs, errs (as 'Error: ...') and a prefix of bg; all of outs, errs if complete."""
        g_err = [g[7:] for g in got if g.startswith('Error: ')]
        g_bg = [g for g in got if re.match(r'p\dg\d', g)]
        g_out = [g for g in got if not g.startswith('Error: ') and not re.match(r'p\dg\d', g)]
        must = [l for l, before in bg if before]
        b = [l for l, _ in bg]
        if complete:
            ok = g_out == outs and g_err == errs and g_bg == b[:len(g_bg)] and len(g_bg) >= len(must)
        else:
            ok = g_out == outs[:len(g_out)] and g_err == errs[:len(g_err)] and g_bg == b[:len(g_bg)]
        return ok, f'got {got}\nexpected {outs}\nerrors {errs}\nbackground {bg}'

    def unlucky(self, k):
        """Runs in which only liveness and the next command are judged."""
        s = k.spec
        return bool((s['down'].get('fail') or s['up'].get('fail') or [0])[0] == 'abort' or 'nospawn' in s or
                    getattr(self, 'pressed', False) or s['down'].get('fail'))

    def nontrivial(self, k):
        return bool(k.notes('start')) and k.switches > 4

    def describe(self, spec):
        return self.pipeline(spec) + f'\nprograms {spec["programs"]}\n{ {x: spec[x] for x in spec if x != "programs"} }'
