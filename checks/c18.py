"""timer: ticks at the requested times, whatever happens downstream."""
from checks.common import *

QUICK = 900
THOROUGH = 40000
RULE = 'distinct (schedule, workload) pairs in which downstream processing overlapped at least one due tick'
REAL = [REAL_MAIN, 'timer and its metronome thread']
STUBS = ['clock, sleeping, condition variables and thread scheduling are served by the simulated kernel']
ASSUMPTIONS = ['a simulated step costs 10 microseconds of simulated time; lateness up to the cost of the steps taken is accepted']
H = "__import__('checks.c18_help').c18_help"


class Ticks(Interactive):
    """Processing times exact: every tick is predicted."""
    max_steps = 60000
    stalls = False

    def build(self, ch):
        cmds = []
        for _ in range(ch.between(1, 3)):
            interval = ch.pick([0.05, 0.3, 1, 1.5, 7])
            naps = [interval * ch.pick([0, 0, 0, 0.3, 0.5, 0.9, 1.2, 1.7, 2.5, 4.3, 9.6]) for _ in range(ch.between(1, 9))]
            naps = [round(x, 4) for x in naps]
            if ch.coin(0.2):
                naps[ch.draw(len(naps))] = -1
            cmds.append(dict(interval=interval, naps=naps, stop=ch.pick(['abort', 'abort', 'int'])))
        mode = ch.pick(['script', 'script', 'shell', 'shell-fork'])
        if mode == 'script':
            for c in cmds:
                c['stop'] = 'abort'
        return dict(cmds=cmds, mode=mode)

    def text(self, s, i):
        c = s['cmds'][i]
        return f"timer {c['interval']} | (t: {H}.tick({i}, t)) | select (n: n is None)"

    def boot(self, k):
        k.gated = ()
        k.choose_policy(trace_lines=True)
        k.trace_prefixes = ('op/timer.py',)
        if not self.stalls:
            k.p_stall = k.p_timer = 0.0
        s = k.spec
        self.ended = set()
        lines = []
        for i in range(len(s['cmds'])):
            lines += [f'(__import__("sim.vhelper").vhelper.step("cmd", {i}))', self.text(s, i)]
        lines.append(f'(__import__("sim.vhelper").vhelper.step("cmd", {len(s["cmds"])}))')
        if s['mode'] == 'script':
            boot_script(k, lines, s)
        else:
            self.shell = self.terminal(k, 'shell', [(0.05, l) for l in lines], spec=s, MARCEL_MULTIPROCESSING_START_METHOD=
                                       'spawn' if s['mode'] == 'shell' else 'fork')['proc']

    def on_note(self, k, proc, args):
        s = k.spec
        if args[0] == 'tick':
            c = s['cmds'][args[1]]
            if c['stop'] == 'int' and args[2] >= len(c['naps']) and (
                    args[1] not in self.ended or k.now > self.pressed + 2 * c['interval'] + 2):
                # ctrl-C, at some time during the processing of the last tick or afterwards. (The shell ignores it while
                # it is starting a process. The user tries again.)
                self.ended.add(args[1])
                self.pressed = k.now
                k.fault('ctrl_c')
                k.after(c['interval'] * k.ch.pick([0.01, 0.4, 1.5]), lambda: k.deliver(self.shell.vpid, signal.SIGINT))

    def check(self, k):
        s = k.spec
        if not self.liveness(k):
            return
        if not any(h[5] == len(s['cmds']) for h in k.history if h[2] == 'cmd'):
            k.violation(('stopped', f'a command ended the session: {self.uncaught(k)} {self.output(k, fd=2)[-1500:]}'))
            return
        for i, c in enumerate(s['cmds']):
            ticks = [(h[6], h[7], h[8]) for h in k.history if h[2] == 'tick' and h[5] == i]
            done = {h[6]: h[7] for h in k.history if h[2] == 'tock' and h[5] == i}
            self.judge(k, i, c, ticks, done)
            if k.violations:
                return

    def judge(self, k, i, c, ticks, done):
        I = c['interval']
        eps = 0.006 + 0.004 * I
        ended = i in self.ended
        if not ticks or not ended and len(ticks) != len(c['naps']) + 1:
            k.violation(('lost', f'{self.text(k.spec, i)}: {len(ticks)} ticks, {len(c["naps"]) + 1} expected'))
            return
        wrong = [t for _, t, _ in ticks if type(t) is not float]
        if wrong:
            k.violation(('value', f'{self.text(k.spec, i)}: emitted {wrong[0]!r}'))
            return
        t0 = ticks[0][1]
        last = None
        for n, t, now in ticks:
            show = f'{self.text(k.spec, i)}: tick {n} has time {t - t0:.4f}, received {now - t0:.4f} after the first; {c["naps"]}'
            if last is not None and t <= last[1]:
                k.violation(('order', f'{show}: not after {last[1] - t0:.4f}'))
                return
            if t > now:
                k.violation(('future', show))
                return
            if self.stalls:
                if last is not None and t - last[1] < 0.5 * I - eps and k.p_stall == 0 and k.p_timer == 0:
                    k.violation(('bunched', show))
                last = n, t, now
                continue
            # Times are multiples of the interval, apart from the cost of executing (which accumulates)
            due = round((t - t0) / I)
            slack = eps * (1 + due / 8)
            if not -slack <= t - t0 - due * I <= slack:
                k.violation(('time', f'{show}: not a multiple of {I}'))
                return
            if last is not None:
                free = done.get(last[0], last[2]) - t0
                behind = int((free - slack) // I)
                least, most = max(last[3] + 1, behind), max(last[3] + 1, int((free + slack) // I))
                if not least <= due <= most:
                    k.violation(('skipped' if due > most else 'stale',
                                 f'{show}: tick {due} of the clock, expected {least}..{most}, processing ended {free:.4f}'))
                    return
                if now - t0 > max(free, t - t0) + slack:
                    k.violation(('late', f'{show}: processing of the previous one ended {free:.4f}'))
                    return
            last = n, t, now, due

    def nontrivial(self, k):
        return any(n > c['interval'] for c in k.spec['cmds'] for n in c['naps'])

    def describe(self, s):
        return '\n'.join(self.text(s, i) + f"   # {c['naps']} {c['stop']}" for i, c in enumerate(s['cmds'])) + f'\n{s["mode"]}'


class Stalled(Ticks):
    """Processes stall: order and honesty of the ticks only."""
    stalls = True


def scenario(i):
    return (Ticks, Ticks, Stalled)[i % 3]
