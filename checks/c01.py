"""fork: nothing lost, nothing invented, worker order kept, completes."""
import ast
from checks.common import *
from checks.c01_help import extra

QUICK = 1600
THOROUGH = 60000
RULE = 'distinct (schedule, workload) pairs in which at least two workers ran and the scheduler switched processes'
REAL = [REAL_MAIN, 'fork, forkmanager', 'multiprocessing process start (spawn and fork), pipes and pickling']
STUBS = ['process creation, waiting, signals, locks, sleeping and readiness are served by the simulated kernel']
ASSUMPTIONS = ['pipes are the real ones of the host kernel, driven serially']


class Fork(Interactive):
    max_steps = 60000

    def build(self, ch):
        n = ch.between(1, 5)
        kind = ch.pick(['int', 'strings'])
        ids = list(range(n)) if kind == 'int' else ['w%d' % i for i in range(n)]
        workers = []
        for i in range(n):
            count = ch.pick([0, 1, 2, 3, 7, 20])
            workers.append(dict(count=count,
                                size=ch.pick([1, 1, 100, 9000]),
                                start=ch.pick([0, 0, 0.1, 0.05, 0.3, 1.5]),
                                nap=ch.pick([0, 0, 0.1, 0.2, 0.04, 0.15, 0.5])))
        s = dict(ids=ids, kind=kind, workers=workers, method=ch.pick(['spawn', 'spawn', 'fork']),
                 repeat=ch.pick([1, 1, 2]), faults=True)
        s['mode'] = 'script'
        return s

    def boot(self, k):
        k.gated = ()
        k.choose_policy()
        s = k.spec
        gen = str(len(s['ids'])) if s['kind'] == 'int' else '(' + repr(s['ids']) + ')'
        h = "__import__('checks.c01_help').c01_help"
        fork = f"fork {gen} (| t: gen 20 | select (x: {h}.want(t, x)) | (x: {h}.work(t, x)) |)"
        cmd = f'{fork} | (*a: a)'
        if s['mode'].startswith('nested'):
            cmd = f"gen {s['repeat']} | args (| n: {fork} |) | (*a: a)"
        end = '(__import__("sim.vhelper").vhelper.step("end"))'
        lines = [cmd, end] * (1 if s['mode'].startswith('nested') else s['repeat'])
        env = dict(MARCEL_MULTIPROCESSING_START_METHOD=s['method'])
        if s['mode'].endswith('shell'):
            self.terminal(k, 'shell', [(0.05, l) for l in lines], spec=s, **env)
        else:
            boot_script(k, lines, s, **env)

    def value(self, s, t, x, w):
        return (t, x, w['size']) + ((extra(x),) if s.get('extra') else ())

    def judge_ends(self, k):
        """The next command runs after the last worker of fork has ended."""
        running = {}
        for h in k.history:
            if h[2] in ('begun', 'bye'):
                running[h[3]] = h
            elif h[2] == 'exit':
                running.pop(h[3], None)
            elif h[2] == 'end' and running:
                k.violation(('not_ended', f'the next command runs before these workers have ended: {list(running.values())}'))
                return

    def check(self, k):
        if not self.liveness(k):
            return
        s = k.spec
        out = re.sub(r'\x1b\[\?[0-9]+[hl]', '', self.output(k))
        lines = [l for l in out.split('\n') if l.startswith('(')]
        got = []
        for l in lines:
            try:
                got.append(ast.literal_eval(l))
            except (SyntaxError, ValueError):
                k.violation(('garbled', l))
                return
        for t, w in zip(s['ids'], s['workers']):
            mine = [x for x in got if x[0] == t]
            expect = [self.value(s, t, x, w) for x in range(w['count'])] * s['repeat']
            if mine != expect:
                k.violation(('lost' if len(mine) < len(expect) else 'wrong',
                             f'worker {t}: expected {expect}, got {mine}; stderr {self.output(k, fd=2)[-500:]}'))
        self.judge_ends(k)
        if len(got) != sum(w['count'] for w in s['workers']) * s['repeat'] and not k.violations:
            k.violation(('extra', f'{got}'))
        if not k.notes('end'):
            k.violation(('stopped', f'the command after fork did not run: {self.uncaught(k)}'))

    def nontrivial(self, k):
        return len(k.spec['ids']) > 1 and k.switches > 4


class Wide(Fork):
    """More ways to run fork, more values, workers that take their time to end."""

    def build(self, ch):
        s = Fork.build(self, ch)
        s['mode'] = ch.pick(['shell', 'shell', 'script', 'nested', 'nested shell'])
        s['extra'] = True
        for w in s['workers']:
            w['linger'] = ch.pick([0, 0, 0.05, 0.15, 0.4, 2])
        return s


def scenario(i):
    return (Fork, Wide)[i % 2]
