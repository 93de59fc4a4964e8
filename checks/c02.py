"""fork: failure of one worker stays with that worker."""
import ast
import json as _json
from checks.common import *
from checks.c01 import Fork, REAL, STUBS, ASSUMPTIONS

QUICK = 1600
THOROUGH = 60000
RULE = 'distinct (schedule, workload) pairs in which a fault struck a worker while another worker existed'


class ForkFail(Fork):

    def build(self, ch):
        s = Fork.build(self, ch)
        for w in s['workers']:
            w['fail'] = None
        n = len(s['workers'])
        for w in ch.sample(s['workers'], ch.between(1, max(1, n - 1))):
            kind = ch.pick(['raise', 'die', 'oom', 'oom', 'abort'])
            w['fail'] = [kind, ch.draw(max(1, w['count'])) if kind in ('raise', 'die', 'abort') else ch.draw(30)]
        s['repeat'] = 1
        return s

    def boot(self, k):
        Fork.boot(self, k)

    def gate(self, k, proc, task, args):
        # Sudden death of a worker at its nth request to the operating system
        if proc.kind in ('mp', 'fork'):
            i = proc.tags.get('worker')
            if i is None:
                kids = [p for p in k.procs.values() if p.kind in ('mp', 'fork')]
                i = proc.tags['worker'] = kids.index(proc)
            if i < len(k.spec['workers']):
                f = k.spec['workers'][i]['fail']
                if f and f[0] == 'oom' and proc.steps == f[1] + 1:
                    k.fault('worker_killed')
                    proc.tags['killed'] = True
                    return ('kill',)
        return None

    def check(self, k):
        if not self.liveness(k):
            return
        s = k.spec
        out = self.output(k)
        got = []
        errors = {t: [] for t in s['ids']}
        for l in out.split('\n'):
            if l.startswith('('):
                try:
                    got.append(ast.literal_eval(l))
                except (SyntaxError, ValueError):
                    k.violation(('garbled', l))
                    return
        for h in k.history:
            if h[2] == 'failing':
                k.fault('worker_' + h[5])
        kids = [p for p in k.procs.values() if p.kind in ('mp', 'fork')]
        for i, (t, w) in enumerate(zip(s['ids'], s['workers'])):
            mine = [x for x in got if x[0] == t]
            f = w['fail']
            expect = [(t, x, w['size']) for x in range(w['count'])]
            if f and f[0] == 'raise':
                expect = [e for e in expect if e[1] != f[1]]
                if w['count'] > f[1] and f'deliberate {t} {f[1]}' not in out:
                    k.violation(('error_lost', f'worker {t}: the error on input {f[1]} was not reported: {out}'))
                if mine != expect:
                    k.violation(('wrong', f'worker {t} with an error on {f[1]}: expected {expect}, got {mine}'))
            elif f:
                # Died: a prefix
                if mine != expect[:len(mine)]:
                    k.violation(('wrong', f'failed worker {t}: expected a prefix of {expect}, got {mine}'))
                if f[0] in ('die', 'abort') and f[1] < w['count'] and len(mine) > f[1]:
                    k.violation(('wrong', f'worker {t} died at {f[1]}, got {mine}'))
                if f[0] == 'die' and f[1] < w['count'] and len(mine) < f[1]:
                    # Everything sent before a death between outputs had already left the process
                    k.violation(('lost', f'worker {t} died after sending {expect[:f[1]]}, got {mine}'))
            elif mine != expect:
                k.violation(('isolation', f'healthy worker {t}: expected {expect}, got {mine}; '
                                          f'{self.uncaught(k)} {self.output(k, fd=2)[-800:]}'))
        if not k.notes('end'):
            k.violation(('stopped', f'the command after fork did not run: {self.uncaught(k)} '
                                    f'{self.output(k, fd=2)[-800:]}'))

    def nontrivial(self, k):
        return len(k.spec['ids']) > 1 and bool(k.faults)


def scenario(i):
    return ForkFail
