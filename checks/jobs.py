"""Interactive sessions with jobs: shared by C05 (effects), C06 (signals, job commands), C07 (jobs that die badly).

A reference model follows the session: every job has the set of states it may be in (fg, bg, paused)."""
import ast
import re
from checks.common import *
from sim.kernel import EPOCH

REAL = [REAL_MAIN + ' in an interactive session', 'job control, child listener thread, signal handlers',
        'jobs as processes running real commands (multiprocessing spawn and fork)', 'reservoir files']
STUBS = ['line editor: typed text arrives through the prompt seam, history is written by prompt_toolkit\'s own code',
         'process creation, waiting, signals, locks, sleeping and readiness are served by the simulated kernel',
         'the user at the terminal']
ASSUMPTIONS = ['at the prompt the terminal is raw: ctrl-C is seen by the line editor, ctrl-Z is ignored',
               'a user whose key press had no effect presses again']


class Session(Interactive):
    max_steps = 40000
    max_time = 20000.0
    die = False              # jobs may die badly
    signals = True
    assign = True
    traced = ('job.py', 'main.py', 'op/job', 'op/bg', 'op/fg')

    fresh = False            # every job assigns a variable of its own, and jobs go to the background

    def build(self, ch):
        n = ch.between(3, 7) if self.fresh else ch.between(1, 5)
        jobs = []
        for i in range(n):
            long = self.signals and ch.coin(0.2)
            j = dict(id=i, count=300 if long else ch.pick([0, 1, 3, 8]), nap=1.0 if long else ch.pick([0, 0.02, 0.1, 0.3]),
                     var=None, append=False, fail=None, long=long)
            if self.assign and not long:
                j['var'] = ch.pick([None, 'a', 'b', 'c', 'd'])
                j['append'] = j['var'] is not None and ch.coin(0.3)
            if self.fresh:
                j.update(var=f'v{i}', append=False, long=False, count=ch.pick([1, 3]), nap=ch.pick([0.1, 0.3]))
            if self.die and ch.coin(0.6):
                j['fail'] = [ch.pick(['oom', 'oom', 'raise', 'die', 'abort', 'exit']), ch.draw(60)]
                if ch.coin(0.15):
                    # a job with much to report, killed while reporting
                    j.update(fail=['tear', ch.draw(6)] if ch.coin(0.8) else ['oom', ch.draw(4)], var=None, append=False,
                             long=False, count=1, wide=True)
                if j['fail'][0] not in ('oom', 'tear'):
                    j['fail'][1] = ch.draw(max(1, j['count']))
            jobs.append(j)
        return dict(jobs=jobs, method=ch.pick(['spawn', 'spawn', 'fork']), actions=ch.between(n, n + 14 if self.fresh else n + 8))

    def boot(self, k):
        k.gated = ()
        k.trace_prefixes = tuple(REPO + '/marcel/' + f for f in self.traced)
        k.choose_policy(trace_lines=True)
        self.k = k
        self.term = self.terminal(k, 'shell', spec=k.spec, MARCEL_MULTIPROCESSING_START_METHOD=k.spec['method'])
        self.shell = self.term['proc']
        self.next_job = 0
        self.left = k.spec['actions']
        self.jobs = []           # dict(spec, proc, st=set(...), pressed, ended)
        self.cmd = None          # what is running: dict(kind=, job=, ...)
        self.vars = {}           # model: var -> list | ('int', n) | None unknown
        self.ended = False
        self.killed_ok = set()

    # ------------------------------------------------------------ processes

    def child_role(self, k, parent, argv):
        return 'job'

    def fork_role(self, k, parent):
        return 'job'

    def job_of(self, proc):
        for j in self.jobs:
            if j['proc'] is proc:
                return j
        return None

    def attach(self, k):
        """Give the processes of jobs to the jobs of the model."""
        kids = [p for p in k.procs.values() if p.kind in ('mp', 'fork')]
        for j, p in zip(self.jobs, kids):
            j['proc'] = p

    def gate(self, k, proc, task, args):
        if self.die and proc.kind in ('mp', 'fork'):
            self.attach(k)
            j = self.job_of(proc)
            f = j and j['spec'].get('fail')
            if f and f[0] == 'oom' and proc.steps == f[1] + 1:
                k.fault('job_killed')
                j['murdered'] = True
                return ('kill',)
            if f and f[0] == 'tear' and args in (('io', 'pipe write'), ('block', 'pipe write')):
                j['writes'] = j.get('writes', 0) + 1
                if j['writes'] == f[1] + 1:
                    k.fault('job_killed_while_reporting')
                    j['murdered'] = True
                    return ('kill',)
        return None

    # ------------------------------------------------------------ the user

    def alive(self):
        return [j for j in self.jobs if j['proc'] and j['proc'].alive]

    def user_next(self, k, t):
        ch = k.ch
        if self.left <= 0:
            return 0.2 + 0.1 * ch.draw(10), None
        self.left -= 1
        think = (0.1, 0.1, 0.5, 2.0)[ch.draw(4)]
        alive = self.alive()
        opts = []
        if self.next_job < len(k.spec['jobs']):
            opts += ['job'] * 4
        if self.signals and alive:
            opts += ['fg', 'fg', 'bg', 'bg', 'jobs']
        if self.signals:
            opts += ['jobs', 'bogus']
        if self.assign:
            opts += ['set', 'show', 'show', 'load', 'load']
        if self.fresh:
            # variables changed while jobs that were started before are still to end
            opts = [o for o in opts if o not in ('jobs', 'bogus', 'load')] + ['load', 'load']
            opts += ['set', 'set'] if alive else ['show', 'show', 'show'] if self.jobs else ['set', 'set', 'set']
            opts = opts + ['bg'] * 4 * len([j for j in alive if j['st'] == {'paused'}])
        kind = opts[ch.draw(len(opts))]
        c = dict(kind=kind)
        text = None
        if kind == 'job':
            s = k.spec['jobs'][self.next_job]
            self.next_job += 1
            text = f'gen {s["count"] or 1} | map (x: __import__("checks.jobs_help").jobs_help.work({s["id"]}, x))'
            if s.get('wide'):
                text = 'gen 1 | union ' + ' '.join(f'(| gen 1 >$ {"w" * 180}{i} |)' for i in range(60))
            if s['count'] == 0:
                text += ' | select (x: False)'
            if s['var']:
                text += f' {">>$" if s["append"] else ">$"} {s["var"]}'
            else:
                text += ' | select (x: False)'
            c.update(spec=s)
        elif kind in ('fg', 'bg'):
            pause = [j for j in alive if j['st'] == {'paused'}]
            i = ch.draw(len(alive))
            if pause and ch.coin(0.6):
                i = alive.index(pause[ch.draw(len(pause))])
            c.update(index=i, target=alive[i])
            text = f'{kind} {i}'
        elif kind == 'bogus':
            text = f'{("fg", "bg")[ch.draw(2)]} {len(self.jobs) + ch.draw(3)}'
        elif kind == 'jobs':
            text = 'jobs'
        elif kind == 'set':
            v = 'xyz'[ch.draw(1 if self.fresh else 3)]
            n = ch.draw(1000)
            c.update(var=v, value=n)
            text = f'{v} = ({n})'
        elif kind == 'show':
            v = 'xyz'[ch.draw(1 if self.fresh else 3)]
            c.update(var=v)
            # in the shell, or in a job
            text = f'({v})' if ch.coin(0.5) else f'gen 1 | map (i: {v})'
            c['job'] = text.startswith('gen')
        elif kind == 'load':
            v = f'v{ch.draw(len(k.spec["jobs"]))}' if self.fresh else 'abcd'[ch.draw(4)]
            c.update(var=v)
            text = f'{v} <$'
        press = []
        if self.signals:
            for _ in range(ch.pick([0, 0, 1, 1, 2])):
                press.append([ch.pick([0.0001, 0.001, 0.05, 0.3, 1.0]), ch.pick(['z', 'z', 'c'])])
            # a long job needs the user to do something
            if kind == 'job' and c['spec']['long'] and not press:
                press.append([1.0, ch.pick(['z', 'c'])])
            if kind == 'fg' and c['target']['spec'].get('long') and not press:
                press.append([1.5, ch.pick(['z', 'c'])])
        if self.fresh:
            press = [[ch.pick([0.02, 0.05, 0.2]), 'z']] if kind == 'job' and ch.coin(0.7) else []
        c['press'] = press
        self.upcoming = c
        return think, text

    def on_typed(self, k, t, reply):
        self.attach(k)
        self.settled(k)
        if reply[0] == 'eof':
            self.ended = True
            self.cmd = None
            return
        c = self.cmd = self.upcoming
        self.upcoming = None
        c['at'] = k.step
        c['out0'] = len(k.history)
        c['alive0'] = [j for j in self.alive()]
        c['done'] = False
        if c['kind'] == 'job' or c.get('job') or c['kind'] == 'load':
            j = dict(spec=c.get('spec') or dict(id='', count=0, var=None, fail=None, long=False, text=reply[1]),
                     proc=None, st={'fg'}, pressed=[], ctrlc=False, fg_since=k.step, text=reply[1])
            c['j'] = j
            self.jobs.append(j)
        if c['kind'] == 'load' and self.fresh:
            mine = [o for o in self.jobs if o['spec'].get('var') == c['var']]
            o = mine[0] if mine else None
            c['want'], c['background'] = 'undef', False
            if o is not None:
                # only a job that ended properly, before the command was typed
                ok = o['proc'] and not o['proc'].alive and o['proc'].status == 0 and not o['ctrlc'] and \
                    not o['spec'].get('fail')
                c['want'] = [o['spec']['id'] * 1000 + x for x in range(o['spec']['count'])] if ok else None
                c['background'] = 'z' in o['pressed']
        for delay, key in c['press']:
            k.after(delay, lambda c=c, key=key: self.press(k, c, key, 3))

    def fg_job(self, c):
        """The job(s) that may be in the foreground while command c runs."""
        if c is None:
            return []
        if c.get('j'):
            return [c['j']]
        if c['kind'] == 'fg':
            return self.targets(c)
        return []

    def targets(self, c):
        """Jobs an fg or bg command may have meant."""
        if self.sure(c):
            return [c['alive0'][c['index']]]
        return c['alive0'][c['index']:]

    def sure(self, c):
        """Is there no doubt about the job meant? If one has ended since, there may be no job of that number any more."""
        before = c['alive0'][:c['index'] + 1]
        return len(before) > c['index'] and all(j['proc'].alive for j in before)

    def press(self, k, c, key, again):
        """The user presses ctrl-C or ctrl-Z while command c runs."""
        if self.cmd is not c or c['done'] or self.term['prompting'] or not self.shell.alive:
            return
        self.attach(k)
        fg = [j for j in self.fg_job(c) if j['proc'] and j['proc'].alive]
        k.note('key', self.shell.vpid, 'user', 'ctrl-' + key, [j['spec']['id'] for j in fg])
        k.probe('ctrl_' + key)
        if fg:
            k.probe('ctrl_' + key + '_with_job')
        for j in self.fg_job(c):
            j['pressed'].append(key)
            if key == 'c':
                j['ctrlc'] = True
        c['pressed'] = c.get('pressed', '') + key
        if fg and any(s == 'fg' for j in fg for s in j['st']) or c['kind'] == 'fg' or \
                any(j['spec'].get('long') for j in self.fg_job(c)):
            steps = self.shell.steps
            k.after(1.5, lambda: self.followup(k, c, key, again, steps))
        k.deliver(-self.shell.pgid, signal.SIGINT if key == 'c' else signal.SIGTSTP)

    def followup(self, k, c, key, again, steps):
        if self.cmd is not c or c['done'] or self.term['prompting'] or not self.shell.alive:
            return
        if self.shell.steps < steps + 60:
            # The shell is slow
            k.after(1.5, lambda: self.followup(k, c, key, again, steps))
            return
        self.attach(k)
        fg = [j for j in self.fg_job(c) if j['proc'] and j['proc'].alive]
        if not fg:
            return
        if again == 0:
            k.violation(('ignored', f'ctrl-{key} pressed repeatedly while job {fg[0]["text"]} is in the foreground: '
                                    f'it is still there, and the prompt does not come back'))
            return
        self.press(k, c, key, again - 1)

    def at_prompt(self, k, t):
        self.attach(k)
        c = self.cmd
        if c is None:
            return
        c['done'] = True
        z = 'z' in c.get('pressed', '')
        # What the command did to the model
        if c.get('j'):
            j = c['j']
            if j['proc'] is None:
                k.violation(('not_run', f'{j["text"]} did not start a job: {self.output(k, fd=2)[-600:]}'))
            elif j['proc'].alive:
                if not z:
                    k.violation(('prompt', f'the prompt came back while {j["text"]} runs in the foreground'))
                j['st'] = {'paused'}
                k.probe('paused')
        elif c['kind'] == 'fg':
            ts, sure = self.targets(c), self.sure(c)
            for j in ts:
                if j['proc'].alive:
                    if sure:
                        if not z and j['st'] != {'dead'}:
                            k.violation(('prompt', f'the prompt came back while {j["text"]} runs in the foreground '
                                                   f'after fg'))
                        j['st'] = {'paused'}
                    else:
                        j['st'] = j['st'] | ({'paused'} if z else set())
        elif c['kind'] == 'bg':
            ts, sure = self.targets(c), self.sure(c)
            for j in ts:
                j['st'] = {'bg'} if sure else j['st'] | {'bg'}
        out = [h[6] for h in k.history[c['out0']:] if h[2] == 'out' and h[5] == 1 and h[4] == 'shell']
        if c['kind'] == 'jobs':
            self.check_jobs(k, c, ''.join(out))
        self.effects(k, c)

    def effects(self, k, c):
        """Effects on variables, as of the prompt after command c."""
        if not self.assign:
            return
        def printed(roles):
            return [h[6].strip() for h in k.history[c['out0']:] if h[2] == 'out' and h[5] == 1 and h[4] in roles]

        def err():
            return ' / '.join(h[6].strip() for h in k.history[c['out0']:] if h[2] == 'out' and h[5] == 2)
        disturbed = bool(c.get('pressed'))
        if c['kind'] == 'job':
            j, s = c['j'], c['j']['spec']
            if s['var']:
                self.settle_var(j, at_prompt=True)
        elif c['kind'] == 'set':
            self.vars[c['var']] = ('v', c['value'])
        elif c['kind'] == 'show':
            want = self.vars.get(c['var'])
            if c.get('job') and disturbed:
                return
            got = printed(('job',) if c.get('job') else ('shell',))
            got = [l for g in got for l in g.split('\n') if l]
            if want is None:
                return
            if got != [str(want[1])]:
                k.violation(('stale', f'{c["var"]} was set to {want[1]}, but is shown as {got} {err()}'))
            k.probe('shown')
        elif c['kind'] == 'load' and self.fresh:
            if disturbed or c['want'] is None:
                return
            got = [l for g in printed(('job',)) for l in g.split('\n') if l]
            if c['want'] == 'undef':
                ok = 'undefined' in err() or 'undefined' in ' '.join(got)
            else:
                ok = got == [str(x) for x in c['want']]
            if not ok:
                k.violation(('lost_effect', f'{c["var"]} was stored as {c["want"]} by a job that had ended, loading it '
                                            f'gave {got} {err()}'))
            k.probe('loaded_background' if c['background'] else 'loaded')
        elif c['kind'] == 'load':
            v = c['var']
            if disturbed or any(j['spec'].get('var') == v and j['proc'] and (j['proc'].alive or j.get('unsure') or
                                j['last_alive'] >= c['at'])
                                for j in self.jobs if j is not c['j'] and j['spec'].get('var')):
                return
            want = self.vars.get(v, 'undef')
            if want is None:
                return
            got = [l for g in printed(('job',)) for l in g.split('\n') if l]
            mine = [l for l in got if not l.startswith('~')]
            if want == 'undef':
                if not ('undefined' in err() or 'undefined' in ' '.join(got)):
                    k.violation(('stale', f'{v} was never stored, loading it gave {got} {err()}'))
                return
            if mine != [str(x) for x in want[1]]:
                k.violation(('lost_effect', f'{v} was stored as {want[1]}, loading it at the next prompt gave {mine} '
                                            f'{err()}'))
            k.probe('loaded')

    def settle_var(self, j, at_prompt=False):
        """Account for the store done by job j, once it has ended or the prompt is back."""
        s = j['spec']
        v = s['var']
        if j.get('accounted'):
            return
        others = [o for o in self.jobs if o is not j and o['spec'].get('var') == v and
                  (o['proc'] is None or o['proc'].alive or not o.get('accounted'))]
        if j['proc'] and j['proc'].alive:
            # paused or running: content unknown until it ends
            self.vars[v] = None
            return
        j['accounted'] = True
        if others or j['ctrlc'] or j.get('murdered') or (j['proc'] and j['proc'].status != 0) or s.get('fail') or \
                'z' in j['pressed']:
            self.vars[v] = None
            return
        mine = [s['id'] * 1000 + x for x in range(s['count'])]
        old = self.vars.get(v, 'undef')
        if s['append'] and old is None:
            return
        self.vars[v] = ('l', (list(old[1]) if s['append'] and old != 'undef' else []) + mine)

    def on_exit(self, k, proc):
        self.attach(k)
        j = self.job_of(proc)
        if proc is self.shell:
            if not self.ended:
                k.violation(('shell_died', f'the shell ended during the session: {self.uncaught(k, ("shell",))} '
                                           f'{self.output(k, "shell", 2)[-800:]}'))
            return
        if j is None:
            return
        j['last_alive'] = k.step
        if proc.status < 0 and not j.get('murdered') and not j['ctrlc'] and not self.ended and \
                not (j['spec'].get('fail') and j['spec']['fail'][0] == 'die'):
            k.violation(('wrong_kill', f'job {j["text"]} ({sorted(j["st"])}) was killed by signal {-proc.status}, '
                                       f'ctrl-C was never pressed while it was in the foreground'))

    def settled(self, k):
        """At the prompt, with every signal handled: the true state of every job is the one of the model."""
        if self.shell.pending:
            return
        for j in self.alive():
            if j['st'] == {'bg'} and j['proc'].stopped:
                k.violation(('bg_stopped', f'job {j["text"]} should be running in the background, it is stopped'))
            # (a job that has hardly started may not have got around to it)
            starting = signal.SIGTSTP in j['proc'].masked and j['proc'].steps < 40
            if j['st'] == {'paused'} and not j['proc'].stopped and not starting:
                k.violation(('not_paused', f'job {j["text"]} should be paused, it is running'))
            if j['st'] == {'bg'}:
                k.probe('bg_running')

    def check_jobs(self, k, c, out):
        listed = []
        for line in out.split('\n'):
            m = re.match(r'(\d+)\((.)\): (\d+)  (.*)$', line)
            if m:
                listed.append((int(m[1]), m[2], int(m[3]), m[4]))
        if c.get('pressed'):
            return
        k.probe('jobs_listed')
        by = {j['proc'].vpid: j for j in self.jobs if j['proc']}
        order = [j['proc'].vpid for j in self.jobs if j['proc']]
        pids = [l[2] for l in listed]
        if [l[0] for l in listed] != list(range(len(listed))) or pids != [p for p in order if p in pids]:
            k.violation(('job_list', f'numbering or order: {listed}'))
        for n, sym, pid, text in listed:
            j = by.get(pid)
            if j is None or text != j['text']:
                k.violation(('job_list', f'no such job: {(n, sym, pid, text)}'))
                continue
            if j not in c['alive0']:
                k.violation(('job_list', f'{text} had ended before, it is listed: {listed}'))
            if len(j['st']) == 1 and sym != {'bg': '+', 'paused': '-', 'fg': '*'}[next(iter(j['st']))]:
                k.violation(('job_list', f'{text} is {j["st"]}, shown as ({sym})'))
        for j in self.alive():
            if j in c['alive0'] and j['proc'].vpid not in pids:
                k.violation(('job_list', f'{j["text"]} exists, it is not listed: {listed}'))

    def check(self, k):
        for v in list(self.uncaught(k, ('shell',))):
            k.violation(('shell_error', f'{v[2:]}'[:1500]))
        if k.violations:
            return
        live = k.live()
        if k.outcome in ('steps', 'deadlock') and 'shell/root thread 0: blocked on pipe write' in live and \
                not any(l.startswith('job') and not l.endswith('stopped') for l in live):
            # multiprocessing keeps the reading end open in the parent while it sends a spawned process its data
            k.violation(('start_blocked', 'a job died before it had read the data it is started with, which exceeds '
                                          'the capacity of a pipe: the shell waits for ever'))
            return
        if not self.liveness(k):
            return
        for j in self.alive():
            k.violation(('orphan', f'{j["text"]} survived the shell'))

    def nontrivial(self, k):
        return len([j for j in self.jobs if j['proc']]) > 0 and k.switches > 6

    def measure(self, k):
        return k.schedule_hash
