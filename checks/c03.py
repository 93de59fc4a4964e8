"""Pipelines on remote hosts (remote, @) and under sudo, with connections that fail."""
import re
from checks.common import *

QUICK = 700
THOROUGH = 30000
RULE = 'distinct (schedule, history) pairs in which at least one host delivered a value'
REAL = [REAL_MAIN, 'remote and sudo operators, fork manager and workers, subprocess', 'bin/farcel.py, which runs the pipeline on the '
        'remote host, and the marcel it runs']
STUBS = ['ssh and sudo: simulated processes that run bin/farcel.py, or fail as the scenario says', 'line editor and user',
         'process creation, waiting, signals, locks, sleeping and readiness are served by the simulated kernel']
ASSUMPTIONS = ['hosts share a home directory', 'the network is a pair of pipes that loses the connection, never bytes in the middle']
H = "__import__('checks.c03_help').c03_help"
ANSI = re.compile('\x1b\\[[?0-9;]*[a-zA-Z]')


class Remote(Interactive):
    max_steps = 300000
    max_time = 50000
    faulty = True

    def build(self, ch):
        sudo = ch.coin(0.2)
        names = ['sudo'] if sudo else [f'10.0.0.{i + 1}' for i in range(ch.pick([1, 2, 2, 3, 3, 4]))]
        hosts = {}
        for n in names:
            h = dict(delay=ch.pick([0, 0, 0.05, 0.3, 5]))
            h['values'] = [dict(kind=ch.pick(['tuple', 'tuple', 'scalar', 'error'] if ch.coin(0.3) else ['tuple', 'scalar']),
                                pad=ch.pick([0, 0, 20, 3000]), nap=ch.pick([0, 0, 0, 0.1, 2]))
                           for _ in range(ch.pick([1, 2, 3, 6, 12, 40 if ch.coin(0.3) else 4]))]
            if self.faulty and ch.coin(0.4):
                kind = ch.pick(['refuse', 'notfound', 'cut', 'cut', 'cut', 'kill', 'banner'])
                size = sum(v['pad'] + 40 for v in h['values'])
                h['fault'] = [kind, ch.draw(size + 1) if ch.coin(0.8) else ch.draw(10), ch.coin(0.5)]
                if kind == 'kill':
                    h['fault'][1] = ch.draw(400)
            if ch.coin(0.15):
                h['noise'] = [ch.pick([10, 5000, 70000, 150000]), ch.draw(len(h['values']) + 1)]
            hosts[n] = h
        prog = ch.coin(0.2)
        if prog:
            for h in hosts.values():
                if 'noise' in h:
                    h['noise'][1] = 0
                for v in h['values']:
                    v['kind'] = 'scalar'
        return dict(prog=prog, bulk=ch.pick([0, 0, 0, 0, 3000, 70000, 150000]), hosts=hosts, sudo=sudo, down=ch.pick([0, 0, 0, 0.05]), mode=ch.pick(['script', 'script', 'shell', 'nested']),
                    setup_error=not prog and ch.coin(0.1), twice=ch.coin(0.2))

    def text(self, s):
        where = 'sudo' if s['sudo'] else '@C'
        p = f"ls /nosuchfile | " if s['setup_error'] else f"gen ({H}.count()) | "
        if s['prog']:
            return f"{where} (| bash 'hostprog {'b' * s['bulk']}' |) | map (lambda *v: {H}.got(*v))"
        bulk = f", '{'b' * s['bulk']}'" if s['bulk'] else ''
        return f"{where} (| {p}map (lambda x: {H}.make(x{bulk})) |) | map (lambda *v: {H}.got(*v))"

    def boot(self, k):
        self.k = k
        k.gated = ()
        k.choose_policy()
        s = k.spec
        home = make_home(k)
        if k.line_mean:
            s = dict(s, bulk=min(s['bulk'], 10))
        cmds = [self.text(s)] * (2 if s['twice'] else 1) + [f'({H}.step("end"))']
        os.makedirs(f'{home}/.config/marcel/workspace/__DEFAULT__', exist_ok=True)
        cluster = '' if s['sudo'] else f"C = cluster(user='vuser', identity='~/.ssh/id', hosts={list(s['hosts'])})\n"
        write_file(f'{home}/setup.py', 'from marcel.builtin import *\n' + cluster)
        self.cluster = f"C = (__import__('marcel.object.cluster').object.cluster.Cluster(user='vuser', identity='~/.ssh/id', " \
                       f"hosts={list(s['hosts'])}))"
        cmds.insert(0, self.cluster)
        if s['mode'] == 'script':
            boot_script(k, cmds, s)
        else:
            self.terminal(k, 'shell', [(0.1, c) for c in cmds], spec=s,
                          MARCEL_MULTIPROCESSING_START_METHOD='spawn' if s['mode'] == 'shell' else 'fork')

    def external(self, k, parent, argv):
        line = argv[-1] if argv else ''
        m = re.match(r'ssh -i \S+ vuser@(\S+) farcel\.py$', line)
        if line.split(' ')[0] == 'hostprog':
            def prog(name=parent.role.split(' ')[1]):
                import checks.c03_help
                checks.c03_help.program(name)
            return prog, 'ext', 'prog ' + parent.role.split(' ')[1]
        name = m.group(1) if m else 'sudo' if line == 'sudo farcel.py' else None
        if name is None or name not in k.spec['hosts']:
            return Interactive.external(self, k, parent, argv)

        def fn():
            import checks.c03_help
            checks.c03_help.command(name)
        return fn, 'ext', f'host {name}'

    def on_note(self, k, proc, args):
        if args[0] == 'connect':
            f = k.spec['hosts'][args[1]].get('fault')
            if f:
                k.fault('host_' + f[0])
            if f and f[0] == 'kill':
                proc.doom = proc.steps + 1 + f[1]

    def gate(self, k, proc, task, args):
        return None

    def check(self, k):
        s = k.spec
        if not self.liveness(k):
            return
        if not k.notes('end'):
            k.violation(('stopped', f'the command after the pipeline did not run: {self.uncaught(k)} {self.output(k, fd=2)[-1500:]}'))
            return
        out = ANSI.sub('', self.output(k, fd=1)).replace('\r', '')
        err = ANSI.sub('', self.output(k, fd=2))
        got = {h: [] for h in s['hosts']}
        for l in out.split('\n'):
            m = re.match(r'v:(?:([\d.]+)\|)?([^/|]+)/(\d+)/(p*)(?:\|(\d+))?$', l)
            if m:
                label, name, x, pad, second = m.groups()
                if name not in got or (label or 'sudo') != name:
                    k.violation(('label', f'wrong label: {l[:200]}'))
                    return
                got[name].append(('v', int(x), len(pad), second is not None))
                continue
            m = re.match(r'(?:v:)?Error(?:\((.*?)\))?: (.*)$', l)
            if m:
                label, text = m.groups()
                d = re.search(r'deliberate (\d+) at (\S+)$', text)
                name = label or ('sudo' if s['sudo'] else None)
                if name is None and len(got) == 1:
                    name = list(got)[0]
                if name not in got or d and d.group(2) != name:
                    k.violation(('label', f'wrong label: {l[:200]}'))
                    return
                got[name].append(('e', int(d.group(1))) if d else ('x', text))
        times = 2 if s['twice'] else 1
        for name, h in s['hosts'].items():
            want = [('e', i) if v['kind'] == 'error' else ('v', i, v['pad'], v['kind'] == 'tuple')
                    for i, v in enumerate(h['values'])]
            if s['setup_error']:
                want = [('x', None)]
            f = h.get('fault')
            failed = [n for n in k.notes('failed') if n[2] == name]
            killed = [x for x in k.history if x[2] == 'doomed' and x[4] == f'host {name}']
            show = f'{name}: expected {want}, got {got[name]}, fault {f}; {err[-600:]}'[:3000]
            if not failed and not killed:
                if s['setup_error']:
                    if len(got[name]) != times or any(g[0] != 'x' for g in got[name]):
                        k.violation(('setup', show))
                elif got[name] != want * times:
                    k.violation(('wrong', show))
                continue
            # A prefix, and an error
            k.probe('failed_host')
            reported = sum(1 for g in got[name] if g[0] == 'x')
            values = [g for g in got[name] if g[0] != 'x']
            if times == 1 and not s['setup_error'] and values != want[:len(values)]:
                k.violation(('wrong', show))
            elif not reported and name not in err:
                k.violation(('silent', show))

    def nontrivial(self, k):
        return 'v:' in self.output(k, fd=1)

    def measure(self, k):
        return k.schedule_hash, len(k.history)

    def describe(self, s):
        return re.sub('bbbbbbbb+', 'bb...', self.text(s)) + '\n' + '\n'.join(f'{n}: {len(h["values"])} values, {h.get("fault")}' for n, h in s['hosts'].items()) + \
            f'\n{s["mode"]} {s["twice"]}'


class Well(Remote):
    faulty = False


def scenario(i):
    return (Remote, Remote, Well)[i % 3]
