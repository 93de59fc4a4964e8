"""Pieces shared by the scenarios."""
import errno
import json
import os
import re
import signal
import sys

from sim import rt
from sim.boot import REPO
from sim.kernel import Scenario, EPOCH

REAL_MAIN = 'marcel.main, parser, environment, operators, pipelines and everything they import'


def write_file(path, text):
    with rt.real.io_open(path, 'w') as f:
        f.write(text)
    os.utime(path, (EPOCH, EPOCH))


def env_for(k, spec=None, **more):
    home = k.scratch + '/home'
    e = dict(HOME=home, USER='vuser', PATH='/usr/bin:/bin', LANG='C.UTF-8', TERM='dumb',
             MARCEL_MULTIPROCESSING_START_METHOD='spawn')
    if spec is not None:
        e['VSPEC'] = json.dumps(spec)
    e.update(more)
    return e


def make_home(k):
    home = k.scratch + '/home'
    os.makedirs(home, exist_ok=True)
    return home


def run_main():
    import marcel.main
    import marcel.exception
    # As at the bottom of marcel/main.py
    import sys
    try:
        marcel.main.main()
    except (marcel.exception.KillShellException, marcel.exception.KillCommandException) as e:
        print(str(e), file=sys.stderr)
    except marcel.exception.ExitException:
        sys.exit(0)


def boot_script(k, commands, spec=None, role='shell', **env):
    """A marcel process running a script."""
    home = make_home(k)
    path = f'{k.scratch}/{role}.marcel'
    write_file(path, '\n'.join(commands) + '\n')
    return k.spawn(role, run_main, env=env_for(k, spec, **env), cwd=home, argv=['marcel', path])


def mp_child(argv):
    """Is argv the command line of a multiprocessing (spawn) child? Returns what it runs."""
    if len(argv) > 2 and '--multiprocessing-fork' in argv and '-c' in argv:
        code = argv[argv.index('-c') + 1]

        def fn():
            sys.argv = ['-c'] + argv[argv.index('-c') + 2:]
            exec(code, {'__name__': '__main__'})
        return fn
    return None


class Base(Scenario):

    def program(self, k, parent, argv):
        fn = mp_child(argv)
        if fn:
            k.probe('mp_spawn')
            return fn, 'mp', self.child_role(k, parent, argv)
        return self.external(k, parent, argv)

    def child_role(self, k, parent, argv):
        return parent.role + '+'

    def external(self, k, parent, argv):
        if argv and 'stty size' in ' '.join(argv):
            return (lambda: None), 'stty', 'stty'
        return None, errno.ENOENT, None

    def output(self, k, role=None, fd=1):
        """What role's processes wrote to the terminal, in order."""
        return ''.join(h[6] for h in k.history if h[2] == 'out' and (role is None or h[4] == role) and h[5] == fd)

    def liveness(self, k):
        """Common liveness judgement; True if the run completed."""
        if k.outcome in ('deadlock', 'steps', 'time', 'hang'):
            k.violation((k.outcome, 'the run never completed: ' + '; '.join(k.live())))
            return False
        return True

    def uncaught(self, k, roles=None):
        return [n for n in k.notes('uncaught') + k.notes('uncaught_exit') + k.notes('thread_exception')
                if roles is None or n[1] in roles]


class Interactive(Base):
    """Base for scenarios with shells at (simulated) terminals.

    A terminal is {'shell': proc, 'todo': [...]}; user_next(k, term) returns the next thing typed there:
    (think, text) with text None for ctrl-D, or ('int',) as text for ctrl-C at the prompt."""

    def terminal(self, k, role, todo=None, spec=None, home=None, **env):
        make_home(k)
        p = k.spawn(role, run_main, env=env_for(k, spec, **env), cwd=home or k.scratch + '/home', argv=['marcel'],
                    isatty=True)
        t = dict(role=role, proc=p, prompting=False, reply=None, prompts=0, todo=list(todo or ()), typed=[])
        if not hasattr(self, 'terms'):
            self.terms = {}
        self.terms[p.vpid] = t
        return t

    def ask(self, k, proc, task, args):
        t = self.terms.get(proc.vpid)
        if t is None or args[0] not in ('prompt', 'stdin'):
            return ('none',)
        if not t['prompting']:
            t['prompting'] = True
            t['prompts'] += 1
            t['reply'] = None
            k.note('prompt', proc.vpid, t['role'], t['prompts'])
            self.at_prompt(k, t)
            think, text = self.user_next(k, t)

            def typed():
                if t['reply'] is None:
                    t['reply'] = ('eof',) if text is None else text if isinstance(text, tuple) else ('text', text)
                    k.dirty(('ask',))
            k.after(think, typed)
            return None
        if t['reply'] is None:
            return None
        t['prompting'] = False
        t['typed'].append(t['reply'])
        k.note('typed', proc.vpid, t['role'], t['reply'])
        self.on_typed(k, t, t['reply'])
        return ('v', t['reply'])

    def user_next(self, k, t):
        if t['todo']:
            return t['todo'].pop(0)
        return 0.1, None

    def at_prompt(self, k, t):
        pass

    def on_typed(self, k, t, reply):
        pass
