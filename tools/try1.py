#!/opt/venv/bin/python
"""try1.py MODULE_FILE [seed] [-v]: run one simulated execution of a scenario, print the terminal and the notes."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0' or not sys.flags.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.path.insert(0, '/verif')
import ctypes, signal, importlib.util
signal.signal(signal.SIGCHLD, signal.SIG_IGN)
ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
import sim.runner as runner, sim.boot
from sim.choices import Choices
sim.boot.boot()
f = sys.argv[1]
sp = importlib.util.spec_from_file_location('trymod', f)
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
sys.modules['trymod'] = m
seed = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] != '-v' else '0'
ch = Choices(values=[]) if seed == '0' else Choices(seed=seed)
if seed.startswith('x'):
    from sim.choices import Choices
    ch = Choices(seed=f'1/{os.path.basename(f)[:-3].upper()}/{seed[1:]}')
k, spec = runner.one(m.scenario(0), ch, os.path.join('/dev/shm', 'vs%08d' % os.getpid()), '-v' in sys.argv)
for h in k.history:
    if h[2] == 'out':
        sys.stdout.write(f'{h[1]:9.3f} {h[4]:8} {"E" if h[5] == 2 else " "}| {h[6][:1500]}' + ('' if h[6].endswith('\n') else '\n'))
    else:
        print(f'{h[1]:9.3f} ' + ' '.join(str(x) for x in h[2:])[:2500])
print('outcome', k.outcome, 'steps', k.step, 'faults', k.faults)
print('spec', spec)
for v in k.violations:
    print('VIOLATION', v)
if k.outcome == 'deadlock':
    print(k.live())
sys.stdout.flush()
os._exit(0)
