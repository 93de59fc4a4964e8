#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--runs N] [--workers N] [--seed N] [-v]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != os.environ.get('VERIF_HASHSEED', '0') or not sys.flags.dont_write_bytecode:
    os.environ['PYTHONHASHSEED'] = os.environ.get('VERIF_HASHSEED', '0')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    p.add_argument('--replay')
    p.add_argument('--runs', type=int)
    p.add_argument('--cap', type=float)
    p.add_argument('--workers', type=int)
    p.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    p.add_argument('-v', action='store_true')
    a = p.parse_args()
    print(f'VERIF_SEED={a.seed}', flush=True)
    # orphans of simulated processes are ours to reap
    import ctypes
    import signal
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception:
        pass
    import sim.runner as runner
    import sim.boot
    sim.boot.boot()
    if a.replay:
        return runner.replay(a.property, a.replay, a.v)
    return runner.run_property(a.property, a.tier, a.seed, a.workers, a.runs, a.cap)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
