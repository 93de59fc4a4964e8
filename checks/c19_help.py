"""Runs inside simulated processes."""
from sim.vhelper import step, spec, nap


def got(i, x):
    """An entry (or something else) is listed by command i."""
    step('got', i, type(x).__name__, str(getattr(x, 'path', x)))
    nap(spec()['cmds'][i]['nap'])
