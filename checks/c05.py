"""A command sees the effects of the foreground command before it."""
from checks.jobs import *

QUICK = 800
THOROUGH = 50000
RULE = 'distinct (schedule, session) pairs with at least one job and several process switches'


class Effects(Session):
    signals = False


class EffectsSignals(Session):
    traced = Session.traced + ('env.py', 'nestednamespace.py', 'object/workspace.py', 'core.py', 'directorystate.py')


class EffectsBackground(EffectsSignals):
    fresh = True


def scenario(i):
    return (Effects, EffectsSignals, EffectsBackground)[i % 3]
