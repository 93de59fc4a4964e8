"""A job that dies badly does not impair later jobs."""
from checks.jobs import *

QUICK = 800
THOROUGH = 50000
RULE = 'distinct (schedule, session) pairs with at least one job and several process switches'


class Dying(Session):
    die = True
    signals = False


class DyingSignals(Session):
    die = True


def scenario(i):
    return DyingSignals if i % 4 == 3 else Dying
