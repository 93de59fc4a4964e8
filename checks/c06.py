"""Job control: signals and job commands reach exactly the jobs they are for."""
from checks.jobs import *

QUICK = 900
THOROUGH = 60000
RULE = 'distinct (schedule, session) pairs with at least one job and several process switches'


class Signals(Session):
    assign = False


def scenario(i):
    return Signals
