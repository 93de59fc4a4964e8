"""bash: every line out, every value in."""
from checks.bashes import *

QUICK = 1600
THOROUGH = 60000
RULE = 'distinct (schedule, workload) pairs in which an external program ran and the scheduler switched processes'


class Exact(Bashes):
    pass


def scenario(i):
    return Exact
