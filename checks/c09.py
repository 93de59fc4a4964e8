"""bash: early ends, failures, background holders of the pipes."""
from checks.bashes import *

QUICK = 1600
THOROUGH = 60000
RULE = 'distinct (schedule, workload) pairs in which an external program ran and the scheduler switched processes'


class Early(Bashes):
    bad = True


def scenario(i):
    return Early
