"""Saved workspace state survives a crash, a full disk and unsavable values."""
from checks.ws import *

QUICK = 700
THOROUGH = 60000
RULE = 'distinct (history, fault) pairs in which a fault struck a command that saves, creates or deletes a workspace'
WEIGHTS = dict(set=8, delete_var=2, show=2, identify=1, home=2, open=5, new=4, close=3, delete=1, eof=1)


class Crash(World):
    shells = 1
    kills = True
    gates = MUTATING
    weights = WEIGHTS
    ops = (4, 16)
    sessions = (2, 4)

    def nontrivial(self, k):
        return bool(k.faults) or k.probes.get('unsavable', 0)


class Errors(Crash):
    kills = False
    errors = True


class Unsavable(Crash):
    kills = False
    unsavable = True


def scenario(i):
    return (Crash, Errors, Crash, Errors, Crash, Unsavable)[i % 6]
