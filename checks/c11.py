"""A workspace whose owner died can be opened again, by exactly one shell."""
from checks.ws import *

QUICK = 400
THOROUGH = 40000
RULE = 'distinct interleavings in which a shell was killed and workspaces were opened at least twice'


class Recover(World):
    shells = (1, 4)
    kills = True
    gates = 'all'
    names = ('w1', 'w2')
    ops = (2, 8)
    sessions = (1, 3)
    weights = dict(set=2, show=2, identify=1, home=1, open=9, new=4, close=3, delete=1, eof=1)

    def nontrivial(self, k):
        return bool(k.faults) and World.nontrivial(self, k)


class One(Recover):
    shells = (2, 4)
    names = ('w1',)
    weights = dict(set=2, show=2, open=9, new=4, close=3, eof=1)


def scenario(i):
    return One if i % 2 else Recover
