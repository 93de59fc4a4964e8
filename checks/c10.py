"""A workspace is open in at most one shell at a time."""
from checks.ws import *

QUICK = 400
THOROUGH = 40000
RULE = 'distinct interleavings of at least two shells that opened or created workspaces at least twice'


class Several(World):
    shells = (2, 4)
    gates = 'all'
    names = ('w1', 'w2')
    ops = (3, 10)
    sessions = (1, 2)
    weights = dict(set=2, show=2, identify=1, home=1, open=8, new=5, close=4, delete=3, eof=1)


class One(Several):
    names = ('w1',)
    weights = dict(set=2, show=2, open=8, new=5, close=4, delete=4, eof=1)


def scenario(i):
    return One if i % 2 else Several
