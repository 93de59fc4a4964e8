"""Workspaces keep their variables apart, and across restarts."""
from checks.ws import *

QUICK = 500
THOROUGH = 40000
RULE = 'distinct histories of commands with at least two openings of named workspaces'


class Single(World):
    shells = 1


class Long(World):
    shells = 1
    ops = (20, 60)
    sessions = (1, 4)


class Two(World):
    shells = 2
    weights = dict(World.weights, open=6, close=4)


def scenario(i):
    return (Single, Two, Single, Two, Long)[i % 5]
