"""Functions that simulated workloads call from marcel commands."""
import json
import os
import time

from sim import rt


def spec():
    return json.loads(os.environ['VSPEC'])


def nap(seconds):
    """Simulated work."""
    if seconds:
        time.sleep(seconds)


def step(name, *args):
    rt.note(name, *args)


class Boom(Exception):
    pass
