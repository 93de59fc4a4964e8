"""Runs inside simulated processes."""
import os
from sim.vhelper import step


def where(i, pwd, dirs):
    try:
        cwd = os.getcwd()
    except OSError as e:
        cwd = None
    step('where', i, cwd, pwd if type(pwd) is str else repr(pwd),
         [d if type(d) is str else repr(d) for d in dirs] if type(dirs) is list else repr(dirs))
