"""Import the code under test from the repository, with the seams installed."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True


def boot():
    from sim import rt
    sys.path.insert(0, REPO)
    # First: multiprocessing.connection captures os.read and os.write when it is imported
    assert 'multiprocessing.connection' not in sys.modules
    rt.install()
    import sqlite3, tempfile, shutil, runpy, multiprocessing.spawn, multiprocessing.popen_fork  # noqa
    import multiprocessing.popen_spawn_posix, multiprocessing.connection, subprocess, selectors, queue  # noqa
    import psutil
    import prompt_toolkit, prompt_toolkit.history, prompt_toolkit.shortcuts  # noqa
    import encodings.idna, encodings.utf_8, encodings.latin_1, encodings.ascii  # noqa
    rt.IMPORTING = True
    try:
        import marcel.main
        import marcel.opmodule
        import pkgutil
        import importlib
        import marcel.op
        for m in sorted(x.name for x in pkgutil.iter_modules(marcel.op.__path__)):
            try:
                importlib.import_module('marcel.op.' + m)
            except ImportError:
                pass
        for m in ('marcel.builtin', 'marcel.locations', 'marcel.persistence.persistence',
                  'marcel.persistence.storagelayout', 'marcel.picklefile', 'marcel.reservoir',
                  'marcel.directorystate', 'marcel.nestednamespace'):
            try:
                importlib.import_module(m)
            except ImportError:
                pass
    finally:
        rt.IMPORTING = False
    # marcel must come from the repository under test
    import marcel
    assert os.path.dirname(os.path.abspath(marcel.main.__file__)) == os.path.join(REPO, 'marcel'), marcel.main.__file__
