"""Import the real `demod` package from /repo (or $DEMOD_REPO) for concrete execution.

Only the *dataset singletons* that need raw files (absent offline) are replaced by
inert placeholders, so that modules whose signatures evaluate e.g. ``GermanDataHerus()``
as a default argument can be imported.  No code under contract lives in those modules.
"""
import os
import sys
import types
import importlib
import warnings

REPO = os.environ.get('DEMOD_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

STUBBED = {
    'demod.datasets.Germany.loader': ['GermanDataHerus'],
    'demod.datasets.GermanTOU.loader': ['GTOU'],
    'demod.datasets.CREST.loader': ['Crest'],
    'demod.datasets.OpenPowerSystems.loader': ['OpenPowerSystemClimate'],
}


class DataPlaceholder:
    """Stands for a dataset loader built in a default argument; has no behaviour."""

    def __init__(self, *a, **k):
        pass


def make_stub(name, classes):
    m = types.ModuleType(name)
    for c in classes:
        setattr(m, c, type(c, (DataPlaceholder,), {}))
    m.__demod_stub__ = True
    return m


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)
    warnings.simplefilter('ignore')
    for name, classes in STUBBED.items():
        if name not in sys.modules:
            sys.modules[name] = make_stub(name, classes)


def mod(name):
    setup()
    return importlib.import_module(name)
