"""
Loads the library from the working tree under test (/repo, or $LOM_REPO for
scratch copies), in pure Python mode, with controlled randomness.
"""
import builtins
import importlib
import os
import sys

os.environ['NUMBA_DISABLE_JIT'] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

REPO = os.path.realpath(os.environ.get('LOM_REPO', '/repo'))
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-pycache'   # never trust stale bytecode


class Null:
    def write(self, *a):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False


class Interactive(RuntimeError):
    """the library dropped into an interactive debugger"""


class SeamMissing(RuntimeError):
    """an entry point the harness uses does not exist"""


STDOUT = sys.stdout


def _no_debugger(*a, **k):
    raise Interactive('the library called a debugger')


def load(modules=('lom', 'lom.auxiliary_functions', 'lom.experiments')):
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    import pdb
    pdb.set_trace = _no_debugger
    builtins.breakpoint = _no_debugger
    sys.breakpointhook = _no_debugger
    sys.path.insert(0, REPO)
    from mc import rng
    rng.install()
    out, sys.stdout = sys.stdout, Null()
    try:
        for m in modules:
            importlib.import_module(m)
    finally:
        sys.stdout = out
    lom = sys.modules['lom']
    if not os.path.realpath(lom.__file__).startswith(REPO + os.sep):
        raise RuntimeError('lom was imported from ' + lom.__file__)
    for name, mod in list(sys.modules.items()):
        if name == 'lom' or name.startswith('lom.'):
            rng.patch_module(mod)
    return lom


def in_library(tb):
    """does a traceback pass through the library?"""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.realpath(f).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def seam(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        raise SeamMissing('%r has no %s' % (obj, name))
