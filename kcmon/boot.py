"""Import the code under test from /repo's working tree, in a clean process.

Everything the checks write goes below one scratch directory which is removed
at exit.  KCMON_REPO (default /repo) is where the working tree is.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get('KCMON_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_state = {}


def scratch():
    """The scratch directory of this process tree."""
    if 'scratch' not in _state:
        base = os.environ.get('KCMON_TMP') or tempfile.gettempdir()
        d = tempfile.mkdtemp(prefix='kcmon-', dir=base)
        _state['scratch'] = d
        _state['owner'] = os.getpid()

        def _rm():
            if os.getpid() == _state['owner']:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_rm)
    return _state['scratch']


def boot():
    """Import kcorrect from SRC; returns the package."""
    if 'kc' in _state:
        return _state['kc']
    s = scratch()
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ['MPLCONFIGDIR'] = os.path.join(s, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    sys.dont_write_bytecode = True
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    # no network
    try:
        from astropy.utils import iers
        iers.conf.auto_download = False
    except Exception:
        pass
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    import astropy.cosmology    # noqa: F401
    import astropy.io.ascii     # noqa: F401
    import astropy.io.fits      # noqa: F401
    import astropy.table        # noqa: F401
    import matplotlib.pyplot    # noqa: F401
    import scipy.integrate      # noqa: F401
    import scipy.interpolate    # noqa: F401
    import scipy.optimize       # noqa: F401
    # never use a stale byte code file of kcorrect itself
    sys.pycache_prefix = os.path.join(s, 'pyc')
    import kcorrect
    import kcorrect.fitter
    import kcorrect.kcorrect
    import kcorrect.response
    import kcorrect.template
    import kcorrect.utils
    sys.pycache_prefix = None
    where = os.path.realpath(kcorrect.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError('kcorrect imported from ' + where)
    _state['kc'] = kcorrect
    return kcorrect
