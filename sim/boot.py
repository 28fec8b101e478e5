"""Starts the library inside the simulator: seams first, then the library, then the catalogue."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
af = None
_booted = False


class ImportFault(object):
    """makes the import of some modules fail"""

    def __init__(self, names, exc=ImportError):
        self.names, self.exc, self.hits = set(names), exc, {}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if fullname in self.names or top in self.names:
            self.hits[fullname] = self.hits.get(fullname, 0) + 1
            raise self.exc('simulated: %s cannot be loaded' % fullname)
        return None


def boot(import_faults=(), exc=ImportError, alloc=True):
    global af, _booted
    if _booted:
        return
    _booted = True
    warnings.simplefilter('ignore')
    src = REPO + '/src'
    if src not in sys.path:
        sys.path.insert(0, src)
    fault = None
    if import_faults:
        fault = ImportFault(import_faults, exc)
        sys.meta_path.insert(0, fault)
    import numpy as np
    import scipy.stats, scipy.optimize, scipy.interpolate, scipy.signal, scipy.special, scipy.linalg, scipy.sparse   # noqa
    import scipy.sparse.linalg, scipy.integrate, scipy.ndimage, scipy.io, scipy.fft, scipy.fftpack, scipy.stats.qmc   # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import matplotlib.backends.backend_agg, matplotlib.mathtext, mpl_toolkits.mplot3d    # noqa
    fig = plt.figure()
    plt.plot([0, 1])
    fig.canvas.draw()
    plt.close(fig)
    try:
        import numba                                                # noqa
    except Exception:                                               # noqa
        pass
    from . import sched
    sched.patch_threading()
    save = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        import wafo
        assert wafo.__file__ == src + '/wafo/__init__.py', wafo.__file__
        from . import catalog
        catalog.load()
    finally:
        sys.stdout.close()
        sys.stdout = save
    if alloc:
        sys.path.insert(0, os.path.join(VERIF, '.build'))
        import allocfault
        allocfault.install()
        af = allocfault
    return fault
