"""Helpers around kikuchipy, imported in worker processes only."""
import warnings

import numpy as np


def kikuchipy():
    warnings.simplefilter("ignore")
    import hyperspy.api as hs
    import kikuchipy as kp

    hs.preferences.General.show_progressbar = False
    _plain_floats()
    return kp


def _plain_floats():
    """Without Numba's compilation the objective functions of refinement may return a
    NumPy float, which NLopt does not accept; compiled functions return plain floats."""
    try:
        import nlopt
    except ImportError:
        return
    if getattr(nlopt.opt, "_plain", False):
        return
    set_min = nlopt.opt.set_min_objective
    nlopt.opt.set_min_objective = lambda self, f: set_min(self, lambda x, g: float(f(x, g)))
    nlopt.opt._plain = True


def preload(*mods):
    """Import in the parent so that forked workers share it. An import error
    is left for the workers to meet."""
    import importlib

    try:
        warnings.simplefilter("ignore")
        kikuchipy()
        for m in mods or ("kikuchipy.signals", "kikuchipy.detectors"):
            importlib.import_module(m)
        # Compile the functions of orix once here: it is not safe to do so in
        # many threads or in many processes which share a cache
        from orix.quaternion import Rotation
        from orix.vector import Vector3d

        for shape in ((1,), (2, 2)):
            r = Rotation.random(shape)
            ~r, r * ~r, r * Vector3d.zvector(), (~r).angle_with(r)
    except Exception:
        pass


def lazy(kp, data, chunks=None, **kw):
    import dask.array as da

    return kp.signals.LazyEBSD(da.from_array(data, chunks=chunks or "auto"), **kw)


def values(s):
    d = s.data
    return np.asarray(d.compute() if hasattr(d, "compute") else d)


def layout(a, k):
    """The same values in another memory layout, chosen by any integer k."""
    a = np.asarray(a)
    k %= 5
    if k == 1:
        return np.asfortranarray(a)
    if k == 2 and a.ndim:
        out = np.empty(tuple(2 * n for n in a.shape), a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
    elif k == 3 and a.ndim:
        out = np.empty_like(a, order="C")[tuple(slice(None, None, -1) for _ in a.shape)]
    else:
        return a
    out[...] = a
    return out
