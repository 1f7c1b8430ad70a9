"""Small refinement problems for C16 and C17."""
import contextlib
import io

import numpy as np

SC = 10_000_000
PC0 = np.array([0.45, 0.3, 0.6])

METHODS = {
    "nm": dict(method="minimize", method_kwargs=dict(method="Nelder-Mead",
                                                      options=dict(maxfev=11))),
    "default": dict(method="minimize", method_kwargs=dict(options=dict(maxfev=9))),
    "powell": dict(method="minimize", method_kwargs=dict(
        method="Powell", options=dict(maxfev=12, maxiter=1))),
    "lbfgsb": dict(method="minimize", method_kwargs=dict(
        method="L-BFGS-B", options=dict(maxfun=8, maxiter=2))),
    "basin": dict(method="basinhopping", method_kwargs=dict(
        niter=1, seed=3, minimizer_kwargs=dict(method="Nelder-Mead", options=dict(maxfev=6)))),
    "evolution": dict(method="differential_evolution", method_kwargs=dict(
        maxiter=1, popsize=2, seed=3, polish=False)),
    "annealing": dict(method="dual_annealing", method_kwargs=dict(
        maxiter=1, seed=3, no_local_search=True)),
    "nlopt": dict(method="LN_NELDERMEAD", maxeval=11),
    "nlopt_tol": dict(method="ln_neldermead", maxeval=14, rtol=1e-2),
    "nlopt_first": dict(method="LN_NELDERMEAD", maxeval=4),
}
NEEDS_REGION = {"evolution", "annealing"}
FROM_START = {"nm", "default", "powell", "basin", "nlopt", "nlopt_tol", "nlopt_first"}
NO_BOUNDS = {"basin"}


def master_pattern(kp, seed, dtype="float32", energies=(10, 20), sides=("upper", "lower")):
    from orix.crystal_map import Phase

    rng = np.random.default_rng(seed)
    n = 9
    d = rng.random((2, len(energies), n, n))
    if dtype == "uint8":
        d[1] = 0.3 + 0.4 * d[1]  # Hemispheres of different ranges
        d = (d * 255).astype("uint8")
    else:
        d = (d * 2 - 0.7).astype(dtype)
    # The hemispheres meet at the equator
    d[1, :, [0, -1]], d[1, :, :, [0, -1]] = d[0, :, [0, -1]], d[0, :, :, [0, -1]]
    step = energies[1] - energies[0]
    return kp.signals.EBSDMasterPattern(
        d, axes=[dict(name="hemisphere", size=2),
                 dict(name="energy", size=len(energies), offset=energies[0], scale=step),
                 dict(name="height", size=n), dict(name="width", size=n)],
        projection="lambert", hemisphere="both", phase=Phase("aa", space_group=225))


def detector(kp, sig, pc, **kw):
    return kp.detectors.EBSDDetector(shape=sig, pc=pc, sample_tilt=kw.get("sample_tilt", 70),
                                     tilt=kw.get("tilt", 3), azimuthal=kw.get("azimuthal", 4))


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def call(s, mode, xmap, det, mp, **kw):
    f = {"ori": s.refine_orientation, "pc": s.refine_projection_center,
         "ori_pc": s.refine_orientation_projection_center}[mode]
    return quiet(f, xmap=xmap, detector=det, master_pattern=mp, **kw)


def one_point_map(rot, phase):
    from orix.crystal_map import CrystalMap, PhaseList

    n = rot.size
    # The shape of a map of one point is empty
    return CrystalMap(rotations=rot, phase_id=np.zeros(n, int), phase_list=PhaseList(phase),
                      x=np.arange(n).astype(float))


def alone(kp, mode, pattern, rot, pc, sig, mp, many, det_kw, **kw):
    """The raw row of one pattern refined by itself from one rotation."""
    from orix.quaternion import Rotation

    n = 2 if many else 1
    s = kp.signals.EBSD(np.stack([pattern] * n) if many else pattern)
    xmap = one_point_map(Rotation(np.stack([rot] * n)), mp.phase)
    det = detector(kp, sig, np.stack([pc] * n) if many else pc, **det_kw)
    return np.asarray(call(s, mode, xmap, det, mp, compute=False, **kw).compute())[0]


def similarity(kp, pattern, rot, pc, sig, mp, energy, keep, det_kw):
    """NCC of a pattern to the one simulated with a rotation and projection center."""
    from orix.quaternion import Rotation

    det = detector(kp, sig, pc, **det_kw)
    sim = quiet(mp.get_patterns, Rotation(np.atleast_2d(rot)), det, energy=energy,
                dtype_out="float32", compute=True, show_progressbar=False).data.ravel()[keep]
    a = pattern.ravel().astype(float)[keep]
    a, b = a - a.mean(), sim.astype(float) - sim.astype(float).mean()
    return float((a * b).sum() / np.sqrt((a ** 2).sum() * (b ** 2).sum()))
