"""C20: simulated patterns."""
import contextlib
import io

import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload

# Cosine, sine and length of the angles used
RIGHT = [[1, 0, 1], [0, 1, 1], [0, -1, 1], [-1, 0, 1]]
RATIONAL = [[4, 3, 5], [3, 4, 5], [4, -3, 5], [3, -4, 5], [-3, 4, 5]]
INFO = {"uint8": 255, "uint16": 65535, "uint32": 2**32 - 1, "int8": 127, "int16": 32767}


def degrees(a):
    return float(np.rad2deg(np.arctan2(a[1], a[0])))


def from_lambert(x, y):
    """Unit vectors of the upper hemisphere from equal-area coordinates in [-1, 1]."""
    z = 1 - np.maximum(np.abs(x), np.abs(y)) ** 2
    r = np.sqrt(np.maximum(1 - z**2, 0))
    wide = np.abs(x) >= np.abs(y)
    with np.errstate(all="ignore"):
        t = np.where(wide, y / x, x / y)
    t = np.nan_to_num(t) * np.pi / 4
    s = np.where(wide, np.sign(x), np.sign(y)) * r
    return np.stack([np.where(wide, s * np.cos(t), s * np.sin(t)),
                     np.where(wide, s * np.sin(t), s * np.cos(t)), z], -1)


def master(kp, data, c, projection="lambert"):
    """Signal with the hemispheres and energies of a case, from data (2, n energies, y, x)."""
    from orix.crystal_map import Phase

    both = c["hemisphere"] == "both"
    sides = [0, 1] if both else [1 if c["hemisphere"] == "lower" else 0]
    energies = c["energies"]
    d = np.stack([data[k] for k in sides])
    axes = []
    if both:
        axes.append(dict(name="hemisphere", size=2))
    else:
        d = d[0]
    if energies and (len(energies) > 1 or c["axis"]):
        axes.append(dict(name="energy", size=len(energies), offset=energies[0],
                         scale=energies[1] - energies[0] if len(energies) > 1 else 1))
    else:
        d = d[:, 0] if both else d[0]
    axes += [dict(name=k, size=data.shape[-1]) for k in ("height", "width")]
    cls = kp.signals.EBSDMasterPattern
    if c["lazymp"]:
        import dask.array as da

        d = da.from_array(d, chunks=(1,) * (d.ndim - 2) + d.shape[-2:])
        cls = kp.signals.LazyEBSDMasterPattern
    return cls(d, axes=axes, projection=projection, hemisphere=c["hemisphere"],
               phase=Phase("kk", point_group=c.get("pg", "m-3m")))


def detector(kp, c, pcs=None):
    pcs = np.array(c["pcs"] if pcs is None else pcs) / 10
    if len(pcs) > 1:
        pcs = pcs.reshape(tuple(c["nav"]) + (3,))
    elif c["pcnd"]:
        pcs = pcs.reshape((1,) * (c["pcnd"] - 1) + (3,))
    a = [degrees(k) for k in c["angles"]]
    return kp.detectors.EBSDDetector(shape=tuple(c["sig"]), pc=pcs, sample_tilt=a[0], tilt=a[1],
                                     azimuthal=a[2], twist=a[3])


def rotations(rots, shape, kind=0):
    from orix.quaternion import Orientation, Rotation
    from orix.quaternion.symmetry import Oh

    r = np.array(rots, float).reshape(tuple(shape) + (4,))
    return Orientation(r, symmetry=Oh) if kind else Rotation(r)


def simulate(kp, mp, rot, det, c, dtype, plain=False, **kw):
    if not plain:
        kw.update(compute=c["compute"])
        if c["chunk"]:
            kw["chunk_shape"] = c["chunk"]
        elif c["bytes"]:
            kw["chunk_bytes"] = c["bytes"]
    else:
        kw.update(compute=True)
    with contextlib.redirect_stdout(io.StringIO()):
        return mp.get_patterns(rot, det, energy=c["energy"], dtype_out=dtype,
                               show_progressbar=c.get("bar", False), **kw)


def shape_of(c, s, kp, rot, det):
    xmap = s.xmap
    return dict(
        nav=list(s.axes_manager.navigation_shape[::-1]),
        sig=list(s.axes_manager.signal_shape[::-1]), dtype=str(s.data.dtype),
        lazy=bool(s._lazy),
        rots=bool(xmap.rotations.size == rot.size and
                  np.allclose(xmap.rotations.data.reshape(-1, 4), rot.data.reshape(-1, 4))),
        detector=bool(s.detector.shape == det.shape and np.array_equal(s.detector.pc, det.pc)
                      and all(getattr(s.detector, k) == getattr(det, k) for k in
                              ("sample_tilt", "tilt", "azimuthal", "twist", "binning",
                               "px_size"))),
        phase=[p.name for _, p in xmap.phases_in_data] == ["kk"])


def case_run(c):
    kp = kikuchipy()
    if c["kind"] == "refused":
        return [refused(kp, c)]
    rng = np.random.default_rng(c["seed"])
    n = c["npx"]
    ne = max(len(c["energies"]), 1)
    rot = rotations(c["rots"], c["nav"], c["orientation"])
    det = detector(kp, c)
    npx = int(np.prod(c["sig"]))
    base = dict(nav=c["nav"], sig=c["sig"], lazy=not c["compute"])
    if c["kind"] == "dirs":
        line = np.linspace(-1, 1, n)
        out = {}
        for key in ("x", "y", "code"):
            d = np.zeros((2, ne, n, n))
            if key == "x":
                d += line
            elif key == "y":
                d += line[:, None]
            else:
                d += 100 * np.arange(2)[:, None, None, None] + np.arange(ne)[:, None, None]
            s = simulate(kp, master(kp, d, c), rot, det, c, "float64")
            got = shape_of(c, s, kp, rot, det)
            out[key] = np.asarray(s.data).reshape(-1, npx)
        v = from_lambert(out["x"], out["y"])
        code = np.round(out["code"])
        exact = bool(np.allclose(code, out["code"], atol=1e-6))
        side, energy = np.divmod(code, 100)
        v[..., 2] *= np.where(side == 1, -1, 1)
        return [dict(base, op="dirs", dtype="float64", got=got, rots=c["rots"], pcs=c["pcs"],
                     angles=c["angles"], hemisphere=c["hemisphere"],
                     dirs=[[q(x, 1000) for x in row] for row in v],
                     side=q(side, 1) if exact else [[9] * npx] * len(v),
                     energy=q(energy, 1) if exact else [[9] * npx] * len(v),
                     expected=c["expected"],
                     key=dict(nav=c["nav"], pcs=len(c["pcs"]), chunk=c["chunk"], sig=c["sig"],
                              hemisphere=c["hemisphere"], pg=c["pg"], energies=c["energies"],
                              energy=str(c["energy"]), lazymp=c["lazymp"], compute=c["compute"]))]
    # Values
    dt, dout = c["dtype"], c["dtype_out"]
    d = rng.random((2, ne, n, n))
    if dt.startswith("float"):
        d = (3 * d - 1).astype(dt)
    else:
        lo = -INFO[dt] // 2 if dt.startswith("int") else 0
        d = (lo + d * (0.9 * INFO[dt] - lo)).astype(dt)
    s = simulate(kp, master(kp, d, c), rot, det, c, dout)
    out = np.asarray(s.data).reshape(-1, npx)
    mp64 = master(kp, d.astype("float64"), dict(c, lazymp=False))
    raw, level = [], []
    rescaled = dout != dt
    integer = not dout.startswith("float")
    for i in range(len(c["rots"])):
        pc = c["pcs"][i if len(c["pcs"]) > 1 else 0]
        one = simulate(kp, mp64, rotations(c["rots"][i], (1,)), detector(kp, dict(c, pcnd=0), [pc]),
                       dict(c, bar=False), "float64", plain=True).data.ravel()
        o = out[i].astype(float)
        lo, hi = one.min(), one.max()
        if rescaled:
            raw.append(q((one - lo) / (hi - lo), 10000))
            if integer:
                a, b = np.iinfo(dout).min, np.iinfo(dout).max
            else:
                a, b = -1, 1
            level.append(q((o - a) / (b - a), 10000))
        elif integer:
            raw.append(q(one, 100))
            level.append(q(o, 1))
        else:
            raw.append(q(one, 10000))
            level.append(q(o, 10000))
    tol = 3
    if rescaled and integer:
        tol += 10000 // np.iinfo(dout).max
    if "float16" in (dt, dout):
        tol += 10
    return [dict(base, op="values", dtype=dout, got=shape_of(c, s, kp, rot, det), raw=raw,
                 level=level, rescaled=rescaled, integer=integer, tol=tol,
                 key=dict(nav=c["nav"], pcs=len(c["pcs"]), chunk=c["chunk"], dtype=dt, out=dout,
                          lazymp=c["lazymp"], compute=c["compute"]))]


def refused(kp, c):
    from orix.quaternion import Rotation

    rng = np.random.default_rng(c["seed"])
    pc = 0.5 + 0.1 * rng.random(tuple(c["pcshape"]) + (3,))
    det = kp.detectors.EBSDDetector(shape=(3, 4), pc=pc)
    mp = master(kp, rng.random((2, 1, 5, 5)), c)
    try:
        s = simulate(kp, mp, Rotation.random(tuple(c["nav"])), det, dict(energy=None), "float32",
                     plain=True)
        s.compute() if s._lazy else None
        error = "none"
    except Exception as e:
        error = type(e).__name__
    return dict(op="refused", error=error, key=dict(nav=c["nav"], pcshape=c["pcshape"]))


def quaternion(rng):
    while True:
        h = [rng.randint(-2, 2) for _ in range(4)]
        if any(h):
            return h


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCSimulation",
                   f"SPECIFICATION Spec\nCONSTANT Shapes <- {ctx.n('Few', 'Many')}\n"
                   "INVARIANTS TypeOK OnlyDone OwnRotation Ends Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=40)
    cases = []
    for m in model * ctx.n(1, 8):
        for kind in ("dirs", "values"):
            n = int(np.prod(m["nav"]))
            angles = [rng.choice(RIGHT) for _ in range(4)]
            if rng.random() < 0.5:
                angles[0] = rng.choice(RATIONAL)
                angles[1] = [1, 0, 1]
            for k in rng.sample(range(4), rng.choice([0, 1, 2])):
                if sum(a[2] > 1 for a in angles) < 2:
                    angles[k] = rng.choice(RATIONAL)
            if rng.random() < 0.1:  # turned by 180 degrees about an oblique axis
                a = rng.choice(RATIONAL)
                angles = [a, [1, 0, 1], [0, -1, 1], [a[0], -a[1], a[2]]]
            energies = rng.choice([[], [20], [10, 20], [5, 8, 11, 14]])
            axis = bool(energies) and rng.random() < 0.8
            energy, expected = None, max(len(energies) - 1, 0)
            if len(energies) > 1 and rng.random() < 0.7:
                expected = rng.randrange(len(energies))
                energy = energies[expected] + rng.choice([0, 0, 0.0, 1.2, -1.2])
                if not energies[0] <= energy <= energies[-1]:
                    energy = energies[expected]
                energy = rng.choice([float, lambda e: e])(energy)
            elif len(energies) == 1 and rng.random() < 0.5:
                energy = rng.choice([20, 15, 30.0])
            ndim = len(m["nav"])
            # Chunks are along the points
            by = rng.choice(["shape", "shape", "bytes", "none"])
            c = dict(
                kind=kind, nav=m["nav"], rots=[quaternion(rng) for _ in range(n)],
                pcs=[[rng.randint(1, 9), rng.randint(1, 9), rng.randint(3, 12)]
                     for _ in range(n if m["each"] else 1)],
                pcnd=rng.choice([0, 2, ndim + 1]) if n > 1 else ndim + 1,
                sig=rng.choice([[1, 3], [3, 1], [3, 4], [4, 3], [5, 5], [2, 7]]),
                angles=angles, npx=rng.choice([5, 9, 12, 21]), energies=energies, axis=axis,
                energy=energy, expected=expected,
                hemisphere=rng.choice(["both", "both", "upper", "lower"]),
                lazymp=rng.random() < 0.3, compute=rng.random() < 0.5,
                chunk=m["chunk"] if by == "shape" else 0,
                bytes=rng.choice([64, 200, "100B"]) if by == "bytes" else 0,
                pg=rng.choice(["m-3m", "-3m", "-1", "mmm", "-3", "2/m"]), orientation=rng.randrange(2), bar=rng.random() < 0.1,
                dtype=rng.choice(["uint8", "int16", "uint16", "float32", "float64"]),
                dtype_out=rng.choice(["uint8", "uint16", "int8", "int16", "uint32", "float16",
                                      "float32", "float64"]),
                seed=rng.randrange(1 << 30))
            if rng.random() < 0.25:
                c["dtype_out"] = c["dtype"]
            cases.append(c)
    few = dict(kind="refused", hemisphere="both", energies=[], axis=False, lazymp=False)
    for pcshape, nav in [((1, 3), (5,)), ((1, 3), (2,)), ((1, 3), (3,)), ((3,), (1, 3)),
                         ((2, 3), (3, 2)), ((3,), (2,)), ((2, 3), (6,)), ((4,), (1,)),
                         ((1, 4), (1,)), ((2, 1), (2,))]:
        cases.append(dict(few, pcshape=list(pcshape), nav=list(nav), seed=rng.randrange(1 << 30)))
    ctx.sample(*cases[::40])
    ctx.judge("TraceSimulation", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "Master patterns are not constant over a simulated pattern when intensities are "
        "rescaled (a constant pattern has no range to rescale).",
        "Directions are compared to 6/1000 and the hemisphere away from the equator.",
        "Energies halfway between two energies, or outside their range, are not simulated.",
    ]
