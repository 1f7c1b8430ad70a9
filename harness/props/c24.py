"""C24: planes of projection centers."""
import numpy as np

from harness.core import NAN, q
from harness.kp import kikuchipy, preload

ANGLES = {(5, 0): 0.0, (4, 3): np.rad2deg(np.arctan2(3, 4)), (3, 4): np.rad2deg(np.arctan2(4, 3)),
          (0, 5): 90.0}


def case_run(c):
    kp = kikuchipy()
    return globals()["do_" + c["kind"]](kp, c)


def describe(det, shape=True):
    return [list(det.shape), q(det.px_size, 100), q(det._binning, 100), q(det.tilt, 1000),
            q(det.azimuthal, 1000), q(det.twist, 1000)]


def arrange(at, layout):
    a = np.array(at)
    if layout == "single":
        return a[0].tolist()
    return (a if layout == "pairs" else a.T).tolist()


def do_extrapolate(kp, c):
    rng = np.random.default_rng(c["seed"])
    n = len(c["at"])
    pcs = rng.integers(20000, 70000, (n, 3))
    g = c["g"]
    alpha = ANGLES[g["ca"], g["sa"]]
    own = dict(shape=(g["nrows"], g["ncols"]), px_size=g["px0"], binning=g["b"] / 10)
    kw = {}
    if c["override"]:
        kw = dict(own)
        own = dict(shape=(7, 9), px_size=3, binning=7)
    det = kp.detectors.EBSDDetector(pc=pcs / 1e5, tilt=c["tilt"],
                                    sample_tilt=90 - alpha + c["tilt"], **own)
    if c["pcnav"]:
        det.pc = det.pc.reshape(tuple(c["pcnav"]) + (3,))
    before = describe(det), det.pc.copy()
    out = np.array(c["out"], bool)
    if out.any():
        kw["is_outlier"] = {"array": out.reshape(c["pcnav"] or -1), "list": out.tolist(),
                            "flat": out}[c["mask"]]
    idx = arrange(c["at"], c["layout"])
    if c["array"]:
        idx = np.array(idx)
    keep = np.array(idx).copy(), out.copy()
    new = det.extrapolate_pc(idx, tuple(c["nav"]), (g["dy"], g["dx"]), **kw)
    want = describe(det)
    want[:3] = [[g["nrows"], g["ncols"]], q(g["px0"], 100), 10 * g["b"]]
    kept = bool(np.array_equal(det.pc, before[1]) and describe(det) == before[0]
                and np.array_equal(keep[0], np.array(idx)) and np.array_equal(keep[1], out))
    inl = [i for i in range(n) if not out[i]]
    return [dict(
        op="layout" if c["finding"] else "extrapolate",
        pcs=[pcs[i].tolist() for i in inl], at=[c["at"][i] for i in inl], layout=c["layout"],
        nav=c["nav"], got=q(new.pc, 1e5),
        g=dict(dx=g["dx"], dy=g["dy"], ca=g["ca"], sa=g["sa"], nrows=g["nrows"], ncols=g["ncols"],
               px=g["px0"] * g["b"] // 10),
        detector=describe(new) + [q(new.sample_tilt, 1000)],
        detector0=want + [q(90 - alpha + c["tilt"], 1000)], kept=kept,
        key=c["finding"] or {k: c[k] for k in ("at", "layout", "nav", "g", "tilt", "out", "mask",
                                               "override", "seed")})]


def plane(c, rng):
    if c["free"]:
        return (rng.integers(20000, 60000, 3), rng.integers(-900, 900, 3),
                rng.integers(-900, 900, 3))
    # As from a tilted, flat sample
    ca, sa = c["angle"]
    step = int(rng.integers(20, 150))
    return (rng.integers(20000, 60000, 3), np.array([0, -step * ca, step * sa]),
            np.array([-5 * int(rng.integers(20, 150)), 0, 0]))


def do_fit(kp, c):
    rng = np.random.default_rng(c["seed"])
    b, dr, dc = plane(c, rng)
    at = np.array(c["at"])
    out = np.array(c["out"], bool)
    pcs = b + at[:, :1] * dr + at[:, 1:] * dc
    pcs[out] += rng.integers(3000, 9000, (out.sum(), 3))
    nav = tuple(c["pcnav"]) or (len(at),)
    det = kp.detectors.EBSDDetector(shape=(60, 80), px_size=50, binning=2, tilt=c["tilt"],
                                    sample_tilt=33, pc=(pcs / 1e5).reshape(nav + (3,)))
    before = describe(det), det.pc.copy()
    pi = at.T.reshape((2,) + nav)
    mi = np.stack(np.indices(tuple(c["nav"])))
    if c["flat"]:
        mi = mi.reshape(2, -1)
    if c["shuffle"]:
        mi = mi[:, rng.permutation(mi.shape[1])]
    kw = {}
    if out.any() or c["mask"] == "array":
        kw["is_outlier"] = out.reshape(nav) if c["mask"] == "array" else out
    if c["lists"]:
        pi, mi2 = pi.tolist(), mi.tolist()
    else:
        mi2 = mi.copy()
    new = det.fit_pc(pi, mi2, transformation=c["how"], plot=False, **kw)
    tilt0 = NAN
    if not c["free"]:
        tilt0 = q(90 - ANGLES[tuple(c["angle"])] + c["tilt"], 100)
    kept = bool(np.array_equal(det.pc, before[1]) and det.sample_tilt == 33 and
                np.array_equal(mi2, mi) and np.array_equal(np.array(pi).reshape(2, -1).T, at))
    return [dict(op="fit", plane=dict(b=b.tolist(), dr=dr.tolist(), dc=dc.tolist()),
                 map=mi.reshape(2, -1).T.tolist(), got=q(new.pc.reshape(-1, 3), 1e5),
                 shape=list(new.navigation_shape), shape0=list(mi.shape[1:]),
                 tilt=q(new.sample_tilt, 100), tilt0=tilt0, detector=describe(new),
                 detector0=before[0], kept=kept,
                 key={k: c[k] for k in ("at", "out", "how", "nav", "pcnav", "flat", "tilt", "angle",
                                        "free", "mask", "seed")})]


def figures():
    import matplotlib

    matplotlib.use("template", force=True)
    import matplotlib.pyplot as plt

    return plt


def drawn(ax):
    """Labels, points of each collection, and lines, of an axis."""
    if hasattr(ax, "get_zlabel"):
        return dict(labels=[ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()],
                    points=[q(np.stack(k._offsets3d, 1), 1e5) for k in ax.collections
                            if hasattr(k, "_offsets3d")], lines=[])
    return dict(labels=[ax.get_xlabel(), ax.get_ylabel()],
                points=[q(np.asarray(k.get_offsets()), 1e5) for k in ax.collections],
                lines=[q(np.column_stack([np.ravel(v) for v in k.get_data()]), 1e5)
                       for k in ax.lines])


def do_fitfigure(kp, c):
    plt = figures()
    rng = np.random.default_rng(c["seed"])
    b, dr, dc = plane(c, rng)
    at = np.array(c["at"])
    out = np.array(c["out"], bool)
    pcs = b + at[:, :1] * dr + at[:, 1:] * dc
    pcs[out] += rng.integers(3000, 9000, (out.sum(), 3))
    nav = tuple(c["pcnav"]) or (len(at),)
    det = kp.detectors.EBSDDetector(shape=(60, 80), tilt=c["tilt"],
                                    pc=(pcs / 1e5).reshape(nav + (3,)))
    kw = {}
    if out.any() or c["mask"] == "array":
        kw["is_outlier"] = out.reshape(nav)
    if c["degrees"]:
        kw["figure_kwargs"] = dict(figsize=(5, 4))
    mi = np.stack(np.indices(tuple(c["nav"])))
    try:
        new, fig = det.fit_pc(at.T.reshape((2,) + nav), mi, transformation=c["how"],
                              return_figure=True, **kw)
        plain = det.fit_pc(at.T.reshape((2,) + nav), mi, transformation=c["how"], plot=False, **kw)
        same = bool(np.allclose(new.pc, plain.pc) and new.sample_tilt == plain.sample_tilt
                    and (not c["degrees"] or tuple(fig.get_size_inches()) == (5, 4)))
        axes = [drawn(a) for a in fig.axes]
    finally:
        plt.close("all")
    return [dict(op="fitfigure", pcs=pcs[~out].tolist(), axes=axes, same=same, flat=not c["free"],
                 key={k: c[k] for k in ("at", "out", "how", "nav", "pcnav", "tilt", "angle",
                                        "free", "mask", "seed")})]


def do_tiltfigure(kp, c):
    plt = figures()
    rng = np.random.default_rng(c["seed"])
    b, dr, dc = plane(c, rng)
    at = np.array(c["at"])
    out = np.array(c["out"], bool)
    pcs = b + at[:, :1] * dr + at[:, 1:] * dc
    pcs[out, 1] += 40000
    nav = tuple(c["pcnav"]) or (len(at),)
    det = kp.detectors.EBSDDetector(shape=(60, 80), pc=(pcs / 1e5).reshape(nav + (3,)))
    robust = bool(out.any()) or c["lists"]
    kw = dict(detect_outliers=True) if robust else {}
    if robust and c["flat"]:
        kw["return_outliers"] = True
    try:
        np.random.seed(c["seed"] % 2**31)
        *first, fig = det.estimate_xtilt(return_figure=True, degrees=c["degrees"], **kw)
        np.random.seed(c["seed"] % 2**31)
        plain = det.estimate_xtilt(plot=False, degrees=c["degrees"], **kw)
        plain = plain if isinstance(plain, tuple) else (plain,)
        same = len(plain) == len(first) and all(np.array_equal(x, y)
                                                for x, y in zip(first, plain))
        ax, = fig.axes
        rec = drawn(ax)
        label = [t.get_text() for t in ax.get_legend().get_texts()][-1]
    finally:
        plt.close("all")
    tilt = plain[0] if c["degrees"] else np.rad2deg(plain[0])
    said = float(label.split("=")[1].split("$")[0])
    return [dict(op="tiltfigure", pcs=pcs.tolist(), out=out.tolist(), robust=robust, same=bool(same),
                 said=q(said, 100), tilt=q(tilt, 100), axis=rec,
                 key={k: c[k] for k in ("at", "out", "pcnav", "angle", "seed")})]


def do_tilt(kp, c):
    rng = np.random.default_rng(c["seed"])
    b, dr, dc = plane(c, rng)
    at = np.array(c["at"])
    out = np.array(c["out"], bool)
    pcs = b + at[:, :1] * dr + at[:, 1:] * dc
    pcs[out, 1] += 40000
    nav = tuple(c["pcnav"]) or (len(at),)
    det = kp.detectors.EBSDDetector(shape=(60, 80), pc=(pcs / 1e5).reshape(nav + (3,)))
    mask = out.reshape(nav)
    kw = {}
    if out.any() or c["mask"] == "array":
        kw["is_outlier"] = mask if c["mask"] == "array" else mask.tolist()
    x, z = det.estimate_xtilt_ztilt(degrees=c["degrees"], **kw)
    if c["degrees"]:
        x, z = np.deg2rad(x), np.deg2rad(z)
    good = kp.detectors.EBSDDetector(shape=(60, 80), pc=pcs[~out] / 1e5)
    lin = robust = radians = 0
    outliers = []
    if not c["free"]:
        lin = good.estimate_xtilt(plot=False, degrees=True)
        np.random.seed(c["seed"] % 2**31)
        robust, outl = det.estimate_xtilt(plot=False, degrees=True, return_outliers=True)
        np.random.seed(c["seed"] % 2**31)
        radians = np.rad2deg(det.estimate_xtilt(plot=False, detect_outliers=True))
        outliers = outl.astype(int).tolist()
    return [dict(op="tilt", u=dr.tolist(), v=dc.tolist(),
                 normal=q(np.array([np.sin(x) * np.sin(z), np.sin(x) * np.cos(z), np.cos(x)]),
                          1000),
                 xtilt=q(lin, 100), robust=q(robust, 100), radians=q(radians, 100),
                 xtilt0=NAN if c["free"] else q(ANGLES[tuple(c["angle"])], 100),
                 outliers=outliers, outliers0=mask.astype(int).tolist(),
                 key={k: c[k] for k in ("at", "out", "pcnav", "angle", "free", "mask", "seed")})]


def do_screen(kp, c):
    rng = np.random.default_rng(c["seed"])
    nrows, ncols = c["sig"]
    p = np.array([rng.integers(1, ncols), rng.integers(1, nrows)])
    d = np.array(c["d"])
    pin, pout = p + c["m"] * d, p + c["k"] * d
    if c["lists"]:
        pin, pout = [tuple(v) for v in pin.tolist()], [tuple(v) for v in pout.tolist()]
    kw = dict(px_size=c["px"], binning=c["b"]) if c["px"] else {}
    if c["convention"] != "tsl":
        kw["convention"] = c["convention"]
    cal = kp.detectors.PCCalibrationMovingScreen(
        np.zeros((nrows, ncols)), np.ones((nrows, ncols)), pin, pout, delta_z=c["delta"], **kw)
    return [dict(op="screen", lines=int(cal.n_lines), n=len(d), all=q(cal.pc_all, 1e4),
                 pc=q(cal.pc, 1e4), nrows=nrows, ncols=ncols, p=p.tolist(), m=c["m"], k=c["k"],
                 convention=c["convention"], delta=c["delta"],
                 height=nrows * c["px"] * c["b"] if c["px"] else 1,
                 key={k: c[k] for k in ("d", "m", "k", "sig", "px", "b", "convention", "seed")})]


def do_refused(kp, c):
    det = kp.detectors.EBSDDetector(shape=(6, 7), pc=np.full((4, 3), 0.5))
    det.pc[:, 0] += [0, 0.01, 0, 0.01]
    one = kp.detectors.EBSDDetector(shape=(6, 7))
    pi = np.array([[0, 0, 1, 1], [0, 1, 0, 1]])
    f = {
        "one": lambda: one.fit_pc(np.array([[0], [0]]), pi, plot=False),
        "one xtilt": lambda: one.estimate_xtilt(plot=False),
        "one tilts": lambda: one.estimate_xtilt_ztilt(),
        "indices": lambda: det.fit_pc(pi[:, :3], pi, plot=False),
        "indices transposed": lambda: det.fit_pc(pi.T, pi, plot=False),
        "map": lambda: det.fit_pc(pi, pi.T, plot=False),
        "mask size": lambda: det.fit_pc(pi, pi, is_outlier=np.zeros(3, bool), plot=False),
        "mask type": lambda: det.fit_pc(pi, pi, is_outlier=np.zeros(4), plot=False),
    }[c["what"]]
    try:
        f()
        error = "none"
    except Exception as e:
        error = type(e).__name__
    return [dict(op="refused", error=error, want="ValueError", key=c["what"])]


def collinear(a):
    a = np.array(a) - a[0]
    return np.linalg.matrix_rank(a) < 2


def four_general(pts):
    """Some four of the points have no three on a line."""
    from itertools import combinations

    for f in combinations(pts, 4):
        if not any(collinear(list(t)) for t in combinations(f, 3)):
            return True
    return False


def shapes(n):
    return [[]] + [[a, n // a] for a in range(1, n + 1) if n % a == 0]


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCPCPlane",
                   f"SPECIFICATION Spec\nCONSTANTS Side = {ctx.n(2, 3)} Slopes = {{0, 1, 2}} "
                   "MaxPoints = 4\nINVARIANTS Determined MeanOnPlane Emit\n"
                   "CHECK_DEADLOCK FALSE\n", expect_cases=30)
    cases = []

    def geometry():
        return dict(dx=rng.choice([1, 2, 5]), dy=rng.choice([1, 3, 4]), b=rng.choice([10, 20, 40, 25]),
                    px0=rng.choice([10, 20]), nrows=rng.choice([60, 40]), ncols=rng.choice([80, 60]),
                    **dict(zip(("ca", "sa"), rng.choice(list(ANGLES)))))

    def extrapolate(at, out, **kw):
        n = len(at)
        layout = rng.choice(["pairs", "rows"]) if n > 1 else "single"
        if any(out) or n == 2:
            # The pairs cannot be told from the documented layout, nor masked
            layout = "rows"
        return dict(dict(
            kind="extrapolate", at=at, out=out, layout=layout, g=geometry(), tilt=rng.choice([0, 0, 5, -3]),
            nav=[rng.randint(1, 5), rng.randint(1, 5)], override=rng.random() < 0.3,
            pcnav=rng.choice(shapes(n)) if n > 1 else [], mask=rng.choice(["array", "list", "flat"]),
            array=rng.random() < 0.5, finding=None, seed=rng.randrange(1 << 30)), **kw)

    scale = [rng.choice([1, 2, 3, 5]) for _ in model]
    for m, f in zip(model, scale):
        at = [[f * r, f * c] for r, c, _ in m["meas"]]
        out = [bool(o) for _, _, o in m["meas"]]
        cases.append(extrapolate(at, out))
    for _ in range(ctx.n(150, 2000)):
        n = rng.choice([1, 1, 1, 3, 4, 5])
        at = [[rng.randint(-3, 15), rng.randint(-3, 15)] for _ in range(n)]
        cases.append(extrapolate(at, [False] * n))
    cases.append(extrapolate([[0, 0], [0, 10], [20, 0], [20, 10]], [False] * 4, layout="rows",
                             nav=[3, 4], override=False, pcnav=[], tilt=0, array=False, seed=1,
                             g=dict(dx=5, dy=4, b=10, px0=10, nrows=60, ncols=60, ca=4, sa=3),
                             finding="several-positions-as-rows"))

    def fit(at, out, **kw):
        inl = [a for a, o in zip(at, out) if not o]
        c = dict(kind="fit", at=at, out=out, free=rng.random() < 0.5 and len(inl) < 10,
                 angle=list(rng.choice([(4, 3), (3, 4)])), tilt=rng.choice([0, 0, 8, -4]),
                 how=rng.choice(["affine", "projective"]) if four_general(inl) else "affine",
                 nav=[rng.randint(1, 5), rng.randint(1, 5)], pcnav=rng.choice(shapes(len(at))),
                 flat=rng.random() < 0.4, shuffle=rng.random() < 0.4, lists=rng.random() < 0.3,
                 mask=rng.choice(["array", "flat"]), degrees=rng.random() < 0.5,
                 seed=rng.randrange(1 << 30))
        return dict(c, **kw)

    spread = []
    for m, f in zip(model, scale):
        at = [[f * r, f * c] for r, c, _ in m["meas"]]
        spread.append((at, [bool(o) for _, _, o in m["meas"]]))
    for _ in range(ctx.n(150, 2000)):
        n = rng.choice([4, 5, 6, 8, 9, 12, 20])
        at = [list(a) for a in {(rng.randint(0, 9), rng.randint(0, 9)) for _ in range(n)}]
        rng.shuffle(at)
        share = rng.choice([0, 0, 0.2])
        out = [rng.random() < share for _ in at]
        spread.append((at, out))
    for at, out in spread:
        inl = [a for a, o in zip(at, out) if not o]
        if len(inl) < 3 or collinear(inl):
            continue
        cases.append(fit(at, out))
        rows = {a[0] for a in inl}
        few = sum(out) <= len(at) // 5 and len(inl) >= 5 and len(rows) >= 4
        c = fit(at, out, kind="tilt")
        if c["free"] or few:
            cases.append(c)
        if len(spread) < 2000 or rng.random() < 0.1:
            cases.append(fit(at, out, kind="fitfigure"))
            if few:
                cases.append(fit(at, out, kind="tiltfigure", free=False))
    for _ in range(ctx.n(60, 600)):
        d = []
        for _ in range(rng.choice([2, 3, 4, 5])):
            while True:
                v = [rng.randint(-9, 9), rng.randint(-9, 9)]
                if all(v[0] * w[1] != v[1] * w[0] for w in d) and v != [0, 0]:
                    break
            d.append(v)
        m = rng.randint(1, 4)
        cases.append(dict(kind="screen", d=d, m=m, k=m + rng.randint(1, 3), sig=rng.choice(
            [[60, 60], [40, 80]]), delta=rng.choice([1, 2, 20]), px=rng.choice([0, 1, 2]),
            b=rng.choice([1, 2]), convention=rng.choice(["tsl", "bruker"]),
            lists=rng.random() < 0.5, seed=rng.randrange(1 << 30)))
    cases += [dict(kind="refused", what=w) for w in (
        "one", "one xtilt", "one tilts", "indices", "indices transposed", "map", "mask size",
        "mask type")]
    ctx.sample(*cases[::90])
    ctx.judge("TracePCPlane", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "The reference position may be the mean position or that rounded to whole rows and columns.",
        "Projective fits of ten or more centers: planes along detector X only, since the "
        "coordinate-wise trimmed mean need not lie on other planes.",
        "Robust tilts: outliers far off the line, at most a fifth of the centers.",
    ]
