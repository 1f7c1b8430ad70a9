"""C21: master patterns in the stereographic and Lambert projections."""
import contextlib
import io
import warnings

import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload
from harness.props.c20 import RATIONAL, RIGHT, degrees, quaternion

PGS = ["m-3m", "-3m", "-1", "mmm"]


def intensity(f, v):
    return f[0] + f[1] * v[0] + f[2] * v[1] + f[3] * v[2]


def stereographic(n, f, side):
    """Intensities in the plane; the formulae go on smoothly beyond the equator."""
    x, y = np.meshgrid(np.linspace(-1, 1, n), np.linspace(-1, 1, n))
    d = 1 + x**2 + y**2
    z = (1 - x**2 - y**2) / d
    return intensity(f, (2 * x / d, 2 * y / d, z if side == 0 else -z))


def signal(kp, c, projection="stereographic", inside=False):
    from orix.crystal_map import Phase

    data = np.stack([np.stack([stereographic(c["n"], c["f"][str(s)][e], s)
                               for e in range(c["ne"])]) for s in c["sides"]])
    if c["dtype"].startswith("uint"):
        data = np.round(data)
    data = data.astype(c["dtype"])
    if inside:
        x = np.linspace(-1, 1, c["n"])
        data[..., x[:, None] ** 2 + x**2 > 1] = 0
    axes = []
    if len(c["sides"]) == 2:
        axes.append(dict(name="hemisphere", size=2))
    else:
        data = data[0]
    if c["ne"] > 1 or c["axis"]:
        axes.append(dict(name="energy", size=c["ne"], offset=c["e0"], scale=c["de"], units="keV"))
    else:
        data = data[:, 0] if len(c["sides"]) == 2 else data[0]
    axes += [dict(name=k, size=c["n"], offset=-(c["n"] // 2), units="px")
             for k in ("height", "width")]
    hemisphere = "both" if len(c["sides"]) == 2 else ("upper", "lower")[c["sides"][0]]
    cls = getattr(kp.signals, c["cls"])
    phase = Phase("kk", point_group=c["pg"])
    return cls(data, axes=axes, projection=projection, hemisphere=hemisphere, phase=phase)


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **kw)


class Plotter:
    """Stand-in for the plotter: keeps the meshes, draws nothing."""

    def __init__(self, **kw):
        self.meshes = []

    def add_mesh(self, mesh, **kw):
        self.meshes.append(mesh)

    def add_axes(self, **kw):
        pass

    def set_background(self, *a):
        pass

    def set_viewup(self, *a):
        pass

    def __getattr__(self, name):
        return lambda *a, **kw: None


def case_run(c):
    kp = kikuchipy()
    rng = np.random.default_rng(c["seed"])
    mp = signal(kp, c)
    key = dict(sides=c["sides"], ne=c["ne"], n=c["n"], dtype=c["dtype"], cls=c["cls"], pg=c["pg"])
    before = mp.data.copy()
    lam = quiet(mp.as_lambert, show_progressbar=c["bar"])
    n = c["n"]
    m = n - 1
    size = max(abs(k) for s in c["f"].values() for f in s for k in f[1:])
    tol = int(10 * size * 0.012) + (25 if c["dtype"].startswith("uint") else 3)
    out = np.asarray(lam.data).reshape((len(c["sides"]), c["ne"], n, n))
    images = []
    for a, s in enumerate(c["sides"]):
        for e in range(c["ne"]):
            px = [(i, j) for i in (0, m // 2, m) for j in (0, m // 2, m)]
            px += [tuple(rng.integers(0, n, 2)) for _ in range(25)]
            images.append(dict(side=s, f=c["f"][str(s)][e],
                               px=[[2 * j - m, 2 * i - m, q(out[a, e, i, j], 10)] for i, j in px]))
    ax, bx = mp.axes_manager.as_dictionary(), lam.axes_manager.as_dictionary()
    recs = [dict(
        op="convert", m=m, images=images, tol=tol, shape=list(lam.data.shape),
        shape0=list(mp.data.shape), dtype=str(lam.data.dtype),
        axes=bool(all(ax[k][p] == bx[k][p] for k in ax
                      for p in ("name", "size", "offset", "scale", "units", "navigate"))),
        phase=bool(lam.phase.name == "kk" and lam.phase.point_group == mp.phase.point_group),
        hemisphere=lam.hemisphere == mp.hemisphere, projection=lam.projection,
        kept=bool(np.array_equal(before, mp.data) and mp.projection == "stereographic"),
        unshared=not (np.may_share_memory(lam.data, mp.data) or lam.phase is mp.phase),
        **{"class": type(lam) is type(mp)}, key=key)]
    hemisphere = mp.hemisphere

    def both(e):
        f = c["f"]
        one = str(c["sides"][0])
        return dict(upper=f.get("0", f[one])[e], lower=f.get("1", f[one])[e])

    if c["cls"] == "EBSDMasterPattern":
        e = c["pick"]
        energy = None if e == c["ne"] - 1 else c["e0"] + e * c["de"]
        a = [degrees(k) for k in c["angles"]]
        det = kp.detectors.EBSDDetector(shape=tuple(c["sig"]), pc=[k / 10 for k in c["pc"]],
                                        sample_tilt=a[0], tilt=a[1], azimuthal=a[2], twist=a[3])
        from orix.quaternion import Rotation

        s = quiet(lam.get_patterns, Rotation(np.array(c["rots"], float)), det, energy=energy,
                  dtype_out="float32", compute=True, show_progressbar=False)
        recs.append(dict(op="loop", angles=c["angles"], sig=c["sig"], pc=c["pc"], rots=c["rots"],
                         hemisphere=hemisphere, tol=tol + int(10 * size * 0.6 / c["n"]),
                         values=[[q(v, 10) for v in row.ravel()] for row in s.data],
                         key=dict(key, energy=str(energy)), **both(e)))
    if c["sphere"]:
        import pyvista as pv

        e = c["pick"]
        energy = None if e == c["ne"] - 1 else c["e0"] + e * c["de"]
        real = pv.Plotter
        pv.Plotter = Plotter
        try:
            pl = signal(kp, c, inside=c["inside"]).plot_spherical(
                energy=energy, return_figure=True, style=c["style"])
        finally:
            pv.Plotter = real
        mesh = [k for k in pl.meshes if "Intensity" in k.array_names][0]
        pts, val = np.asarray(mesh.points), np.asarray(mesh.point_data["Intensity"])
        take = rng.integers(0, len(pts), 60)
        recs.append(dict(op="sphere", hemisphere=hemisphere, tol=25, key=key, **both(e),
                         points=[q(pts[k], 10000) + [q(val[k], 10)] for k in take]))
    if c["again"]:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            two = lam.as_lambert()
        refused = True
        try:
            signal(kp, c).as_lazy().as_lambert()
            refused = False
        except NotImplementedError:
            pass
        recs.append(dict(op="again", same=bool(np.array_equal(two.data, lam.data) and
                                               two.projection == "lambert" and
                                               two.hemisphere == lam.hemisphere),
                         warned=any("Already" in str(k.message) for k in w), key=key,
                         unshared=not np.may_share_memory(two.data, lam.data), refused=refused))
    return recs


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCMasterProjection",
                   f"SPECIFICATION Spec\nCONSTANTS Sizes = {ctx.n('{31, 32, 41}', '{25, 31, 32, 40, 41, 61}')}"
                   f" MaxE = 3\nINVARIANTS Once All Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=20)
    cases = []
    for m in model * ctx.n(4, 20):
        dtype = rng.choice(["float32", "float64", "uint8", "uint16"])
        a, b = {"uint8": (120, 60), "uint16": (20000, 5000)}.get(dtype, (1000, 400))

        def f():
            while True:
                k = [a + rng.randint(-a // 10, a // 10)] + [rng.randint(-b, b) for _ in range(3)]
                if max(map(abs, k[1:])) > b // 2:
                    return k

        angles = [rng.choice(RIGHT + RATIONAL), [1, 0, 1], rng.choice(RIGHT), [1, 0, 1]]
        angles[rng.choice([1, 3])] = rng.choice(RATIONAL)
        cases.append(dict(
            sides=m["sides"], ne=m["ne"], n=m["n"], dtype=dtype, axis=rng.random() < 0.5,
            e0=rng.choice([5, 10]), de=rng.choice([1, 5]), pick=rng.randrange(m["ne"]),
            f={str(s): [f() for _ in range(m["ne"])] for s in m["sides"]},
            cls=rng.choice(["EBSDMasterPattern"] * 3 + ["ECPMasterPattern"]),
            pg=rng.choice(PGS), bar=rng.random() < 0.1, angles=angles,
            sig=rng.choice([[3, 4], [5, 3], [4, 4]]),
            pc=[rng.randint(1, 9), rng.randint(1, 9), rng.randint(3, 12)],
            rots=[quaternion(rng) for _ in range(3)], sphere=rng.random() < 0.3,
            style=rng.choice(["surface", "points"]), inside=rng.random() < 0.5, again=rng.random() < 0.3,
            seed=rng.randrange(1 << 30)))
    ctx.sample(*cases[::40])
    ctx.judge("TraceMasterProjection", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "Intensities are smooth (linear in the direction), so that interpolation errors are "
        "small; compared to about 1 % of their range, 3 % after two interpolations in a "
        "coarse grid.",
        "Hemispheres with different intensities are not compared within 2 % of the equator.",
    ]
