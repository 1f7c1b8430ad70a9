"""C25: geometrical and kinematical simulations."""
import contextlib
import io
import re

import numpy as np

from harness.core import NAN, q
from harness.kp import kikuchipy, preload
from harness.props.c20 import RATIONAL, RIGHT, degrees

JIT = True

# Lattice base vectors (rows) and the same as parameters
LATTICES = {
    "cubic": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], (1, 1, 1, 90, 90, 90), 225),
    "orthorhombic": ([[2, 0, 0], [0, 3, 0], [0, 0, 4]], (2, 3, 4, 90, 90, 90), 47),
    "monoclinic": ([[3, 0, 0], [0, 2, 0], [-3, 0, 4]],
                   (3, 2, 5, 90, float(np.rad2deg(np.arccos(-0.6))), 90), 10),
}


def phase(lattice, scale=1.0):
    from diffpy.structure import Atom, Lattice, Structure
    from orix.crystal_map import Phase

    *abc, al, be, ga = LATTICES[lattice][1]
    return Phase("kk", space_group=LATTICES[lattice][2], structure=Structure(
        atoms=[Atom("Al", [0, 0, 0]), Atom("Cu", [0.5, 0.5, 0])],
        lattice=Lattice(*[scale * k for k in abc], al, be, ga)))


def vectors(c, scale=1.0):
    from diffsims.crystallography import ReciprocalLatticeVector

    return ReciprocalLatticeVector(phase(c["lattice"], scale), hkl=np.array(c["hkl"], float))


def case_run(c):
    kp = kikuchipy()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return globals()["do_" + c["kind"]](kp, c)


def detector(kp, c):
    pcs = np.array(c["pcs"]) / 10
    if len(pcs) > 1:
        pcs = pcs.reshape(tuple(c["nav"]) + (3,))
    a = [degrees(k) for k in c["angles"]]
    return kp.detectors.EBSDDetector(shape=tuple(c["sig"]), pc=pcs, sample_tilt=a[0], tilt=a[1],
                                     azimuthal=a[2], twist=a[3])


def rotation(c):
    from orix.quaternion import Rotation

    h = np.array(c["turns"], float)
    return Rotation((h / np.linalg.norm(h, axis=1)[:, None]).reshape(tuple(c["nav"]) + (4,)))


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, equal_nan=True))


def at(values, idx, nav):
    """Markers' values of a pattern."""
    if tuple(nav) == (1,):
        v = np.asarray(values)
        return v[~np.isnan(v).reshape(len(v), int(np.prod(v.shape[1:]))).any(axis=1)]
    return values[idx[::-1]]


def do_detector(kp, c):
    det, rot = detector(kp, c), rotation(c)
    ref = vectors(c)
    sim = kp.simulations.KikuchiPatternSimulator(ref).on_detector(det, rot)
    nav = tuple(c["nav"])
    points = list(np.ndindex(nav))
    lines, axes, gnomonic = [], [], []
    marks = sim.as_markers(lines=True, zone_axes=True, zone_axes_labels=True, pc=True)
    m_lines, m_axes, m_labels, m_pc = [m.kwargs for m in marks]
    line_ok = axes_ok = True
    pcs = np.array(c["pcs"]) / 10
    for i, idx in enumerate(points):
        g = sim.lines_coordinates(idx, "gnomonic", exclude_nan=False)
        p = sim.lines_coordinates(idx, "pixel", exclude_nan=False)
        there = ~np.isnan(g).any(axis=1)
        lines.append([dict(there=bool(t), g=[q(v, 1000) for v in gg] if t else [],
                           p=[q(v, 1000) for v in pp] if t else [])
                      for t, gg, pp in zip(there, g, p)])
        line_ok &= bool((there == ~np.isnan(p).any(axis=1)).all())
        for fmt, full in (("gnomonic", g), ("pixel", p)):
            few = sim.lines_coordinates(idx, fmt)
            seg = sim.as_collections(idx, fmt)[0].get_segments()
            line_ok &= same(few, full[there])
            line_ok &= same(np.reshape(seg, (-1, 4)), full[there])
        line_ok &= same(np.reshape(at(m_lines["segments"], idx, nav), (-1, 4)), p[there])
        # Zone axes with their labels
        (texts,) = sim.as_collections(idx, "pixel", lines=False, zone_axes_labels=True)
        xy = [np.array(t.get_position()) + [0, 0.03 * det.nrows] for t in texts]
        axes.append([dict(p=[q(v, 1000) for v in x], uvw=uvw(t.get_text()))
                     for x, t in zip(xy, texts)])
        pix = sim.zone_axes_coordinates(idx)
        axes_ok &= same(pix, np.reshape(xy, (-1, 2)))
        (paths,) = sim.as_collections(idx, "pixel", lines=False, zone_axes=True)
        mid = [(k.vertices.min(axis=0) + k.vertices.max(axis=0)) / 2 for k in paths.get_paths()]
        axes_ok &= same(np.reshape(mid, (-1, 2)), pix)
        axes_ok &= same(at(m_axes["offsets"], idx, nav), pix)
        axes_ok &= same(at(m_labels["offsets"], idx, nav), pix)
        labels = np.asarray(m_labels["texts"] if nav == (1,) else m_labels["texts"][idx[::-1]])
        if nav == (1,):
            off = np.asarray(m_labels["offsets"])
            labels = labels[~np.isnan(off).any(axis=1)]
        axes_ok &= labels.tolist() == [t.get_text() for t in texts]
        gz = sim.zone_axes_coordinates(idx, "gnomonic")
        gnomonic.append([[q(v, 1000) for v in k] for k in gz])
        one = pcs[i if len(pcs) > 1 else 0][:2] * (np.array(c["sig"])[::-1] - 1)
        off = m_pc["offsets"]
        axes_ok &= same(np.squeeze(off[idx[::-1]] if off.dtype == object else off), one)
    plots = [plotted(sim, det, c, points, i) for i in {0, c["seed"] % len(points)}]
    base = dict(hkl=c["hkl"], base=LATTICES[c["lattice"]][0], angles=c["angles"],
                turns=c["turns"], pcs=c["pcs"], sig=c["sig"], nav=c["nav"])
    key = dict(lattice=c["lattice"], nav=c["nav"], seed=c["seed"])
    return [
        dict(base, op="lines", key=key, shape=list(sim.navigation_shape), lines=lines,
             reflectors=np.round(sim.reflectors.hkl).astype(int).tolist(), markers=bool(line_ok),
             default=same(sim.lines_coordinates(), sim.lines_coordinates(points[0])) and
             same(sim.zone_axes_coordinates(), sim.zone_axes_coordinates(points[0])) and
             same(sim.lines_coordinates(exclude_nan=False)[:0],
                  sim.lines_coordinates(points[-1], exclude_nan=False)[:0])),
        dict(base, op="axes", key=key, axes=axes, gnomonic=gnomonic, markers=bool(axes_ok)),
    ] + [dict(p, op="plot", key=key) for p in plots]


def plotted(sim, det, c, points, i):
    """The figure of a simulation, with numbers that are compared to others."""
    import matplotlib

    matplotlib.use("template", force=True)
    import matplotlib.pyplot as plt

    from harness.props.c31 import borders, marks, rectangles

    rng = np.random.default_rng(c["seed"] + i)
    coordinates = ["pixel", "gnomonic"][rng.integers(2)]
    on = [bool(k) for k in rng.random(4) < 0.8]
    pat = rng.random(tuple(c["sig"])) if rng.random() < 0.5 else None
    idx = points[i]
    if i == 0 and rng.random() < 0.5:
        index = None
    else:
        index = idx[0] if len(idx) == 1 and rng.random() < 0.5 else idx
    before = det.pc.copy()
    try:
        ax = sim.plot(index, coordinates, pattern=pat, lines=on[0], zone_axes=on[1],
                      zone_axes_labels=on[2], pc=on[3], return_figure=True).axes[0]
        named = {str(k.get_label()): k for k in ax.collections}
        segs = np.reshape(named["kikuchi_lines"].get_segments(), (-1, 4)) if on[0] else None
        mid = [(k.vertices.min(axis=0) + k.vertices.max(axis=0)) / 2
               for k in named["zone_axes"].get_paths()] if on[1] else []
        text = [list(t.get_position()) for t in ax.texts]
        said = [t.get_text() for t in ax.texts]
        at_pc = marks(ax)
        (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
        if pat is not None:
            border = borders(ax.images[0])
            same_pattern = np.array_equal(ax.images[0].get_array(), pat)
        else:
            r, = rectangles(ax)
            border = [r.get_x(), r.get_x() + r.get_width()] + sorted(
                [r.get_y(), r.get_y() + r.get_height()], reverse=y1 > y0)
            same_pattern = True
    finally:
        plt.close("all")
    (texts,) = sim.as_collections(idx, coordinates, lines=False, zone_axes_labels=True)
    lines_ok = ("kikuchi_lines" in named) == on[0] and (
        not on[0] or same(segs, np.reshape(sim.lines_coordinates(idx, coordinates), (-1, 4))))
    axes_ok = ("zone_axes" in named) == on[1] and (
        not on[1] or same(np.reshape(mid, (-1, 2)), sim.zone_axes_coordinates(idx, coordinates)))
    labels_ok = said == ([t.get_text() for t in texts] if on[2] else []) and same(
        np.reshape(text, (-1, 2)),
        np.reshape([t.get_position() for t in texts] if on[2] else [], (-1, 2)))
    s = 10000
    return dict(coordinates=coordinates, sig=c["sig"],
                pc=c["pcs"][i if len(c["pcs"]) > 1 else 0], show=on[3],
                marks=[[q(x, s) for x in m] for m in at_pc],
                limits=[q(k, s) for k in (x0, x1, y1, y0)], border=[q(k, s) for k in border],
                lines=bool(lines_ok), axes=bool(axes_ok), labels=bool(labels_ok),
                pattern=bool(same_pattern), kept=bool(np.array_equal(before, det.pc)))


def uvw(text):
    return [int(k) for k in re.findall(r"-?\d", text)]


def prepared(c):
    ref = vectors(c, 3.0)
    ref.calculate_theta(300)
    ref.calculate_structure_factor()
    return ref


def do_master(kp, c):
    ref = prepared(c)
    mp = kp.simulations.KikuchiPatternSimulator(ref).calculate_master_pattern(
        half_size=c["half"], hemisphere=c["hemisphere"], scaling=c["scaling"])
    f = np.abs(ref.structure_factor)
    weight = {"linear": f, "square": f**2, None: np.ones(len(f))}[c["scaling"]]
    scale = 1000 / weight.max()
    got = mp.data if c["hemisphere"] == "both" else mp.data[None]
    am = mp.axes_manager
    names = [a.name for a in am._axes]
    want = (["hemisphere"] if c["hemisphere"] == "both" else []) + ["height", "width"]
    return [dict(
        op="master", half=c["half"], side=c["hemisphere"],
        sides=["upper", "lower"] if c["hemisphere"] == "both" else [c["hemisphere"]],
        hkl=normals(c).tolist(), sines=[q(v, 10000) for v in np.sin(ref.theta)],
        weight=[q(v * scale) for v in weight], shape=list(mp.data.shape),
        got=[[[q(2 * v * scale) for v in row] for row in m] for m in got],
        meta=["stereographic", c["hemisphere"], "kk", want],
        meta0=[mp.projection, mp.hemisphere, mp.phase.name, names],
        key=dict(hemisphere=c["hemisphere"], scaling=str(c["scaling"]), seed=c["seed"]))]


def normals(c):
    """Of the bands, in integers."""
    b = np.array(LATTICES[c["lattice"]][0])
    recip = np.array([np.cross(b[1], b[2]), np.cross(b[2], b[0]), np.cross(b[0], b[1])])
    n = np.array(c["hkl"]) @ recip
    return n // np.gcd.reduce(n, axis=1)[:, None]


def do_circles(kp, c):
    """Lines and bands drawn on the sphere."""
    import matplotlib

    matplotlib.use("template", force=True)
    import matplotlib.colors as mcolors
    import matplotlib.pyplot as plt

    from harness.props.c21 import Plotter

    ref = prepared(c)
    sim = kp.simulations.KikuchiPatternSimulator(ref)
    f = np.abs(ref.structure_factor)
    weight = {"linear": f, "square": f**2, None: np.ones(len(f))}[c["scaling"]]
    weight = weight / weight.max()
    kw = dict(mode=c["mode"], scaling=c["scaling"], color=c["color"], return_figure=True)
    drawn, rgb, order, more = [], True, [], True
    want = ref.phase.color_rgb if c["color"] == "phase" else mcolors.to_rgb(c["color"])

    def add(xyz, w, side):
        xyz = np.asarray(xyz, float)
        take = np.unique(np.linspace(0, len(xyz) - 1, 9).astype(int))
        drawn.append(dict(w=q(w, 1000), side=side, n=len(xyz),
                          pts=[[q(v, 1000) for v in xyz[k]] for k in take]))

    try:
        if c["how"] == "stereographic":
            fig = sim.plot(hemisphere=c["hemisphere"], **kw)
            sides = {"both": ["upper", "lower"]}.get(c["hemisphere"], [c["hemisphere"]])
            more = len(fig.axes) == len(sides)
            numbers = []
            for ax, side in zip(fig.axes, sides):
                for k in ax.lines:
                    x, y = k.get_xydata().T
                    r2 = x**2 + y**2
                    z = (1 - r2) / (1 + r2) * (1 if side == "upper" else -1)
                    add(np.stack([2 * x / (1 + r2), 2 * y / (1 + r2), z], 1), k.get_color()[3], side)
                    rgb = rgb and np.allclose(k.get_color()[:3], want)
                numbers.append(len(ax.lines))
            two = sim.plot(figure=fig, **kw)
            more = more and two is fig and [len(a.lines) for a in fig.axes] == [2 * k for k in numbers]
        elif c["how"] == "matplotlib":
            fig = sim.plot(projection="spherical", **kw)
            ax = fig.axes[0]
            for k in ax.lines:
                add(np.transpose(k.get_data_3d()), k.get_color()[3], "all")
                rgb = rgb and np.allclose(k.get_color()[:3], want)
            n = len(ax.lines)
            two = sim.plot(projection="spherical", figure=fig, **kw)
            more = two is fig and len(fig.axes) == 1 and len(ax.lines) == 2 * n
        else:
            import pyvista as pv

            class Recorder(Plotter):
                def add_mesh(self, mesh, scalars=None, **kw):
                    self.meshes.append(mesh)
                    if scalars is not None:
                        self.scalars = scalars

            real = pv.Plotter
            pv.Plotter = Recorder
            try:
                fig = sim.plot(projection="spherical", backend="pyvista", show_plotter=False, **kw)
                meshes = [k for k in fig.meshes if k.n_lines]
                two = sim.plot(projection="spherical", backend="pyvista", show_plotter=False,
                               figure=fig, **kw)
                more = len(meshes) == 1 and two is fig and \
                    len([k for k in fig.meshes if k.n_lines]) == 2
            finally:
                pv.Plotter = real
            mesh = meshes[0]
            values = np.asarray(fig.scalars, float)
            more = more and len(values) == mesh.n_cells
            for k in range(mesh.n_cells):
                add(np.asarray(mesh.get_cell(k).points), values[k] / values.max(), "all")
    finally:
        plt.close("all")
    return [dict(op="circles", how=c["how"], mode=c["mode"], side=c["hemisphere"],
                 normals=normals(c).tolist(), weight=[q(v, 1000) for v in weight],
                 sines=[q(v, 1000) for v in np.sin(ref.theta)], drawn=drawn, rgb=bool(rgb),
                 more=bool(more), key={k: str(c[k]) for k in ("lattice", "how", "mode", "hemisphere",
                                                              "scaling", "seed")})]


def do_schedule(kp, c):
    import numba

    ref = prepared(c)
    s = kp.simulations.KikuchiPatternSimulator(ref)
    most = numba.config.NUMBA_NUM_THREADS
    out = []
    for n in [1] + [min(k, most) for k in c["threads"]]:
        numba.set_num_threads(n)
        out.append(s.calculate_master_pattern(half_size=c["half"], hemisphere="both",
                                              scaling="square").data)
    numba.set_num_threads(most)
    return [dict(op="schedule", different=[int((a != out[0]).sum()) for a in out[1:]],
                 key=dict(seed=c["seed"]))]


def do_refused(kp, c):
    error = ""
    try:
        if c["what"] == "shapes":
            det = kp.detectors.EBSDDetector(shape=(4, 4), pc=np.full(tuple(c["pcshape"]) + (3,), .5))
            c = dict(c, turns=[[1, 0, 0, 0]] * int(np.prod(c["nav"])))
            kp.simulations.KikuchiPatternSimulator(vectors(c)).on_detector(det, rotation(c))
        else:
            ref = vectors(c, 3.0)
            if c["what"] != "theta":
                ref.calculate_theta(300)
            if c["what"] != "factor":
                ref.calculate_structure_factor()
            kw = dict(scaling={"scaling": "cubic"}.get(c["what"], "linear"),
                      hemisphere={"side": "east"}.get(c["what"], "upper"))
            kp.simulations.KikuchiPatternSimulator(ref).calculate_master_pattern(2, **kw)
    except Exception as e:
        error = type(e).__name__
    return [dict(op="refused", error=error, want=c.get("error", "ValueError"), key=dict(what=c["what"]))]


def hkls(rng, n, most=2):
    out = []
    while len(out) < n:
        v = [rng.randint(-most, most) for _ in range(3)]
        if any(v) and v not in out:
            out.append(v)
    return out


def run(ctx):
    preload()
    import kikuchipy.simulations  # noqa: F401

    ctx.mc("MCBandSum", """
SPECIFICATION Spec
CONSTANT Threads = {0, 1}
CONSTANT Pixels = {0, 1, 2}
CONSTANT Bands = %s
CONSTANT In <- InMost
CONSTANT Owner <- ByPixel
INVARIANT Sums
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % ctx.n("{0, 1, 2}", "{0, 1, 2, 3, 4}"))
    models = ctx.mc("MCGeometricalSim", """
SPECIFICATION Spec
CONSTANT Indices <- %s
CONSTANT MaxBands = %d
CONSTANT Turns <- Turns2
INVARIANTS OneOfOpposites OnTraces Opposites Lengths Emit
CHECK_DEADLOCK FALSE
""" % (ctx.n("Index2", "Index3"), 3), expect_cases=True)
    rng = ctx.rng
    cases = []
    rng.shuffle(models)
    for m in models[: ctx.n(40, 400)]:
        cases.append(dict(kind="detector", lattice="cubic", hkl=m["list"], turns=m["pats"], nav=[2],
                          pcs=[[rng.randint(1, 9), rng.randint(1, 9), rng.randint(3, 12)]
                               for _ in range(rng.choice([1, 2]))],
                          sig=rng.choice([[6, 6], [5, 8], [9, 4]]),
                          angles=[[0, 1, 1], [1, 0, 1], [1, 0, 1], [1, 0, 1]],
                          seed=rng.randrange(1 << 30)))
    for _ in range(ctx.n(60, 700)):
        nav = rng.choice([[1], [1], [3], [2], [2, 2], [1, 3], [3, 1], [2, 3], [1, 1]])
        n = int(np.prod(nav))
        angles = [rng.choice(RIGHT + RATIONAL[:4]) for _ in range(2)] + \
                 [rng.choice(RIGHT[:1] * 2 + RATIONAL[:4]) for _ in range(2)]
        cases.append(dict(
            kind="detector", lattice=rng.choice(list(LATTICES)),
            hkl=hkls(rng, rng.randint(1, 6), rng.choice([1, 2])),
            turns=[[rng.randint(-2, 2) for _ in range(3)] + [rng.choice([1, 2, -1])]
                   for _ in range(n)],
            nav=nav, pcs=[[rng.randint(1, 9), rng.randint(1, 9), rng.randint(3, 12)]
                          for _ in range(n if rng.random() < 0.5 else 1)],
            sig=rng.choice([[6, 6], [5, 8], [9, 4], [20, 15], [2, 3], [12, 20]]),
            angles=angles, seed=rng.randrange(1 << 30)))
    for k in range(ctx.n(18, 150)):
        cases.append(dict(kind="master", lattice=rng.choice(list(LATTICES)),
                          hkl=hkls(rng, rng.randint(1, 7)), half=rng.choice([1, 2, 3, 5, 6]),
                          hemisphere=["upper", "lower", "both"][k % 3],
                          scaling=rng.choice(["linear", "square", None]),
                          seed=rng.randrange(1 << 30)))
    for k in range(ctx.n(48, 500)):
        h = hkls(rng, rng.randint(1, 4))
        h += [[-a for a in v] for v in h if rng.random() < 0.7 and [-a for a in v] not in h]
        rng.shuffle(h)
        cases.append(dict(kind="circles", lattice=rng.choice(list(LATTICES)), hkl=h,
                          how=["stereographic", "matplotlib", "stereographic", "pyvista"][k % 4],
                          mode=rng.choice(["lines", "bands"]),
                          hemisphere=rng.choice(["upper", "lower", "both"]),
                          scaling=rng.choice(["linear", "square", None]),
                          color=rng.choice(["k", "r", "phase"]), seed=rng.randrange(1 << 30)))
    for _ in range(ctx.n(2, 10)):
        cases.append(dict(kind="schedule", lattice=rng.choice(list(LATTICES)),
                          hkl=hkls(rng, 60, 3), half=ctx.n(60, 120), threads=[2, 8, 8, 8, 3],
                          seed=rng.randrange(1 << 30)))
    for pcshape, nav in [((2,), (3,)), ((2,), (1,)), ((2, 3), (3, 2)), ((3,), (1, 3)),
                         ((2, 3), (6,)), ((1, 1), (1,))]:
        cases.append(dict(kind="refused", what="shapes", lattice="cubic", hkl=[[1, 1, 1]],
                          pcshape=list(pcshape), nav=list(nav)))
    for what in ("theta", "factor", "scaling", "side"):
        error = "UnknownHemisphereError" if what == "side" else "ValueError"
        cases.append(dict(kind="refused", what=what, error=error, lattice="cubic", hkl=[[1, 1, 1], [2, 0, 0]]))
    ctx.sample(*cases[::40])
    ctx.judge("TraceGeometricalSim", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "Lattices are cubic, orthorhombic or monoclinic with integer vectors, Miller indices up to "
        "two, tilts with rational sines and cosines, orientations from integer quaternions.",
        "Bands and zone axes within 0.2 % of the gnomonic circle around the detector may be in or "
        "out; coordinates are compared to about 3/1000 of a pixel per pixel.",
        "Structure factors and Bragg angles are diffsims'.",
    ]
