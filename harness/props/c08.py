"""C08: projection center conventions and detector geometry."""
import numpy as np

from harness.core import q
from harness.detector import ALIASES, GETTERS, same_attrs, snapshot
from harness.kp import kikuchipy, preload


def case_run(c):
    kp = kikuchipy()
    Det = kp.detectors.EBSDDetector
    if c["op"] == "frame":
        a = c["ang"]  # sample tilt, tilt, azimuthal, twist in 1 / 100 degrees

        def mat(*ang):
            d = Det(shape=(2, 3), sample_tilt=ang[0] / 100, tilt=ang[1] / 100,
                    azimuthal=ang[2] / 100, twist=ang[3] / 100)
            return d, d.sample_to_detector.to_matrix().reshape(3, 3)

        d, m = mat(*a)
        return [dict(op="frame", key="-", ang=a, m=q(m, 10000),
                     quarter=all(x % 9000 == 0 for x in a), k=[x // 9000 for x in a],
                     m_shift=q(mat(a[0] + 1234, a[1] + 1234, *a[2:])[1], 10000),
                     m_untwisted=q(mat(*a[:3], 0)[1], 10000), euler=q(d.euler, 100))]

    rng = np.random.default_rng(c["seed"])
    nav = tuple(c["nav"])
    n = int(np.prod(nav))
    P, E = np.array(c["P"]), np.array(c["E"])
    kw = dict(shape=tuple(c["shape"]), px_size=c["d"] / 10, binning=c["b"] / 10)
    d = Det(pc=(P / 100).reshape(nav + (3,)), **kw)
    was = snapshot(d)
    rec = dict(op="geometry", key="-", P=P.tolist(), E=E.tolist(), nav=list(nav),
               shape=c["shape"], b=c["b"], d=c["d"])

    def flat(x, scale):
        return q(np.asarray(x).reshape(n, 3), scale)

    rec["bruker"] = flat(d.pc_bruker(), 100000)
    rec["tsl"] = flat(d.pc_tsl(), 100000)
    rec["oxford"] = flat(d.pc_oxford(), 100000)
    for v in (5, 4):
        e = np.asarray(d.pc_emsoft(v)).reshape(n, 3)
        rec[f"emsoft{v}"] = [q(x[:2], 1000) + [q(x[2], 100)] for x in e]
    for conv in ("tsl", "oxford"):
        rec["from_" + conv] = flat(
            Det(pc=(P / 100).reshape(nav + (3,)), convention=conv, **kw).pc, 100000)
    em = E * np.array([0.01, 0.01, 1.0])
    for v in (5, 4):
        rec[f"from_emsoft{v}"] = flat(
            Det(pc=em.reshape(nav + (3,)), convention=f"emsoft{v}", **kw).pc, 100000)
    rec["back"] = {}
    alike = True
    for conv, names in ALIASES.items():
        pc = GETTERS[conv](d)
        got = [Det(pc=pc, convention=m, **same_attrs(d)).pc for m in names]
        rec["back"][conv] = flat(got[0], 100000)
        alike &= all(np.allclose(g, got[0], atol=1e-9) for g in got)
    rec["aliases"] = bool(alike)

    gb = d.gnomonic_bounds
    shapes = all(np.shape(getattr(d, a)) == nav for a in ("x_min", "x_max", "y_min", "y_max",
                                                          "x_scale", "y_scale"))
    rec["ranges"] = bool(
        shapes and gb.shape == nav + (4,)
        and np.array_equal(d.x_range, np.stack((d.x_min, d.x_max), -1))
        and np.array_equal(d.y_range, np.stack((d.y_min, d.y_max), -1))
        and np.array_equal(gb, np.concatenate((d.x_range, d.y_range), -1)))
    rec["gb"] = q(gb.reshape(n, 4), 10000)
    rec["gb3"] = q(gb.reshape(n, 4), 1000)
    rec["scale"] = q(np.stack((d.x_scale, d.y_scale), -1).reshape(n, 2), 10000)
    rec["rmax"] = q(np.asarray(d.r_max).reshape(n), 1000)
    px, gn = np.array(c["px"]), np.array(c["gn"])
    to_gn = d.to_gnomonic_coords(px / 10)
    rec["px"], rec["gn"] = px.tolist(), gn.tolist()
    rec["to_gn"] = q(to_gn.reshape(n, len(px), 2), 10000)
    to_px = d.to_pixel_coords(gn / 100)
    rec["to_px"] = q(to_px.reshape(n, len(gn), 2), 1000)
    rec["round"] = q(d.to_pixel_coords(to_gn).reshape(n, len(px), 2), 1000)
    # One position at a time
    idx = tuple(int(rng.integers(k)) for k in nav)
    pos = [idx] if len(nav) == 2 else [idx, idx[0], np.int64(idx[0])]
    rec["one_pos"] = bool(
        all(np.allclose(d.to_gnomonic_coords(px / 10, p), to_gn[idx], atol=1e-9)
            and np.allclose(d.to_pixel_coords(gn / 100, p), to_px[idx], atol=1e-9)
            for p in pos))
    rec.update(bounds=np.asarray(d.bounds).tolist(),
               counts=[d.nrows, d.ncols, d.size, d.navigation_dimension, d.navigation_size],
               aspect=q(d.aspect_ratio, 10000), height=q(d.height, 100), width=q(d.width, 100),
               pxb=q(d.px_size_binned, 100),
               ssd=q(np.asarray(d.specimen_scintillator_distance).reshape(n), 100),
               avg=q(d.pc_average, 100000))
    rec["same"] = snapshot(d) == was
    return [rec]


def run(ctx):
    preload("kikuchipy.detectors")
    rng = ctx.rng
    model = ctx.mc("MCDetector",
                   "SPECIFICATION Spec\nCONSTANTS MaxN = %d MaxH = 2 Convs = {\"tsl\"}\n"
                   "INVARIANTS TypeOK SamePoint Inside Emit\nCHECK_DEADLOCK FALSE\n" % ctx.n(3, 4),
                   expect_cases=50)
    cases = []

    def geometry(shape):
        nav = rng.choice([[1], [rng.randint(2, 5)], [rng.randint(1, 3), rng.randint(1, 3)]])
        n = int(np.prod(nav))
        b = rng.choice([10, 10, 20, 40, 80, 25])
        d = rng.choice([10, 10, 15, 100, 70])
        cases.append(dict(
            op="geometry", seed=rng.randrange(1 << 30), nav=nav, shape=list(shape), b=b, d=d,
            P=[[rng.randint(-20, 120), rng.randint(-20, 120), rng.randint(30, 150)]
               for _ in range(n)],
            E=[[rng.randint(-40 * shape[1] * b // 10, 40 * shape[1] * b // 10),
                rng.randint(-40 * shape[0] * b // 10, 40 * shape[0] * b // 10),
                rng.randint(max(1, shape[0] * b * d // 300), max(2, shape[0] * b * d // 70))]
               for _ in range(n)],
            px=[[rng.randint(-20, 10 * k + 20) for k in shape] for _ in range(3)],
            gn=[[rng.randint(-250, 250) for _ in range(2)] for _ in range(3)]))

    for shape in sorted({(m["h"][0]["ny"], m["h"][0]["nx"]) for m in model}):
        for _ in range(ctx.n(3, 10)):
            geometry(shape)
    for _ in range(ctx.n(120, 2500)):
        ny = rng.randint(1, 60)
        geometry((ny, rng.randint(max(1, ny // 3), min(60, 3 * ny))))
    for _ in range(ctx.n(80, 600)):
        cases.append(dict(op="frame", ang=[9000 * rng.randint(-2, 2) for _ in range(4)]))
        cases.append(dict(op="frame", ang=[rng.randint(-9000, 9000), rng.randint(-6000, 6000),
                                           rng.choice([0, rng.randint(-6000, 6000)]),
                                           rng.choice([0, rng.randint(-6000, 6000)])]))
    ctx.sample(*cases[::80])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceDetector", cases, traces)
    ctx.assumptions += [
        "projection centers in hundredths of the detector, at least 0.3 detector heights away; "
        "shapes up to 60 pixels with aspect ratios up to 3",
        "the sense of the detector's rotations is decided for multiples of 90 degrees"]
