"""C27: calibration of the projection center from a moving screen."""
import warnings

import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload


def case_run(c):
    kp = kikuchipy()
    warnings.simplefilter("ignore")
    ny, nx = c["shape"]
    rng = np.random.default_rng(c["seed"])
    near = np.array(c["near"]) / 2
    far = np.array(c["far"]) / 2
    pats = [rng.integers(0, 255, (ny, nx)).astype(np.uint8) for _ in range(2)]
    if c["form"] == "list":
        pin, pout = [tuple(p) for p in near.tolist()], [tuple(p) for p in far.tolist()]
    else:
        pin, pout = near.copy(), far.copy()
    keep = [p.copy() for p in pats]
    kw = {}
    scale = 1.0
    if c["px"] is not None:
        kw["px_size"] = c["px"]
        scale = ny * c["px"]
        if c["binning"] is not None:
            kw["binning"] = c["binning"]
            scale *= c["binning"]
    if c["delta"] is not None:
        kw["delta_z"] = c["delta"]
    delta = 1.0 if c["delta"] is None else c["delta"]
    if c["convention"] is not None:
        kw["convention"] = c["convention"]
    m = kp.detectors.PCCalibrationMovingScreen(*pats, pin, pout, **kw)
    if c["remake"]:
        m.make_lines()
    same = (all(np.array_equal(a, b) for a, b in zip(keep, m.patterns))
            and all(np.array_equal(a, b) for a, b in zip(keep, pats))
            and np.array_equal(np.array(pin, float), near) and np.array_equal(np.array(pout, float), far)
            and tuple(m.shape) == (ny, nx) == (m.nrows, m.ncols)
            and np.array_equal(m.lines_start, m.lines[..., :2])
            and np.array_equal(m.lines_end, m.lines[..., 2:])
            and np.array_equal(m.lines_out_in_start, m.lines_out_in[:, :2])
            and np.array_equal(m.lines_out_in_end, m.lines_out_in[:, 2:]))
    pc = m.pc_all
    true = [0, 0, 0]
    if c["exact"]:
        x, y = c["center"][0] / 2 / nx, c["center"][1] / 2 / ny
        z = delta * c["d"] / (c["e"] - c["d"]) / scale
        true = [q(x, 100000), q(y if c["convention"] == "bruker" else 1 - y, 100000), q(z, 100000)]
    half = lambda a: [[q(v, 2) for v in row] for row in np.asarray(a)]
    pc_mean, xy_mean = (m.pc, m.pxy) if len(pc) else ([0, 0, 0], [0, 0])
    cut = lambda v: q(min(max(v, -9000), 9000), 100000)
    return [dict(
        op="moving", near=c["near"], far=c["far"], shape=[ny, nx],
        convention=c["convention"] or "tsl", points=int(m.n_points), nlines=int(m.n_lines),
        lines=[half(v) for v in m.lines],
        lengths=[[q(2 * v, 100) for v in row] for row in m.line_lengths], outin=half(m.lines_out_in),
        within=[bool(b) for b in m.pxy_within_detector],
        pxy=[[q(v, 1000) for v in row] for row in m.pxy_all],
        pc=[[cut(v) for v in row] for row in pc],
        grow=[q(1 + delta / (row[2] * scale), 10000) for row in pc],
        mean=[cut(v) for v in pc_mean],
        meanxy=[q(v, 1000) for v in xy_mean],
        big=bool(np.abs(pc).max(initial=0) > 20), exact=bool(c["exact"]), true=true, same=bool(same),
        key=dict(shape=c["shape"], near=c["near"], far=c["far"], convention=str(c["convention"])))]


def case_drawn(c):
    """The figure of a calibration, with its numbers."""
    import matplotlib

    matplotlib.use("template", force=True)
    import matplotlib.pyplot as plt

    rec, = case_run(c)
    kp = kikuchipy()
    ny, nx = c["shape"]
    rng = np.random.default_rng(c["seed"])
    pats = [rng.integers(0, 255, (ny, nx)).astype(np.uint8) for _ in range(2)]
    m = kp.detectors.PCCalibrationMovingScreen(*pats, np.array(c["near"]) / 2,
                                               np.array(c["far"]) / 2)
    kw = {}
    if c["remake"]:
        kw = dict(pc_kwargs=dict(s=50), scatter_kwargs=dict(s=9), line_kwargs=dict(lw=3),
                  pattern_kwargs=dict(cmap="viridis"), figsize=(9, 3))
    try:
        axes = m.plot(return_figure=True, **kw).axes
        none = m.plot() is None
        lines = [[np.r_[k.get_xy1(), k.get_xy2()] for k in a.lines] for a in axes]
        points = [[np.asarray(k.get_offsets()) for k in a.collections] for a in axes]
        images = [np.array_equal(a.images[0].get_array(), p) for a, p in zip(axes, pats)]
        spans = [tuple(a.images[0].get_array().shape) == (ny, nx) and len(a.images) == 1
                 for a in axes]
    finally:
        plt.close("all")
    return [rec, dict(op="drawn", near=c["near"], far=c["far"],
                      lines=[[[q(v, 2) for v in k] for k in a] for a in lines],
                      points=[[[[q(v, 1000) for v in p] for p in k] for k in a] for a in points],
                      pxy=[[q(v, 1000) for v in row] for row in m.pxy_all],
                      mean=[q(v, 1000) for v in m.pxy], images=bool(all(images) and all(spans)),
                      none=bool(none), key=rec["key"])]


def case_run_any(c):
    return case_drawn(c) if c.get("drawn") else case_run(c)


def make(ctx, states):
    out = []
    r = np.random.default_rng(ctx.rng.randrange(1 << 30))
    conv = [None, "tsl", "bruker"]

    def rest(k):
        return dict(seed=int(r.integers(1 << 30)), convention=conv[k % 3],
                    form=["list", "array"][k % 2], px=[None, 0.04, 0.05][r.integers(3)],
                    binning=[None, 2, 4][r.integers(3)], delta=[None, 1.0, 2.5, 0.5][r.integers(4)],
                    remake=k % 5 == 0)

    # Behaviours of the model
    for k, s in enumerate(states):
        out.append(dict(near=s["near"], far=s["far"], d=s["d"], e=s["e"], exact=True,
                        center=[31, 23], shape=[[30, 40], [40, 30], [32, 32]][k % 3], **rest(k)))
    # Features not picked exactly
    for k in range(ctx.n(80, 1500)):
        n = int(r.integers(2, 6))
        ny, nx = (int(v) for v in r.integers(20, 60, 2))
        center = np.array([r.integers(1, 2 * nx), r.integers(1, 2 * ny)])
        v = {tuple(int(x) for x in r.integers(-12, 13, 2)) for _ in range(n)}
        v = np.array(sorted(v))
        r.shuffle(v)
        a, b = (2, 3) if k % 2 else (3, 4)
        near = center + a * v + r.integers(-1, 2, v.shape) * (k % 3 > 0)
        far = center + b * v + r.integers(-1, 2, v.shape) * (k % 3 > 0)
        if min(len({tuple(p) for p in x.tolist()}) for x in (near, far)) < n:
            continue
        out.append(dict(near=near.tolist(), far=far.tolist(), exact=False, shape=[ny, nx],
                        **rest(k)))
    return out


def run(ctx):
    preload("detectors")
    states = ctx.mc("MCMovingScreen", """
SPECIFICATION Spec
CONSTANT Offsets <- Offsets2
CONSTANT PC <- Center
CONSTANT Distances = {2, 3, 5}
CONSTANT MaxFeatures = %d
INVARIANTS Agree Count Emit
CHECK_DEADLOCK FALSE
""" % ctx.n(2, 3), expect_cases=True)
    ctx.rng.shuffle(states)
    cases = make(ctx, states[: ctx.n(200, 4000)])
    for c in cases[:: ctx.n(5, 20)]:
        c["drawn"] = True
    ctx.sample(*cases[::60])
    ctx.judge("TraceMovingScreen", cases, ctx.observe(case_run_any, cases))
    ctx.assumptions += [
        "Features are at halves of a pixel.",
        "Intersections exactly on the border of the detector may be kept or not.",
    ]
