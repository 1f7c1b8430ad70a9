"""C19: extraction of a grid of patterns."""
import numpy as np

from harness.kp import kikuchipy, layout, lazy, preload, values


def case_run(c):
    kp = kikuchipy()
    from orix.crystal_map import CrystalMap, Phase, PhaseList, create_coordinate_arrays
    from orix.quaternion import Rotation

    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    n = int(np.prod(nav))
    rng = np.random.default_rng(c["seed"])
    data = rng.integers(0, 200, (n,) + sig).astype(c["dtype"])
    data[:, 0, 0] = np.arange(n)  # Each pattern tells where it was
    data = data.reshape(nav + sig)
    kw = {}
    if c["xmap"]:
        co, _ = create_coordinate_arrays(nav, (1.5, 0.5)[: len(nav)])
        ang = np.arange(n) / 200
        kw["xmap"] = CrystalMap(
            rotations=Rotation.from_axes_angles([0, 0, 1], ang), phase_id=np.arange(n) % 2,
            prop={"i": np.arange(n)}, scan_unit="um",
            phase_list=PhaseList([Phase("a", point_group="m-3m"), Phase("b", point_group="6/mmm")]),
            **co)
    if c["pc"] == "per":
        pc = np.zeros(nav + (3,))
        pc[..., 0] = np.arange(n).reshape(nav) / 1000
        pc[..., 1:] = 0.5
    else:
        pc = (0.007, 0.5, 0.5)
    kw["detector"] = kp.detectors.EBSDDetector(shape=sig, pc=pc, sample_tilt=65, tilt=3)
    bg = np.arange(sig[0] * sig[1]).reshape(sig).astype(c["dtype"])
    if c["bg"]:
        kw["static_background"] = bg.copy()
    if c.get("chunks"):
        s = lazy(kp, data.copy(), tuple(c["chunks"]) + sig, **kw)
    else:
        s = kp.signals.EBSD(layout(data.copy(), c["seed"] // 7), **kw)
    for a, sc in zip(s.axes_manager.navigation_axes, (1.5, 0.25)):
        a.scale, a.units = sc, "um"
    for a, sc in zip(s.axes_manager.signal_axes, (70, 80)):
        a.scale, a.units = sc, "nm"

    def axes(x):
        return [[a.size, round(a.scale * 1000), str(a.units)] for a in x]

    def dictionary(s):
        x = s.xmap
        return [axes(s.axes_manager._axes), s.detector.pc.tolist(), s.detector.shape,
                None if x is None else [x.shape, x.prop["i"].tolist(), x.phase_id.tolist()]]

    before = dictionary(s)
    arg = tuple(c["grid"][::-1])
    if len(arg) == 1 and c["bare"]:
        arg = arg[0]
    o, idx = s.extract_grid(arg, return_indices=True)
    d = values(o)
    same = dictionary(s) == before and np.array_equal(values(s), data)
    idx = np.asarray(idx)
    grid = tuple(c["grid"])
    flat = np.ravel_multi_index(tuple(idx), nav)
    rest = np.array_equal(d.reshape((-1,) + sig), data.reshape((n,) + sig)[flat.ravel()])
    start = [int(idx[k].flat[0]) for k in range(len(nav))]
    spacing = []
    for k in range(len(nav)):
        line = np.take(idx[k], 0, axis=1 - k) if len(nav) == 2 else idx[k]
        spacing.append(int(line[1] - line[0]) if line.size > 1
                       else round(o.axes_manager._axes[k].scale / s.axes_manager._axes[k].scale))
    x = o.xmap
    pco = o.detector.pc
    am, am0 = o.axes_manager, s.axes_manager
    shape = list(d.shape[:-2])
    rec = dict(
        op="grid", key="-", nav=list(nav), grid=list(grid), shape=shape,
        idx_shape=list(idx.shape), idx=idx.reshape(len(nav), -1).tolist(), start=start,
        spacing=spacing, pat=d[..., 0, 0].ravel().astype(int).tolist(), rest=bool(rest),
        dtype=str(d.dtype), dtype_in=str(data.dtype), pc_kind=c["pc"],
        pc_shape=list(o.detector.navigation_shape),
        pc=np.rint(pco[..., 0] * 1000).astype(int).ravel().tolist(), xmap_in=c["xmap"],
        xmap=[] if x is None else x.prop["i"].tolist(),
        xmap_phase=[] if x is None else x.phase_id.tolist(),
        xmap_rot=[] if x is None else np.rint(x.rotations.angle.ravel() * 200).astype(int).tolist(),
        xmap_shape=[] if x is None else list(x.shape),
        scales=[round(a.scale * 1000) for a in am._axes[: len(nav)]],
        scales_in=[round(a.scale * 1000) for a in am0._axes[: len(nav)]],
        units=[str(a.units) for a in am._axes[: len(nav)]],
        units_in=[str(a.units) for a in am0._axes[: len(nav)]],
        sig_axes=axes(am.signal_axes), sig_axes_in=axes(am0.signal_axes),
        bg=o.static_background.ravel().astype(int).tolist() if o.static_background is not None else [],
        bg_in=bg.ravel().astype(int).tolist() if c["bg"] else [],
        lazy=bool(c.get("chunks")), lazy_out=bool(o._lazy), same=bool(same))
    return [rec]


def run(ctx):
    preload()
    rng = ctx.rng
    N = ctx.n(9, 14)
    model = ctx.mc("MCGridExtraction",
                   f"SPECIFICATION Spec\nCONSTANTS MaxN = {N}\n"
                   "INVARIANTS InMap Distinct Possible Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=N * (N + 1) // 2)
    cases = []

    def add(axes):
        c = dict(seed=rng.randrange(1 << 30), nav=[a[0] for a in axes], grid=[a[1] for a in axes],
                 sig=rng.choice([[1, 2], [2, 2], [2, 3]]), dtype=rng.choice(["uint8", "uint16", "float32"]),
                 xmap=rng.random() < 0.8, pc=rng.choice(["per", "per", "one"]), bg=rng.random() < 0.5,
                 bare=rng.random() < 0.5)
        if np.prod(c["nav"]) > 255:
            c["dtype"] = "uint16"
        if rng.random() < 0.4:
            c["chunks"] = [rng.randint(1, k) for k in c["nav"]]
        cases.append(c)

    for m in model:
        a = (m["n"], m["g"])
        o = rng.choice(model)
        b = (o["n"], o["g"])
        add([a])
        add([a, b] if rng.random() < 0.5 else [b, a])
    for _ in range(ctx.n(30, 500)):
        ax = []
        for k in range(rng.choice([1, 2, 2])):
            m = rng.randint(1, 30)
            ax.append((m, rng.randint(1, m)))
        add(ax)
    ctx.sample(*cases[::40])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceGridExtraction", cases, traces)
    ctx.assumptions += ["for an axis with a single grid point the spacing is read off the new step size"]
