"""C18: virtual backscatter electron images."""
import numpy as np

from harness.core import q
from harness.kp import kikuchipy, layout, lazy, preload, values

TOL = {"uint8": 1, "uint16": 3}


def make(kp, c, data):
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    data = np.asarray(data).astype(c["dtype"]).reshape(nav + sig)
    if c.get("chunks"):
        s = lazy(kp, data.copy(), tuple(c["chunks"][: len(nav)]) + sig)
    else:
        s = kp.signals.EBSD(layout(data.copy(), c.get("seed", 0) // 7))
    for a, (sc, of) in zip(s.axes_manager.signal_axes, c["sig_axes"]):
        a.scale, a.offset = sc, of
    for a, sc in zip(s.axes_manager.navigation_axes, (1.5, 0.25)):
        a.scale, a.units = sc, "um"
    return s, data


def axes(am_axes):
    return [[a.size, round(a.scale * 1000), str(a.units)] for a in am_axes]


def map_axes(s):
    return axes(s.axes_manager.navigation_axes)


def image_axes(im, nd):
    return axes(im.axes_manager.signal_axes[:nd])


def case_run(c):
    kp = kikuchipy()
    import hyperspy.api as hs

    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    nd = len(nav)
    sy, sx = sig
    N = sy * sx
    n = int(np.prod(nav))
    P = rng.integers(0, c["hi"] + 1, (n, N))
    s, data = make(kp, c, P)
    base = dict(key="-", sy=sy, sx=sx, nav=list(nav), P=P.tolist(), nav_axes=map_axes(s),
                lazy=bool(c.get("chunks")))

    def same():
        return bool(np.array_equal(values(s), data))

    def tiles_of(images):
        out, unit = [], True
        for row in images:
            out.append([])
            for im in row:
                im = np.asarray(im).ravel()
                unit &= bool(np.isin(im, (0, 1)).all())
                out[-1].append(sorted(int(perm[i]) for i in np.flatnonzero(im)))
        return out, unit

    recs = []
    if c["op"] == "grid":
        gy, gx = c["grid"]
        # One pattern per detector pixel, in a random order
        perm = rng.permutation(N)
        imp = np.zeros((N, N), int)
        imp[np.arange(N), perm] = 1
        ci = dict(c, nav=[N] if nd == 1 else [sy, sx])
        si, _ = make(kp, ci, imp)
        vi = kp.imaging.VirtualBSEImager(si)
        vi.grid_shape = (gy, gx)
        tiles, unit = tiles_of(vi.get_images_from_grid().data)
        roi_tiles, unit2 = tiles_of(
            [[values(si.get_virtual_bse_intensity(vi.roi_from_grid((i, j))))
              for j in range(gx)] for i in range(gy)])
        v = kp.imaging.VirtualBSEImager(s)
        v.grid_shape = (gy, gx)
        kw = {} if c["dtype_out"] == "float32" else dict(dtype_out=c["dtype_out"])
        im = v.get_images_from_grid(**kw)
        recs.append(dict(
            base, op="grid", gy=gy, gx=gx, tiles=tiles, roi_tiles=roi_tiles,
            unit_weights=unit and unit2, img=q(im.data.reshape(gy, gx, n), 1),
            img_shape=list(im.data.shape), img_axes=image_axes(im, nd),
            img_dtype=str(im.data.dtype), dtype_out=c["dtype_out"], img_lazy=bool(im._lazy),
            same=same()))
        recs.append(drawn(v, s, data, c, rng))
    elif c["op"] == "interactive":
        return interactive(hs, s, c, base)
    elif c["op"] == "roi":
        (dc, oc), (dr, orr) = c["sig_axes"]
        if c["kind"] == "rect":
            r0, r1, c0, c1 = c["rect"]
            roi = hs.roi.RectangularROI(left=oc + c0 * dc, right=oc + c1 * dc,
                                        top=orr + r0 * dr, bottom=orr + r1 * dr)
            extra = dict(r0=r0, r1=r1, c0=c0, c1=c1)
        else:
            cy, cx, rad, inner = c["circle"]
            roi = hs.roi.CircleROI(cx * dc + oc, cy * dc + orr, rad * dc, inner * dc)
            # The pixels that the region itself covers, according to HyperSpy
            ref = hs.signals.Signal2D(np.arange(1.0, N + 1).reshape(1, 1, sy, sx))
            for a, (sc, of) in zip(ref.axes_manager.signal_axes, c["sig_axes"]):
                a.scale, a.offset = sc, of
            cut = np.asarray(roi(ref, axes=ref.axes_manager.signal_axes).data).ravel()
            extra = dict(pixels=[int(x) - 1 for x in cut if np.isfinite(x) and x > 0])
        kw = {}
        if c["swap"] and nd == 2:
            kw["out_signal_axes"] = [1, 0]
        im = s.get_virtual_bse_intensity(roi, **kw)
        d = values(im)
        ax = image_axes(im, nd)
        want, wax = list(nav), base["nav_axes"]
        if kw:
            d = d.T
            ax = ax[::-1]
        recs.append(dict(base, op="roi", kind=c["kind"], img=q(d.ravel(), 1),
                         img_shape=list(d.shape), want_shape=want, img_axes=ax,
                         img_lazy=bool(im._lazy), same=same(),
                         img_type=nd == 1 or im._signal_type == "VirtualBSEImage", **extra))
    else:
        gy, gx = c["grid"]
        v = kp.imaging.VirtualBSEImager(s)
        v.grid_shape = (gy, gx)
        ed = [[round(k * sy / gy) for k in range(gy + 1)], [round(k * sx / gx) for k in range(gx + 1)]]
        (dc, oc), (dr, orr) = c["sig_axes"]
        args, ch = [], []
        for spec in c["channels"]:
            one, sets = [], []
            for t in spec:
                if t[0] == "t":
                    i, j = t[1:]
                    rc = (ed[0][i], ed[0][i + 1], ed[1][j], ed[1][j + 1])
                    one.append((i, j))
                else:
                    rc = tuple(t[1:])
                    one.append(hs.roi.RectangularROI(
                        left=oc + rc[2] * dc, right=oc + rc[3] * dc,
                        top=orr + rc[0] * dr, bottom=orr + rc[1] * dr))
                sets.append([y * sx + x for y in range(rc[0], rc[1])
                             for x in range(rc[2], rc[3])])
            args.append(one[0] if len(one) == 1 and c["bare"] else one)
            ch.append(sets)
        kw = dict(normalize=c["normalize"], dtype_out=c["dtype_out"])
        alpha = []
        if c["alpha"]:
            a = rng.integers(0, 5, nav)
            a.flat[0], a.flat[1] = 0, 4
            kw["alpha"] = (hs.signals.Signal2D(a.astype(float)) if c["alpha"] == "signal"
                           else a.astype(float))
            alpha = a.ravel().tolist()
        if c["perc"]:
            kw["percentiles"] = tuple(c["perc"])
        im = v.get_rgb_image(*args, **kw)
        d = np.asarray(im.data)
        rgb = [d[k].ravel().astype(int).tolist() for k in "RGB"]
        recs.append(dict(
            base, op="rgb", ch=ch, rgb=rgb, normalize=c["normalize"], alpha=alpha,
            perc=c["perc"], max=int(np.iinfo(c["dtype_out"]).max), tol=TOL[c["dtype_out"]],
            img_shape=list(d.shape), img_axes=image_axes(im, nd),
            img_dtype=str(d["R"].dtype), dtype_out=c["dtype_out"], same=same()))
    return recs


def drawn(v, s, data, c, rng):
    """The grid drawn on a pattern, in thousandths of a pixel from the first pixel's corner."""
    gy, gx = c["grid"]
    sig, nav = s.axes_manager.signal_axes, s.data.shape[:-2]
    idx = [int(rng.integers(n)) for n in nav]
    colours = [[(int(rng.integers(gy)), int(rng.integers(gx))) for _ in range(rng.integers(1, 3))]
               for _ in range(3)]
    labels = bool(rng.integers(2))
    kw = dict(pattern_idx=tuple(idx[::-1])) if any(idx) else {}
    p = v.plot_grid(rgb_channels=[x[0] if len(x) == 1 else x for x in colours],
                    visible_indices=labels, **kw)

    def pixel(v, k):
        return q((np.asarray(v, float) - sig[k].offset) / sig[k].scale + 0.5, 1000)

    m = p.metadata.Markers.as_dictionary()
    boxes = []
    for name in ("Rectangles", "Rectangles1", "Rectangles2"):
        k = m[name]["kwargs"]
        w, h = float(k["widths"]) / 2, float(k["heights"]) / 2
        boxes.append([[k["ec"]] + [pixel(v, i) for v, i in ((y - h, 1), (y + h, 1), (x - w, 0),
                                                             (x + w, 0))]
                      for x, y in k["offsets"]])
    text = m["Texts"]["kwargs"] if "Texts" in m else dict(offsets=[], texts=[])
    return dict(op="drawn", key="-", sy=c["sig"][0], sx=c["sig"][1], gy=gy, gx=gx,
                rows=pixel(m["HorizontalLines"]["kwargs"]["offsets"], 1),
                cols=pixel(m["VerticalLines"]["kwargs"]["offsets"], 0),
                boxes=[b for x in boxes for b in x], labels=labels,
                colours=[[k, i, j] for k, x in zip("rgb", colours) for i, j in x],
                texts=[[pixel(y, 1), pixel(x, 0)] + [int(k) for k in str(z).strip("()").split(",")]
                       for (x, y), z in zip(text["offsets"], text["texts"])],
                pattern=bool(np.array_equal(values(p), data[tuple(idx)])))


def interactive(hs, s, c, base):
    """The virtual image shown while a region is moved."""
    import contextlib
    import io

    import matplotlib

    matplotlib.use("agg", force=True)
    import matplotlib.pyplot as plt

    (dc, oc), (dr, orr) = c["sig_axes"]

    def edges(r):
        return dict(left=oc + r[2] * dc, right=oc + r[3] * dc, top=orr + r[0] * dr,
                    bottom=orr + r[1] * dr)

    recs = []
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        roi = hs.roi.RectangularROI(**edges(c["regions"][0]))
        s.plot_virtual_bse_intensity(roi)
        for r in c["regions"]:
            e = edges([0, c["sig"][0], 0, c["sig"][1]])
            for bounds in (e, edges(r)):
                for k, v in bounds.items():
                    setattr(roi, k, v)
            shown = []
            for n in plt.get_fignums():
                for ax in plt.figure(n).axes:
                    if "Virtual backscatter" in ax.get_title():
                        plt.figure(n).canvas.draw()
                        shown += [np.asarray(i.get_array()) for i in ax.images]
            img, = [i for i in shown if i.shape == tuple(c["nav"])]
            recs.append(dict(base, op="roi", kind="rect", r0=r[0], r1=r[1], c0=r[2], c1=r[3],
                             img=q(img.ravel(), 1), img_shape=list(img.shape),
                             want_shape=c["nav"], img_axes=base["nav_axes"],
                             img_lazy=base["lazy"], same=True, img_type=True))
        plt.close("all")
    return recs


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCVirtualImaging",
                   f"SPECIFICATION Spec\nCONSTANTS MaxS = {ctx.n(9, 12)}\n"
                   "INVARIANTS TypeOK Covers Disjoint FairSize NonEmpty Emit\n"
                   "CHECK_DEADLOCK FALSE\n", expect_cases=40)
    cases = []

    def add(op, **kw):
        sc = rng.choice([1.0, 1.0, 0.3, 70.0, 2.5])
        c = dict(op=op, seed=rng.randrange(1 << 30), dtype=rng.choice(["uint8", "uint16", "float32"]),
                 hi=9, nav=rng.choice([[rng.randint(1, 4)], [rng.randint(1, 3), rng.randint(1, 3)]]),
                 sig=[rng.randint(2, 6), rng.randint(2, 6)],
                 sig_axes=[[sc, rng.choice([0.0, 0.0, -3 * sc, 7.25 * sc])],
                           [sc, rng.choice([0.0, 0.0, 4 * sc, -1.5 * sc])]],
                 dtype_out="float32")
        c.update(kw)
        if rng.random() < 0.35:
            c["chunks"] = [rng.randint(1, k) for k in c["nav"]]
        cases.append(c)

    one = [m for m in model if m["s"] <= 5]
    for m in model:
        o = rng.choice(one)
        a, b = (m, o) if rng.random() < 0.5 else (o, m)
        add("grid", sig=[a["s"], b["s"]], grid=[a["g"], b["g"]],
            dtype_out=rng.choice(["float32", "float64"]))
    for _ in range(ctx.n(10, 150)):
        sig = [rng.randint(2, 14), rng.randint(2, 6)]
        if rng.random() < 0.5:
            sig.reverse()
        add("grid", sig=sig, grid=[rng.randint(1, k) for k in sig])
    for _ in range(ctx.n(60, 600)):
        sig = [rng.randint(2, 7), rng.randint(2, 7)]
        r0, c0 = (rng.randrange(k) for k in sig)
        kind = rng.choice(["rect", "rect", "circle"])
        kw = dict(sig=sig, kind=kind, swap=rng.random() < 0.2)
        if kind == "rect":
            kw["rect"] = [r0, rng.randint(r0 + 1, sig[0]), c0, rng.randint(c0 + 1, sig[1])]
        else:
            m = min(sig)
            rad = rng.choice([1.2, 1.6, 2.1])
            kw["sig"] = [m + 4, m + 4]
            kw["circle"] = [(m + 3) // 2, (m + 3) // 2, rad, rng.choice([0, 0, 0.7])]
            kw["sig_axes"] = [[1.0, 0.0], [1.0, 0.0]]
        add("roi", **kw)
    for _ in range(ctx.n(60, 500)):
        sig = [rng.choice([4, 6, 8]), rng.choice([4, 6])]
        grid = [rng.choice([1, 2]), rng.choice([1, 2])]

        def region():
            if rng.random() < 0.6:
                return ["t", rng.randrange(grid[0]), rng.randrange(grid[1])]
            r0, c0 = (rng.randrange(k) for k in sig)
            return ["r", r0, rng.randint(r0 + 1, sig[0]), c0, rng.randint(c0 + 1, sig[1])]

        add("rgb", sig=sig, grid=grid, nav=[rng.randint(2, 4), rng.randint(1, 4)],
            channels=[[region() for _ in range(rng.choice([1, 1, 2]))] for _ in range(3)],
            bare=rng.random() < 0.5, normalize=rng.random() < 0.4,
            alpha=rng.choice(["", "", "array", "signal"]),
            perc=rng.choice([[], [], [0, 100], [10, 90], [25, 100]]),
            dtype_out=rng.choice(["uint8", "uint8", "uint16"]), hi=20)
    for _ in range(ctx.n(24, 200)):
        sig = [rng.randint(2, 6), rng.randint(2, 6)]
        regions = []
        for _ in range(3):
            r0, c0 = (rng.randrange(k) for k in sig)
            regions.append([r0, rng.randint(r0 + 1, sig[0]), c0, rng.randint(c0 + 1, sig[1])])
        add("interactive", sig=sig, nav=[rng.randint(2, 4), rng.randint(2, 4)], regions=regions)
    ctx.sample(*cases[::50])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceVirtualImaging", cases, traces)
    ctx.assumptions += [
        "which pixels a circular region covers is HyperSpy's own answer",
        "normalized RGB channels are compared up to an affine map of unclipped intensities"]
