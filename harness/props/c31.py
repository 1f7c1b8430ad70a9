"""C31: plots of detectors, projection centers, map positions and navigators."""
import contextlib
import io

import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload
from harness.props.c20 import RATIONAL, RIGHT, degrees

TANGENTS = [[1, 1], [3, 4], [4, 3], [5, 12], [12, 5]]


def case_run(c):
    import matplotlib

    matplotlib.use("template", force=True)
    import matplotlib.pyplot as plt

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return [globals()["do_" + c["kind"]](kikuchipy(), plt, c)]
        finally:
            plt.close("all")


def detector(kp, c):
    pc = np.array(c["pcs"]) / 10
    if len(pc) > 1:
        pc = pc.reshape(tuple(c["nav"]) + (3,))
    return kp.detectors.EBSDDetector(
        shape=tuple(c["sig"]), pc=pc, px_size=c["px"], binning=c["binning"],
        sample_tilt=degrees(c["sample"]), tilt=degrees(c["tilt"]),
        azimuthal=degrees(c["azimuthal"]), twist=c["twist"])


def borders(im):
    """Left, right, top and bottom, where top is the border of the first row."""
    x0, x1, y0, y1 = im.get_extent()
    return [x0, x1] + ([y1, y0] if im.origin == "upper" else [y0, y1])


def marks(ax):
    return [[x for x in o] for k in ax.collections if str(k.get_label()).startswith("_pc")
            for o in k.get_offsets()]


def rectangles(ax):
    return [p for p in ax.get_children() if type(p).__name__ == "Rectangle" and p is not ax.patch]


def do_screen(kp, plt, c):
    det = detector(kp, c)
    pat = np.random.default_rng(c["seed"]).random(tuple(c["sig"])) if c["pattern"] else None
    kw = {}
    if c["angles"]:
        kw = dict(draw_gnomonic_circles=True,
                  gnomonic_angles=[float(np.rad2deg(np.arctan2(*t))) for t in c["angles"]])
    ax = det.plot(coordinates=c["coordinates"], show_pc=c["show"], pattern=pat, zoom=c["zoom"],
                  return_figure=True, **kw).axes[0]
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    circles = [p for p in ax.patches if hasattr(p, "radius")]
    same = True
    if pat is not None:
        same = len(ax.images) == 1 and np.array_equal(ax.images[0].get_array(), pat)
        border = borders(ax.images[0])
    else:
        r, = rectangles(ax)
        b = sorted([r.get_y(), r.get_y() + r.get_height()], reverse=y1 > y0)
        border = [r.get_x(), r.get_x() + r.get_width()] + b
    s = 1000 if c["coordinates"] == "pixel" else 10000
    return dict(op="screen", key=c["coordinates"], sig=c["sig"], pcs=c["pcs"], zoom=c["zoom"],
                coordinates=c["coordinates"], show=c["show"], limits=[q(k, 10000) for k in
                                                                      (x0, x1, y1, y0)],
                border=[q(k, 10000) for k in border], same=bool(same), angles=c["angles"],
                marks=[[q(x, s * (10 if s == 1000 else 1)) for x in m] for m in marks(ax)],
                circles=[[q(v, 10000) for v in list(p.get_center()) + [p.radius]]
                         for p in circles])


def do_view(kp, plt, c):
    det = detector(kp, c)
    if c["own_axis"]:
        _, ax = plt.subplots()
        getattr(det, f"plot_{c['view']}_view")(ax=ax, legend=c["legend"])
    else:
        ax = getattr(det, f"plot_{c['view']}_view")(return_figure=True,
                                                    dimensionless=c["legend"]).axes[0]
    n = c["tilt"][2] * c["azimuthal"][2]
    s = 1000 / (c["px"] * c["binning"]) * 10 * n

    def enc(points):
        return [[q(v, s) for v in p] for p in np.asarray(points, float)]

    if c["view"] == "side":
        named = {x.get_label(): x.get_xydata() for x in ax.lines}
        screen, line = named["Detector"], named["Sample"]
        extent = line[1] - line[0]
        source = [a.xy for a in ax.texts if hasattr(a, "arrow_patch")][:1]
    else:
        named = {p.get_label(): p.get_xy() for p in ax.patches}
        screen = named["Detector"][:4]
        extent = np.ptp(named["Sample"], axis=0)
        source = [k.get_offsets()[0] for k in ax.collections if k.get_label() == "Beam"][:1]
    return dict(op="view", key=c["view"], view=c["view"], sig=c["sig"], pcs=c["pcs"], n=n,
                tilt=c["tilt"], azimuthal=c["azimuthal"], sample=c["sample"],
                screen=enc(screen), extent=enc([extent])[0], source=enc(source)[0],
                marks=enc(marks(ax)), xleft=bool(np.subtract(*ax.get_xlim()) > 0),
                yup=bool(np.subtract(*ax.get_ylim()) < 0))


def do_centers(kp, plt, c):
    pc = np.array(c["pcs"]) / 1000
    det = kp.detectors.EBSDDetector(shape=(6, 9), pc=pc.reshape(tuple(c["nav"]) + (3,)))
    ax = det.plot_pc(mode=c["mode"], return_figure=True, orientation=c["orientation"],
                     annotate=c["annotate"]).axes
    rec = dict(op="centers", key=c["mode"], mode=c["mode"], nav=c["nav"], pcs=c["pcs"],
               annotate=c["annotate"])

    def enc(a):
        return q(a, 1000) if np.ndim(a) == 0 else [enc(x) for x in a]

    if c["mode"] == "map":
        ims = [a for a in ax if a.images and a.get_xlabel() == "Column"]
        rec.update(images=[enc(np.ravel(a.images[0].get_array())) for a in ims],
                   shapes=[list(a.images[0].get_array().shape) for a in ims],
                   labels=[a.images[0].colorbar.ax.get_ylabel() for a in ims])
    elif c["mode"] == "scatter":
        rec.update(points=[enc(a.collections[0].get_offsets()) for a in ax],
                   labels=[[a.get_xlabel(), a.get_ylabel()] for a in ax],
                   colours=[[int(x) for x in a.collections[0].get_array()] for a in ax],
                   numbers=[[int(t.get_text()) for t in a.texts] for a in ax],
                   at=[enc([t.get_position() for t in a.texts]) for a in ax])
    else:
        a = ax[0]
        rec.update(points=enc(np.stack(a.collections[0]._offsets3d, 1)),
                   labels=[a.get_xlabel(), a.get_ylabel(), a.get_zlabel()],
                   numbers=[int(t.get_text()) for t in a.texts],
                   at=enc([t.get_position_3d() for t in a.texts]))
    return rec


def do_map(kp, plt, c):
    rng = np.random.default_rng(c["seed"])
    rc = np.array(c["rc"])
    kept = rc.copy()
    kw = {}
    roi, area = rng.random(tuple(c["roi"])), None
    if c["roiimage"]:
        kw["roi_image"] = roi
    if c["area"]:
        kw["area_shape"] = tuple(c["area"])
        if c["areaimage"]:
            area = kw["area_image"] = rng.random(tuple(c["area"]))
    if c["axis"]:
        kw["axis"] = plt.subplots()[1]
    if c["origin"] != [0, 0] or c["seed"] % 2:
        kw["roi_origin"] = tuple(c["origin"])
    ax = kp.draw.plot_pattern_positions_in_map(rc=rc, roi_shape=tuple(c["roi"]),
                                               return_figure=True, **kw).axes[0]
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    want = ([area] if area is not None else []) + ([roi] if c["roiimage"] else [])
    images, same = [], True
    for im, w in zip(ax.images, want):
        b = borders(im)
        a = np.asarray(im.get_array())
        if b[2] > b[3]:
            b[2:], a = b[:1:-1], a[::-1]
        images.append([int(round(k)) for k in b])
        same = same and np.array_equal(a, w)
    texts = [t for t in ax.texts if t.get_text().isdigit()]

    def ints(p):
        return [int(round(float(x))) for x in p]

    return dict(op="map", key="axis" if c["axis"] else "new", rc=c["rc"], origin=c["origin"],
                roi=c["roi"], area=c["area"] or [], axis=c["axis"], roiimage=c["roiimage"],
                areaimage=c["areaimage"],
                points=[ints(o) for k in ax.collections for o in k.get_offsets()],
                numbers=[int(t.get_text()) for t in texts],
                at=[ints(t.get_position()) for t in texts],
                limits=ints((x0, x1, y0, y1)), images=images, same=bool(same),
                rects=[ints((p.get_x(), p.get_y(), p.get_width(), p.get_height()))
                       for p in rectangles(ax)],
                kept=bool(np.array_equal(rc, kept)))


def do_rgb(kp, plt, c):
    im = np.array(c["image"]).reshape(tuple(c["shape"]) + (3,)).astype(c["dtype"])
    kw = {} if c["full"] == 65535 and c["default"] else \
        dict(dtype={255: "uint8", 65535: "uint16"}[c["full"]])
    s = kp.draw.get_rgb_navigator(im * c["scale"], **kw)
    d = s.data
    return dict(op="rgb", key=str(s.data.dtype)[:4], image=c["image"], full=c["full"],
                out=[int(p[k]) for p in d.ravel() for k in "RGB"],
                type="rgb8" if d.dtype["R"] == np.uint8 else "rgb16", shape=list(d.shape),
                given=c["shape"])


def run(ctx):
    preload()
    import kikuchipy.draw  # noqa: F401

    rng = ctx.rng
    angles = RIGHT[:3] + RATIONAL
    ctx.mc("MCDetectorPlots",
           "SPECIFICATION Spec\nCONSTANTS Angles <- A Sizes <- Z PCs <- P\n"
           "INVARIANTS Rigid Corners Facing\nCHECK_DEADLOCK FALSE\n")
    cases = []

    def geometry(k):
        many = rng.choice([None, None, ([2], 2), ([4], 4), ([2, 2], 4), ([1, 2], 2)])
        pc = [rng.randint(-2, 12), rng.randint(-3, 13), rng.randint(1, 12)]
        pcs, nav = [pc], [1]
        if many:
            nav = many[0]
            d = [[1, 0, 1], [-1, 2, -1], [0, -2, 1], [0, 0, -1]][:many[1]]
            if many[1] == 2:
                d = [[1, 2, 1], [-1, -2, -1]]
            pc[2] += 1
            pcs = [[a + b for a, b in zip(pc, x)] for x in d]
        return dict(kind=k, sig=rng.choice([[6, 9], [9, 6], [5, 5], [1, 1], [4, 1], [2, 7]]),
                    pcs=pcs, nav=nav, px=rng.choice([1, 1, 70.0, 59.2]),
                    binning=rng.choice([1, 1, 2, 8]), sample=rng.choice(angles),
                    tilt=rng.choice(angles), azimuthal=rng.choice(angles),
                    twist=rng.choice([0, 0, 12.5]), seed=rng.randrange(1 << 30))

    for _ in range(ctx.n(160, 3000)):
        c = dict(geometry("screen"), coordinates=rng.choice(["pixel", "gnomonic"]),
                 show=rng.random() < 0.8, pattern=rng.random() < 0.5, zoom=rng.choice([1, 1, 2, 3]),
                 angles=[])
        if c["coordinates"] == "gnomonic":
            z = c["pcs"][0][2]
            c["pcs"] = [p[:2] + [z] for p in c["pcs"]]
            c["angles"] = rng.sample(TANGENTS, rng.choice([0, 1, 3]))
        cases.append(c)
    for _ in range(ctx.n(160, 3000)):
        cases.append(dict(geometry("view"), view=rng.choice(["side", "top"]),
                          own_axis=rng.random() < 0.5, legend=rng.random() < 0.3))
    for _ in range(ctx.n(60, 600)):
        nav = rng.choice([[2, 3], [3, 2], [1, 4], [4, 1], [5]])
        n = int(np.prod(nav))
        mode = rng.choice(["map", "scatter", "3d"]) if len(nav) == 2 else \
            rng.choice(["scatter", "3d"])
        cases.append(dict(kind="centers", nav=nav, mode=mode, annotate=rng.random() < 0.5,
                          orientation=rng.choice(["horizontal", "vertical"]),
                          pcs=[[rng.randint(100, 900) for _ in range(3)] for _ in range(n)]))
    for _ in range(ctx.n(80, 1000)):
        roi = [rng.randint(1, 6), rng.randint(1, 6)]
        origin = rng.choice([[0, 0], [rng.randint(0, 4), rng.randint(0, 4)]])
        area = rng.choice([None, [roi[0] + origin[0] + rng.randint(0, 3),
                                  roi[1] + origin[1] + rng.randint(0, 3)]])
        cases.append(dict(kind="map", roi=roi, origin=origin, area=area,
                          rc=[[rng.randint(0, 9), rng.randint(0, 9)]
                              for _ in range(rng.randint(1, 4))],
                          axis=rng.random() < 0.3, roiimage=rng.random() < 0.5,
                          areaimage=rng.random() < 0.5, seed=rng.randrange(1 << 30)))
    for _ in range(ctx.n(40, 400)):
        shape = [rng.randint(1, 4), rng.randint(2, 4)]
        m = rng.choice([1, 3, 5])
        low = rng.choice([0, 0, 2])
        im = [low + rng.randint(0, m) for _ in range(3 * shape[0] * shape[1])]
        im[:2] = [low, low + m]
        rng.shuffle(im)
        dtype = rng.choice(["uint8", "uint16", "float64", "float32"])
        cases.append(dict(kind="rgb", shape=shape, image=im, dtype=dtype,
                          scale=1 if dtype[0] == "u" else rng.choice([1, 0.25]),
                          full=rng.choice([255, 65535]), default=rng.random() < 0.5))
    ctx.sample(*cases[::90])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceDetectorPlots", cases, traces)
    ctx.assumptions += ["artists' coordinates and data are read; nothing is rendered"]
