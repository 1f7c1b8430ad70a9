"""C03: lazy, chunked, in-place and eager processing."""
import json
import random

import numpy as np

from harness import catalog, session
from harness.core import q
from harness.kp import kikuchipy, lazy, preload, values


def observe(s, thin=1):
    d = values(s)
    f = d.dtype.kind == "f"
    return dict(data=q(d.reshape((-1, d.shape[-2] * d.shape[-1]))[:, ::thin], 1000 if f else 1),
                digest=catalog.digest(d), dtype=str(d.dtype), shape=list(d.shape),
                lazy=bool(s._lazy), cls=type(s).__name__, attrs=catalog.attributes(s))


def blank(s):
    return dict(data=[], digest="", dtype="", shape=[], lazy=False, cls="", attrs={})


def reference(kp, s, name, p, thin=1):
    """The method on an eager copy, and pattern by pattern if local."""
    e = s.deepcopy()
    if e._lazy:
        e.compute(show_progressbar=False)
    r = observe(catalog.call(kp, e, name, p, inplace=False)
                if name not in catalog.NOT_INPLACE else catalog.call(kp, e, name, p), thin)
    nav = e.data.shape[:-2]
    if catalog.is_local(name, p) and nav:
        rows = []
        for i in np.ndindex(nav):
            kw = dict(static_background=e.static_background) \
                if e.static_background is not None else {}
            one = kp.signals.EBSD(e.data[i].copy(), **kw)
            o = catalog.call(kp, one, name, p, inplace=False) \
                if name not in catalog.NOT_INPLACE else catalog.call(kp, one, name, p)
            rows += observe(o, thin)["data"]
            r["dtype"] = str(o.data.dtype)
        r["data"] = rows
    return r


def build(kp, c):
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    rng = np.random.default_rng(c["seed"])
    data = rng.integers(10, 200, nav + sig)
    for i in np.ndindex(nav):
        data[i].flat[rng.integers(data[i].size)] = 220
        data[i].flat[0] = 3
    data = data.astype(c["dtype"])
    if c["layout"] == "F":
        data = np.asfortranarray(data)
    elif c["layout"] == "strided":
        big = np.zeros(nav + (sig[0] * 2, sig[1]), data.dtype)
        big[..., ::2, :] = data
        data = big[..., ::2, :]
    bg = rng.integers(5, 100, sig)
    bg.flat[1] = 130
    pc = rng.random(nav + (3,)) if nav and c["pcn"] else [0.4, 0.6, 0.5]
    det = kp.detectors.EBSDDetector(shape=sig, pc=pc, sample_tilt=69, tilt=2, binning=2)
    kw = dict(detector=det, static_background=bg.astype(c["dtype"]))
    if nav:
        kw["xmap"] = session.make_map(nav, [1.5, 0.5][: len(nav)])
    if c["lazy"]:
        ch = c["chunks"]
        s = lazy(kp, data, tuple(tuple(x) for x in ch), **kw)
    else:
        s = kp.signals.EBSD(data, **kw)
    for a, sc, nm in zip(s.axes_manager._axes, [1.5, 0.5, 3.0, 3.0][-len(nav) - 2:],
                         ["y", "x", "dy", "dx"][-len(nav) - 2:]):
        a.scale, a.units, a.name, a.offset = sc, "um", nm, 2.0
    s.metadata.General.title = "a title"
    s.metadata.set_item("Sample.note", "kept")
    s.original_metadata.set_item("a.b", 3)
    return s


def case_run(c):
    import dask

    kp = kikuchipy()
    s = build(kp, c)
    rng = random.Random(c["seed"])
    thin = c["thin"]
    recs = [dict(op="start", key="-", self=observe(s, thin))]
    names = list(catalog.METHODS)
    for h in c["hist"]:
        nd = s.axes_manager.navigation_dimension
        sig = list(s.data.shape[-2:])
        for _ in range(200):
            name = c.get("method") or rng.choice(names)
            if name in catalog.NOT_INPLACE and h["inplace"]:
                name = "remove_dynamic_background"
            if name == "average_neighbour_patterns" and nd == 0:
                name = "rescale_intensity"
            p = catalog.METHODS[name][0](rng, sig, s)
            if p is None or (s.data.dtype.kind == "f" and ("in_range" in p or name == "normalize_intensity" and False)):
                continue
            if name == "remove_static_background" and (
                    s.static_background.dtype != s.data.dtype
                    or tuple(s.static_background.shape) != tuple(sig)):
                continue
            if name == "adaptive_histogram_equalization" and s.data.dtype.kind == "f" \
                    and np.abs(values(s)).max() > 1:
                continue
            break
        else:
            break
        ref = reference(kp, s, name, p, thin)
        lo = {"none": None, "true": True, "false": False}[h["lo"]]
        kw = dict(lazy_output=lo)
        if name not in catalog.NOT_INPLACE:
            kw["inplace"] = h["inplace"]
        refused, out = False, None
        try:
            with dask.config.set({"array.chunk-size": c["chunk_size"]}):
                out = catalog.call(kp, s, name, p, **kw)
        except ValueError as e:
            if "lazy_output" not in str(e):
                raise
            refused = True
        tol = 1 if ref["dtype"] != "float64" else 1
        if ref["dtype"] in ("uint16", "int16"):
            tol = 3
        r = dict(op="call", key=name, name=name, params=json.dumps(p), inplace=h["inplace"], lo=h["lo"],
                 take=h["take"] and not refused, refused=refused, returned=out is not None,
                 keeps=name != "downsample", tol=tol, ref=ref, cls="EBSD", lazy_cls="LazyEBSD",
                 self=observe(s, thin), out=observe(out, thin) if out is not None else blank(s))
        recs.append(r)
        if r["take"]:
            s = out
    return recs


def chunking(rng, n):
    cuts = sorted(rng.sample(range(1, n), rng.randint(0, n - 1))) if n > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCProcessing",
                   "SPECIFICATION Spec\nCONSTANTS\n  Methods = {1}\n  Depth = 3\n"
                   '  ChunkKinds = {"whole", "map", "all"}\n'
                   "INVARIANTS OnlyTaken LazyOnlyAsked Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=1000)
    cases = []

    def add(m, **kw):
        nd = m["start"]["nd"]
        nav = [rng.randint(2, 5) for _ in range(nd)]
        sig = [rng.choice([8, 9]), rng.choice([8, 9, 10])]
        kind = m["start"]["chunk"]
        ch = [chunking(rng, n) if kind != "whole" else [n] for n in nav] + \
             [chunking(rng, n) if kind == "all" else [n] for n in sig]
        c = dict(seed=rng.randrange(1 << 30), nav=nav, sig=sig, lazy=m["start"]["lazy"],
                 chunks=ch, dtype=rng.choice(["uint8", "uint8", "uint16", "float32", "int16"]),
                 layout=rng.choice(["C", "C", "F", "strided"]), pcn=rng.random() < 0.5,
                 hist=m["hist"], thin=1,
                 chunk_size=rng.choice(["128MiB", "128MiB", "300B", "3kB"]))
        c.update(kw)
        cases.append(c)

    from harness import catalog as cat
    for name in cat.METHODS:   # Every method in some of the histories
        for m in rng.sample(model, ctx.n(7, 120)):
            add(m, method=name)
    maps = [m for m in model if m["start"]["nd"] == 2 and m["start"]["lazy"]
            and m["start"]["chunk"] != "whole"]
    for m in rng.sample(maps, ctx.n(25, 200)):
        add(m, method="average_neighbour_patterns")
    for m in rng.sample(model, ctx.n(40, 1500)):
        add(m)
    # More patterns than fit in one chunk, of which some pixels are compared
    for m in rng.sample([m for m in model if m["start"]["nd"]], ctx.n(10, 60)):
        dt, n = rng.choice([("uint8", 100), ("float32", 26), ("uint16", 50)])
        add(m, method="average_neighbour_patterns", thin=1009, dtype=dt, sig=[300, 310])
        c = cases[-1]
        c["nav"] = [n] if m["start"]["nd"] == 1 else rng.choice([[2, n // 2], [n // 2, 2], [5, n // 5]])
        cut = [rng.choice([n, 3, 2]) for n in c["nav"]] + [300, 310]
        c["chunks"] = [[k] * (n // k) + ([n % k] if n % k else [])
                       for n, k in zip(c["nav"] + c["sig"], cut)]
    ctx.sample(*cases[::40])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceProcessing", cases, traces)
