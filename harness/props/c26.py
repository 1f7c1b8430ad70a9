"""C26: windows and filters."""
import numpy as np

from harness import intensity as it
from harness.core import q
from harness.kp import kikuchipy, preload


def case_run(c):
    kp = kikuchipy()
    return globals()["do_" + c["kind"]](kp, c)


def ints(a):
    return [int(round(float(v))) for v in np.asarray(a).ravel()]


def do_history(kp, c):
    rng = np.random.default_rng(c["seed"])
    shape = tuple(c["shape"])
    name = c["hist"][0]
    arr = rng.integers(1, 50, shape)
    if c["float"]:
        arr = arr.astype(c["float"])
    if name == "custom":
        w = kp.filters.Window(arr)
    else:
        w = kp.filters.Window(name, shape=shape)
    values0 = ints(w)
    out, kept = [], [(arr, ints(arr))]
    for k, do in enumerate(["new"] + c["hist"][1:]):
        before = ints(w)
        old = w
        if do == "circular":
            w.make_circular()
        elif do == "copy":
            w = w.copy()
            kept.append((old, before))
        elif do == "double":
            w = 2 * w if k % 2 else w * 2.0
            kept.append((old, before))
        elif do == "cut" and w.ndim == 2 and w.shape[0] > 1:
            w = w[:-1].copy() if k % 2 else w.copy()[: w.shape[0] - 1]
            kept.append((old, before))
        out.append(dict(op="history", do=do, name0=name, shape0=list(shape), values0=values0,
                        name=w.name, circular=bool(w.circular), shape=list(w.shape),
                        values=ints(w), origin=[int(v) for v in w.origin],
                        others=all(ints(a) == b for a, b in kept),
                        key=dict(hist=c["hist"], shape=c["shape"])))
    return out


def do_window(kp, c):
    shape = tuple(c["shape"])
    kw = dict(c["kw"])
    name = c["window"]
    if c["default"]:
        w = kp.filters.Window()
    else:
        w = kp.filters.Window(name, shape=c["as"](shape) if callable(c.get("as")) else shape, **kw)
    rec = dict(op="window", kind=name, shape=list(shape), got=list(w.shape),
               values=[q(v, 10000) for v in np.asarray(w, float).ravel()], name=w.name,
               circular=bool(w.circular), origin=[int(v) for v in w.origin],
               neighbours=[int(v) for v in w.n_neighbours],
               dist2=ints(np.asarray(w.distance_to_origin, float) ** 2), valid=bool(w.is_valid),
               compatible=bool(w.shape_compatible(tuple(c["with"]))),
               std=kw.get("std", 1), cutoff=0, width=0)
    rec["with"] = c["with"]
    if "cutoff" in kw:
        rec.update(cutoff=round(10 * kw["cutoff"]),
                   width=round(10 * kw.get("cutoff_width", kw["cutoff"] / 2)))
    key = dict(window=name, shape=c["shape"], kw={k: str(v) for k, v in kw.items()})
    return [dict(rec, key=key)]


def kernel(c, rng, shape):
    lo, hi = c["weights"]
    return rng.integers(lo, hi + 1, tuple(shape))


def even(w):
    """Kernel with a real transform."""
    for ax in (0, 1):
        w = w + np.roll(np.flip(w, axis=ax), 1, axis=ax)
    return w


def transfer(w, c):
    t = np.fft.fft2(w)
    if c["even"]:
        t = t.real
    if c["ones"]:
        t = np.ones(w.shape)
    return np.fft.fftshift(t) if c["shift"] else t


def do_signal(kp, c):
    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    n = int(np.prod(nav)) if nav else 1
    dt = c["dtype"]
    top = {"int8": 100}.get(dt, 200)
    data = rng.integers(0, top, nav + sig).astype(dt)
    a, b = it.RANGE[dt]
    k = it.unit(dt, top=1000)
    if c["domain"] == "spatial":
        w = kernel(c, rng, c["wshape"])
        arg = w.astype(c["wtype"])
        kw = {}
    else:
        w = kernel(c, rng, sig)
        if c["even"]:
            w = even(w)
        if c["ones"]:
            w = np.zeros_like(w)
            w[0, 0] = 1
        arg = transfer(w, c)
        kw = dict(shift=True) if c["shift"] else {}
    if c["window"]:
        arg = kp.filters.Window(arg)
    arg0 = np.array(arg)
    s = it.signal(kp, c, data.copy())
    if c["lazy"] and c["sigchunks"]:
        s.data = s.data.rechunk(s.data.chunks[:-2] + (1, -1))
    out, before, f = it.apply(
        c, s, data, lambda s, e: s.fft_filter(arg, c["domain"], show_progressbar=c["bar"], **kw, **e))
    f = it.frame(out, before, f, dt, data.shape)
    f["same"] &= bool(np.array_equal(arg0, np.array(arg)))
    return [dict(f, op="signal", domain=c["domain"], x=[p.ravel().astype(int).tolist() for p in
                                                       data.reshape((n,) + sig)],
                 sig=list(sig), w=ints(w), wshape=list(w.shape), y=it.outputs(out, n, k),
                 a=round(a * k), b=round(b * k), tol=2, tolx=1,
                 key=dict(domain=c["domain"], sig=c["sig"], wshape=list(w.shape), seed=c["seed"]))]


def do_pattern(kp, c):
    from kikuchipy.filters import fft_barnes

    rng = np.random.default_rng(c["seed"])
    sig = tuple(c["sig"])
    p = rng.integers(0, 100, sig).astype(c["dtype"])
    apo = rng.integers(1, 4, sig) if c["apo"] else None
    p0 = p.copy()
    if c["domain"] == "spatial":
        apo = None
        w = kernel(c, rng, c["wshape"])
        y = fft_barnes.fft_filter(p.astype(np.float32), w.astype(c["wtype"]))
    else:
        w = kernel(c, rng, sig)
        w = even(w) if c["even"] else w
        if c["ones"]:
            w = np.zeros_like(w)
            w[0, 0] = 1
        kw = {} if apo is None else dict(apodization_window=kp.filters.Window(apo) if c["window"] else apo)
        y = kp.pattern.fft_filter(p, transfer(w, c), shift=c["shift"], **kw)
    return [dict(op="pattern", domain=c["domain"], x=ints(p0), sig=list(sig), w=ints(w),
                 wshape=list(w.shape), apo=[] if apo is None else ints(apo),
                 y=[q(v, 100) for v in np.asarray(y, float).ravel()], tol=5,
                 same=bool(np.array_equal(p, p0)),
                 key=dict(domain=c["domain"], sig=c["sig"], wshape=list(w.shape), seed=c["seed"]))]


def do_fourier(kp, c):
    rng = np.random.default_rng(c["seed"])
    sig = tuple(c["sig"])
    p = rng.integers(0, 60, sig).astype(c["dtype"])
    p0 = p.copy()
    apo = rng.integers(1, 4, sig) if c["apo"] else None
    kw = dict(shift=c["shift"], real_fft_only=c["half"])
    f = kp.pattern.fft(p, apodization_window=apo, **kw)
    key = dict(sig=c["sig"], shift=c["shift"], half=c["half"], seed=c["seed"])
    out = []
    if set(sig) <= {1, 2, 4}:
        spec = kp.pattern.fft_spectrum(f)
        out.append(dict(op="fourier", x=ints(p0), sig=list(sig), shift=c["shift"], half=c["half"],
                        apo=[] if apo is None else ints(apo), re=ints(f.real), im=ints(f.imag),
                        abs2=ints(np.asarray(spec, float) ** 2), same=bool(np.array_equal(p, p0)),
                        key=key))
    if c["half"]:
        kw["s"] = sig
    f0 = f.copy()
    y = kp.pattern.ifft(f, **kw)
    x = p0.astype(int) * (1 if apo is None else apo)
    out.append(dict(op="back", x=ints(x), y=[q(v, 100) for v in y.ravel()],
                    same=bool(np.array_equal(f, f0)), key=key))
    return out


def do_refused(kp, c):
    error, what = "", c["what"]
    try:
        if what == "shape":
            kp.filters.Window("rectangular", shape=tuple(c["shape"]))
        elif what == "type":
            kp.filters.Window([[1, 2], [3, 4]] if c["list"] else 3)
        else:
            s = kp.signals.EBSD(np.arange(32, dtype="uint8").reshape(2, 4, 4))
            kw = dict(function_domain="frequency", transfer_function=np.ones((4, 4)))
            kw.update(dict(function_domain="taxi") if what == "domain" else
                      dict(inplace=True, lazy_output=True))
            s.fft_filter(**kw)
    except Exception as e:
        error = type(e).__name__
    return [dict(op="refused", error=error, want=c["want"], key={k: str(v) for k, v in c.items()})]


def run(ctx):
    preload()
    rng = ctx.rng
    common = "CONSTANTS MaxImage = %d MaxWindow = %d MaxExtra = %d Ops = %d\nCONSTANT Sides = %s\nCHECK_DEADLOCK FALSE\n"
    few = common % (ctx.n(5, 8), ctx.n(6, 9), ctx.n(3, 6), ctx.n(3, 4),
                    ctx.n("{1, 2, 3, 4}", "{1, 2, 3, 4, 5}"))
    f_cases = ctx.mc("MCFilters", "SPECIFICATION FSpec\nINVARIANTS FIsCorrelation EmitF\n"
                     "PROPERTY FEnds\n" + few, expect_cases=True)
    w_cases = ctx.mc("MCFilters", "SPECIFICATION WSpec\nINVARIANTS WCornersZero WTwice WOriginInside "
                     "WOriginStays WShape EmitW\n" + few, expect_cases=True)
    cases = []
    rng.shuffle(w_cases)
    for m in w_cases[: ctx.n(250, 3000)]:
        cases.append(dict(kind="history", seed=rng.randrange(1 << 30),
                          float=rng.choice(["", "float32", "float64", "uint8"]), **m))
    # Windows
    for k in range(ctx.n(420, 3000)):
        shape = [rng.randint(1, 10 if k % 7 > 4 else 8) for _ in range(rng.choice([1, 2, 2, 2]))]
        name = ["circular", "rectangular", "boxcar", "gaussian", "modified_hann", "lowpass",
                "highpass"][k % 7]
        kw = {}
        if name == "gaussian":
            kw["std"] = 2 if all(v % 2 for v in shape) and rng.random() < 0.5 else 1
        if name in ("lowpass", "highpass"):
            kw["cutoff"] = rng.choice([1, 2, 3, 0.5, 1.5, 2.2, 3.4])
            if rng.random() < 0.6:
                kw["cutoff_width"] = rng.choice([0.5, 1, 0.3, 1.2, 2])
            else:
                kw["cutoff"] = rng.choice([1, 2, 3, 0.6, 1.8])
        cases.append(dict(kind="window", window=name, shape=shape, kw=kw, default=False,
                          **{"with": [rng.randint(1, 8) for _ in range(rng.choice([1, 2, 3]))]}))
    cases.append(dict(kind="window", window="circular", shape=[3, 3], kw={}, default=True,
                      **{"with": [3, 3]}))

    def base(**kw):
        c = dict(seed=rng.randrange(1 << 30), nav=rng.choice([[], [3], [2, 2], [1, 3], [2]]),
                 sig=[rng.randint(2, 7), rng.randint(2, 7)],
                 wshape=[rng.randint(1, 6), rng.randint(1, 6)],
                 weights=rng.choice([[0, 3], [-2, 2], [1, 1], [0, 1]]),
                 wtype=rng.choice(["int64", "float32", "float64", "uint8"]),
                 dtype=rng.choice(["uint8", "uint8", "uint16", "int16", "int8", "float32", "float64"]),
                 domain=rng.choice(["spatial", "frequency"]), even=True, ones=False,
                 shift=rng.random() < 0.5, apo=rng.random() < 0.3, window=rng.random() < 0.4,
                 lazy=rng.random() < 0.4, chunks=[rng.randint(1, 2), rng.randint(1, 2)],
                 sigchunks=rng.random() < 0.3, bar=rng.choice([None, True, False]),
                 inplace=rng.random() < 0.5, lazy_output=rng.choice([None, None, True, False]))
        c.update(kw)
        if c["weights"][0] < 0 and c["wtype"] == "uint8":
            c["wtype"] = "int64"
        if not c["nav"]:
            c["lazy"] = False
        return c

    rng.shuffle(f_cases)
    for m in f_cases[: ctx.n(40, 200)]:
        o = rng.choice(f_cases)
        cases.append(dict(base(domain="spatial"), kind="pattern", sig=[m["ni"], o["ni"]],
                          wshape=[m["nw"], o["nw"]]))
    for k in range(ctx.n(110, 1200)):
        cases.append(dict(base(ones=k % 12 == 0), kind="signal"))
    for k in range(ctx.n(50, 500)):
        cases.append(dict(base(ones=k % 12 == 0, even=rng.random() < 0.5, domain="frequency"),
                          kind="pattern"))
    for k in range(ctx.n(80, 800)):
        half = rng.random() < 0.5
        cases.append(dict(
            kind="fourier", seed=rng.randrange(1 << 30), half=half, shift=rng.random() < 0.5,
            apo=rng.random() < 0.3, dtype=rng.choice(["uint8", "float32", "float64", "int16"]),
            sig=[rng.choice([1, 2, 4, 4, 4]) for _ in range(2)] if k % 2 else
                [rng.randint(1, 7), rng.randint(1, 7)]))
    for shape, want in [((0, 3), "ValueError"), ((3, -1), "ValueError"), ((3, 2.0), "TypeError"),
                        ((0,), "ValueError"), ((2.5,), "TypeError")]:
        cases.append(dict(kind="refused", what="shape", shape=list(shape), want=want))
    for what, lst in [("type", True), ("type", False), ("domain", False), ("lazy", False)]:
        cases.append(dict(kind="refused", what=what, list=lst, want="ValueError"))
    ctx.sample(*cases[::60])
    ctx.judge("TraceFilters", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "Patterns and kernels have integer values and sides of at most seven pixels; a transfer "
        "function is the Fourier transform of such a kernel.",
        "Values of the pass windows beside the axes of the window are between those of the "
        "nearest quarters of the cut-off's width.",
    ]
