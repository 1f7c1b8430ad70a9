"""C07: downsampling of patterns."""
import numpy as np

from harness import intensity as it
from harness.core import q
from harness.kp import kikuchipy, preload, values


def det_rest(d):
    return [d.sample_tilt, d.tilt, d.azimuthal, d.twist, d.px_size]


def case_run(c):
    kp = kikuchipy()
    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    n, N = int(np.prod(nav)), int(np.prod(sig))
    dt = c["dtype"]
    x = rng.integers(c["lo"], c["hi"] + 1, (n, N))
    data = x.astype(dt).reshape(nav + sig)
    bg = rng.integers(c["lo"], c["hi"] + 1, N) if c["bg"] else None
    pc = rng.uniform(0.3, 0.7, (nav if c["pcn"] else ()) + (3,))
    det = kp.detectors.EBSDDetector(shape=sig, pc=pc, binning=c["binning"], px_size=7.5, tilt=3,
                                    azimuthal=1.5, sample_tilt=69, twist=0.5)
    rest = det_rest(det)
    kw = dict(detector=det)
    if bg is not None:
        b = bg.astype(dt).reshape(sig)
        if c["bg"] == "dask":
            import dask.array as da
            b = da.from_array(b, chunks=2)
        kw["static_background"] = b
    s = it.signal(kp, c, data.copy(), **kw)
    f = c["f"]
    dto = c["dtype_out"] or dt
    base = dict(op="down", key=f"down-{c['bg']}", x=x.tolist(), sy=sig[0], sx=sig[1], f=f)

    def state(s):
        d = s.detector
        b = s.static_background
        return (values(s).tobytes(), str(values(s).dtype), values(s).shape, d.shape, d.binning, d.pc.tolist(),
                None if b is None else np.asarray(b).tobytes(), it.describe(s))

    it.dress(s)
    s0 = state(s)
    akw = dict(dtype_out=c["dtype_out"]) if c["dtype_out"] else {}
    try:
        if c["inplace"]:
            out = s.downsample(f, **akw)
            out = s
            fr = dict(lazy=bool(s._lazy), want_lazy=bool(c["lazy"]), same=True)
        else:
            lo = {} if c["lazy_output"] is None else dict(lazy_output=c["lazy_output"])
            out = s.downsample(f, inplace=False, **lo, **akw)
            fr = dict(lazy=bool(out._lazy), same=state(s) == s0,
                      want_lazy=bool(c["lazy"] if c["lazy_output"] is None else c["lazy_output"]))
    except ValueError:
        return [dict(base, refused=True, same=state(s) == s0)]
    nd = len(nav)
    k = it.unit(dto)
    a, b = (round(v * k) for v in it.RANGE[dto])
    d = out.detector
    am = out.axes_manager
    kept = [[x.size, x.scale, x.offset, str(x.units), str(x.name)] for x in am._axes[:nd]] \
        == s0[-1][0][:nd] and s0[-1][1] == out.metadata.General.title and type(out).__name__.endswith("EBSD")
    fr = it.frame(out, None, fr, dto, nav + (sig[0] // f, sig[1] // f), kept=bool(kept))
    bgn = []
    if out.static_background is not None:
        w = np.asarray(out.static_background).astype(float)
        bgn = q(np.floor(w.ravel() * k) if k == 1 else w.ravel() * k)
    return [dict(base, refused=False, **fr, y=it.outputs(out, n, k), a=a, b=b, tol=2, tolx=0,
                 bg=[] if bg is None else bg.tolist(), bg_new=bgn, det_shape=list(d.shape),
                 binning=q(c["binning"], 1000), binning_new=q(d.binning, 1000),
                 pc=q(np.ravel(pc), 100000), pc_new=q(np.ravel(d.pc), 100000),
                 det_rest=det_rest(d) == rest)]


def run(ctx):
    preload()
    rng = ctx.rng
    ctx.mc("MCIntensity",
           f"SPECIFICATION Spec\nCONSTANTS MaxV = {ctx.n(3, 4)} MaxOut = 7\n"
           "INVARIANTS TypeOK Order FillsRange IsTheLinearImage BinSum\nCHECK_DEADLOCK FALSE\n")
    cases = []
    for _ in range(ctx.n(200, 3000)):
        f = rng.choice([2, 2, 2, 3, 4, 1])
        nav = rng.choice([[], [rng.randint(1, 4)], [rng.randint(1, 3), rng.randint(1, 3)]])
        sig = [f * rng.randint(2, 4), f * rng.randint(2, 4)]
        if rng.random() < 0.3:  # A long detector
            sig[rng.randrange(2)] = f * rng.randint(9, 20)
        if rng.random() < 0.12:
            sig[rng.randrange(2)] += 1
        sig = [max(2, v) for v in sig]
        cases.append(dict(
            seed=rng.randrange(1 << 30), f=f, sig=sig, nav=nav, lo=rng.choice([0, 20]),
            dtype=rng.choice(["uint8", "uint8", "uint16", "int16", "float32"]),
            dtype_out=rng.choice([None, None, "uint16", "float32", "uint8"]),
            hi=rng.choice([23, 90, 250]), binning=rng.choice([1, 2, 8]), pcn=rng.random() < 0.5,
            bg=rng.choice(["", "numpy", "numpy", "dask"]), lazy=bool(nav) and rng.random() < 0.35,
            chunks=[rng.randint(1, 3), rng.randint(1, 3)], inplace=rng.random() < 0.5,
            lazy_output=rng.choice([None, None, True, False])))
    ctx.sample(*cases[::60])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceIntensity", cases, traces)
    ctx.assumptions += ["at least two pixels remain in each direction",
                        "block means are compared as block sums, which the stretching cannot tell apart"]
