"""C04: rescaling and normalization of intensities."""
import numpy as np

from harness import intensity as it
from harness.core import q
from harness.kp import kikuchipy, preload, values


def patterns(c, rng):
    n, N = int(np.prod(c["nav"])), int(np.prod(c["sig"]))
    if c.get("p"):
        base = np.resize(np.asarray(c["p"]), N)
        out = np.stack([base * c["gain"] + c["offset"] + k * c["between"] for k in range(n)])
    else:
        out = rng.integers(c["lo"], c["hi"] + 1, (n, N))
        out[:, 0], out[:, -1] = c["lo"], c["hi"]
        out = np.stack([np.clip(rng.permutation(p) - k * c["between"], c["lo"], None)
                        for k, p in enumerate(out)])
    return out.astype(int)


def case_run(c):
    kp = kikuchipy()
    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    n = int(np.prod(nav))
    x = patterns(c, rng)
    dt = c["dtype"]
    data = x.astype(dt).reshape(nav + sig)
    key = f"{c['op']}-{c['kind']}"
    rec = dict(op=c["op"], key=key, x=x.tolist())
    if c["op"] == "rescale":
        dto = c["dtype_out"] or dt
        kw = {}
        if c["dtype_out"]:
            kw["dtype_out"] = c["dtype_out"] if c["seed"] % 2 else np.dtype(c["dtype_out"]).type
        orange = it.RANGE[dto]
        if c["out_range"]:
            kw["out_range"] = orange = tuple(c["out_range"])
        given = [0, 0]
        if c["mode"] == "given":
            kw["in_range"] = tuple(c["in_range"])
            given = [100 * v for v in c["in_range"]]
        elif c["mode"] == "percentiles":
            kw["percentiles"] = tuple(c["percentiles"])
            given = list(c["percentiles"])
        k = it.unit(dto, orange)
        if c["kind"] == "pattern":
            d0 = data.copy()
            out = np.stack([kp.pattern.rescale_intensity(p, **kw)
                            for p in data.reshape((n,) + sig)]).reshape(data.shape)
            f = dict(lazy=False, want_lazy=False, same=bool(np.array_equal(d0, data)), dtype=str(out.dtype),
                     want_dtype=dto, shape=list(out.shape), want_shape=list(data.shape), kept=True)
            y = [q(np.floor(p * k) if k == 1 else p * k) for p in out.astype(np.float64).reshape(n, -1)]
        else:
            if c["mode"] == "relative":
                kw["relative"] = True
            s = it.signal(kp, c, data.copy(), c["kind"])
            out, before, f = it.apply(c, s, data, lambda s, e: s.rescale_intensity(**kw, **e))
            f = it.frame(out, before, f, dto, data.shape)
            y = it.outputs(out, n, k)
        # Float16 and float32 intensities are rounded
        tol = 2 if dto == "float16" else 1
        rec.update(f, mode=c["mode"], given=given, y=y, a=round(orange[0] * k),
                   b=round(orange[1] * k), tol=tol + 1, tolx=1)
    elif c["op"] == "norm":
        kw = dict(num_std=c["num"], divide_by_square_root=c["root"])
        if c["dtype_out"]:
            kw["dtype_out"] = c["dtype_out"]
        dto = c["dtype_out"] or dt
        N = int(np.prod(sig))
        sc = 1000 * (np.sqrt(N) if c["root"] else 1)
        if c["kind"] == "pattern":
            d0 = data.copy()
            out = np.stack([kp.pattern.normalize_intensity(p, **kw)
                            for p in data.reshape((n,) + sig)]).reshape(data.shape)
            f = dict(lazy=False, want_lazy=False, same=bool(np.array_equal(d0, data)), dtype=str(out.dtype),
                     want_dtype=c["dtype_out"] or str(out.dtype), shape=list(out.shape),
                     want_shape=list(data.shape), kept=True)
        else:
            s = it.signal(kp, c, data.copy(), c["kind"])
            o, before, f = it.apply(c, s, data, lambda s, e: s.normalize_intensity(**kw, **e))
            f = it.frame(o, before, f, dto, data.shape)
            out = values(o)
        rec.update(f, num=c["num"], y=[q(p, sc) for p in out.astype(float).reshape(n, -1)])
    else:
        kw = dict(clip_limit=c["clip"], nbins=c["nbins"])
        s = it.signal(kp, c, data.copy(), c["kind"])
        quarter = [max(1, v // 4) for v in sig]
        s2 = it.signal(kp, c, data.copy(), c["kind"])
        s2.adaptive_histogram_equalization(kernel_size=tuple(quarter), **kw)
        alone = []
        for p in data.reshape((n,) + sig):
            s3 = getattr(kp.signals, c["kind"])(p.copy())
            s3.adaptive_histogram_equalization(**kw)
            alone.append(q(values(s3).ravel()))
        o, before, f = it.apply(c, s, data, lambda s, e: s.adaptive_histogram_equalization(**kw, **e))
        f = it.frame(o, before, f, dt, data.shape)
        rec.update(f, y=[q(p) for p in values(o).reshape(n, -1)], alone=alone,
                   quarter=[q(p) for p in values(s2).reshape(n, -1)],
                   a=it.RANGE[dt][0], b=it.RANGE[dt][1])
    return [rec]


KINDS = ["EBSD", "EBSD", "EBSD", "VirtualBSEImage", "EBSDMasterPattern", "ECPMasterPattern", "pattern"]


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCIntensity",
                   f"SPECIFICATION Spec\nCONSTANTS MaxV = {ctx.n(3, 4)} MaxOut = {ctx.n(7, 11)}\n"
                   "INVARIANTS TypeOK Order FillsRange GainOffsetFree IsTheLinearImage BinSum "
                   "ConstantBackground OwnBackground BlurKeepsSum Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=50)
    cases = []

    def add(op, **kw):
        dt = rng.choice(["uint8", "uint8", "uint16", "int16", "float32", "float64"])
        nav = rng.choice([[], [rng.randint(1, 4)], [rng.randint(1, 3), rng.randint(2, 3)]])
        lo = rng.choice([0, 3, 40])
        c = dict(op=op, seed=rng.randrange(1 << 30), dtype=dt, dtype_out=None, nav=nav,
                 sig=[rng.randint(2, 6), rng.randint(2, 6)], lo=lo,
                 hi=lo + rng.choice([3, 50, 200]), between=rng.choice([0, 1, 2]),
                 gain=rng.choice([1, 7, 30]), offset=rng.choice([0, 5, 60]),
                 kind=rng.choice(KINDS), lazy=rng.random() < 0.3,
                 chunks=[rng.randint(1, 3), rng.randint(1, 3)],
                 inplace=rng.random() < 0.5, lazy_output=rng.choice([None, None, True, False]),
                 mode="own", out_range=None)
        c.update(kw)
        if c["kind"] == "pattern":
            c["lazy"] = False
        if not c["nav"]:
            c["lazy"] = False
        cases.append(c)
        return c

    def rescale(**kw):
        c = add("rescale", **kw)
        c["dtype_out"] = rng.choice([None, None, "uint8", "uint16", "int8", "int16", "uint32",
                                     "float32", "float64"])
        c["mode"] = rng.choice(["own", "own", "given", "percentiles", "relative"])
        if c["kind"] == "pattern" and c["mode"] == "relative":
            c["mode"] = "own"
        a = c["lo"] + rng.randint(-3, 3)
        c["in_range"] = [a, a + rng.choice([2, 40, 300])]
        if "p" in c:
            c["in_range"] = [c["offset"] - rng.randint(0, 1), c["offset"] + c["gain"] * rng.randint(1, 4)]
        if c["dtype"][0] == "u":
            c["in_range"][0] = max(0, c["in_range"][0])
            c["in_range"][1] = max(c["in_range"][0] + 1, c["in_range"][1])
        if c["dtype"] == "uint8":
            c["in_range"][1] = min(255, c["in_range"][1])
        c["percentiles"] = rng.choice([[0, 100], [10, 90], [25, 100], [1, 60], [0, 50]])
        if rng.random() < 0.3:
            dto = c["dtype_out"] or c["dtype"]
            c["out_range"] = rng.choice([[0, 100], [10, 90], [5, 6]]) if dto != "int8" else [-5, 100]
            if np.dtype(dto).kind == "f":
                c["out_range"] = rng.choice([[0, 1], [-1, 2], [10, 500]])

    for m in model:
        rescale(p=m["p"], sig=[2, 2] if rng.random() < 0.5 else [1, 4])
    for _ in range(ctx.n(150, 2500)):
        rescale()
    for _ in range(ctx.n(70, 800)):
        c = add("norm", num=rng.choice([1, 1, 2, 3]), root=rng.random() < 0.3)
        c["hi"], c["between"] = c["lo"] + rng.choice([3, 9, 20]), 0
        c["dtype_out"] = rng.choice(["float32", "float64"])
        if c["dtype"][0] == "f" and rng.random() < 0.5:
            c["dtype_out"] = None
    for _ in range(ctx.n(12, 150)):
        add("ahe", dtype=rng.choice(["uint8", "uint8", "uint16"]),
            kind=rng.choice(["EBSD", "VirtualBSEImage", "EBSDMasterPattern"]),
            sig=[rng.randint(8, 20), rng.randint(8, 20)], clip=rng.choice([0, 0.02]),
            nbins=rng.choice([64, 128]), lo=10, hi=210, between=0)
    ctx.sample(*cases[::60])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceIntensity", cases, traces)
    ctx.assumptions += [
        "intensities are integers of at most 300 levels (normalization: 21); outputs are compared "
        "at the resolution of one integer step or 1/2000 of the output range",
        "adaptive histogram equalization itself is scikit-image's: only the range, the default "
        "kernel and the independence of the patterns are specified"]
