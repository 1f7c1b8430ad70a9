"""C05: removal and retrieval of static and dynamic backgrounds."""
import numpy as np

from harness import intensity as it
from harness.core import q
from harness.kp import kikuchipy, layout, lazy, preload, values


def case_run(c):
    kp = kikuchipy()
    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    n, N = int(np.prod(nav)), int(np.prod(sig))
    dt = c["dtype"]
    lo, hi = c["lo"], c["hi"]
    x = rng.integers(lo, hi + 1, (n, N))
    if c["smooth"]:
        r, cc = np.meshgrid(np.linspace(0, 1, sig[0]), np.linspace(0, 1, sig[1]), indexing="ij")
        for k in range(n):
            g = rng.uniform(-1, 1, 2)
            z = g[0] * r + g[1] * cc
            z = (z - z.min()) / max(np.ptp(z), 0.1)
            x[k] = np.clip(lo + (hi - lo) * (0.6 * z.ravel() + 0.4 * rng.random(N)), lo, hi)
    x[:, 0], x[:, -1] = lo, hi
    data = x.astype(dt).reshape(nav + sig)
    key = f"{c['op']}-{c['api']}"
    rec = dict(op=c["op"], key=key, x=x.tolist(), sy=sig[0], sx=sig[1])
    k = it.unit(dt)
    a, b = (round(v * k) for v in it.RANGE[dt])
    tol = 2
    orig = data.copy()

    def plain(out):
        return dict(lazy=False, want_lazy=False, same=bool(np.array_equal(orig, data)),
                    dtype=str(out.dtype), want_dtype=dt, shape=list(out.shape),
                    want_shape=list(data.shape), kept=True)

    def ys(out, k):
        return [q(np.floor(p * k) if k == 1 else p * k) for p in out.astype(np.float64).reshape(n, -1)]

    if c["op"] == "static":
        bg = rng.integers(lo, hi + 1, N)
        bg[0], bg[1] = lo, hi
        bga = bg.reshape(sig).astype(dt)
        kw = dict(operation=c["operation"])
        scaled = c["scaled"]
        if scaled or c["seed"] % 2:
            kw["scale_bg"] = scaled
        skw = {}
        if c["bg"] == "attribute":
            skw["static_background"] = bga
        else:
            kw["static_bg"] = bga
            skw["static_background"] = bga[::-1].copy() if c["bg"] == "both" else None
            if c["bg"] == "dask":
                import dask.array as da
                kw["static_bg"] = da.from_array(bga, chunks=2)
        if isinstance(kw.get("static_bg"), np.ndarray):
            kw["static_bg"] = layout(bga, c["seed"] // 3)
        b0 = bga.copy()
        s = it.signal(kp, c, data.copy(), **skw)
        out, before, f = it.apply(c, s, data, lambda s, e: s.remove_static_background(**kw, **e))
        f = it.frame(out, before, f, dt, data.shape)
        f["same"] &= bool(np.array_equal(b0, bga))
        sub = c["operation"] == "subtract"
        rec.update(f, bg=bg.tolist(), operation=c["operation"], scaled=scaled, k=1000,
                   y=it.outputs(out, n, k), a=a, b=b, tol=tol, tolx=1 if sub else 3,
                   least=0 if sub else 300)
        return [rec]
    sy, sx = sig
    std = c["std"] or sx / 8
    kw = dict(filter_domain=c["domain"], truncate=c["truncate"])
    if c["std"]:
        kw["std"] = c["std"]
    w = it.gaussian(std, c["truncate"], c["domain"])
    rec.update(w)
    if c["op"] == "dynamic":
        kw["operation"] = c["operation"]
        if c["api"] == "pattern":
            out = np.stack([kp.pattern.remove_dynamic_background(p, **kw)
                            for p in data.reshape((n,) + sig)]).reshape(data.shape)
            f, y = plain(out), ys(out, k)
        else:
            s = it.signal(kp, c, data.copy())
            out, before, f = it.apply(c, s, data, lambda s, e: s.remove_dynamic_background(**kw, **e))
            f = it.frame(out, before, f, dt, data.shape)
            y = it.outputs(out, n, k)
        sub = c["operation"] == "subtract"
        rec.update(f, operation=c["operation"], y=y, a=a, b=b, tol=tol,
                   tolx=20 if sub else 8, least=3000 if sub else 400)
    else:
        dto = c["dtype_out"] or dt
        if c["api"] == "pattern":
            dto = dt
            out = np.stack([kp.pattern.get_dynamic_background(p, **kw)
                            for p in data.reshape((n,) + sig)]).reshape(data.shape)
            f = plain(out)
        else:
            if c["dtype_out"]:
                kw["dtype_out"] = c["dtype_out"]
            c = dict(c, inplace=False)
            s = it.signal(kp, c, data.copy())

            def call(s, e):
                return s.get_dynamic_background(**kw, **{k: v for k, v in e.items() if k != "inplace"})

            o, before, f = it.apply(c, s, data, call)
            f = it.frame(o, before, f, dto, data.shape)
            out = values(o)
        rec.update(f, y=[q(p, 100) for p in out.astype(float).reshape(n, -1)],
                   tol=230 if np.dtype(dto).kind in "iu" else 15)
    return [rec]


def run(ctx):
    preload()
    rng = ctx.rng
    ctx.mc("MCIntensity",
           f"SPECIFICATION Spec\nCONSTANTS MaxV = {ctx.n(3, 4)} MaxOut = 5\n"
           "INVARIANTS TypeOK Order FillsRange ConstantBackground OwnBackground BlurKeepsSum\n"
           "CHECK_DEADLOCK FALSE\n")
    cases = []

    def add(op, **kw):
        nav = rng.choice([[], [rng.randint(1, 4)], [rng.randint(1, 3), rng.randint(1, 3)]])
        c = dict(op=op, seed=rng.randrange(1 << 30), api=rng.choice(["signal", "signal", "pattern"]),
                 dtype=rng.choice(["uint8", "uint8", "uint16", "float32", "float64", "int16"]),
                 dtype_out=None, nav=nav, sig=[rng.randint(4, 9), rng.randint(4, 9)], lo=20,
                 hi=rng.choice([80, 150, 220]), smooth=rng.random() < 0.5,
                 lazy=bool(nav) and rng.random() < 0.35,
                 chunks=[rng.randint(1, 3), rng.randint(1, 3)],
                 inplace=rng.random() < 0.5, lazy_output=rng.choice([None, None, True, False]),
                 operation=rng.choice(["subtract", "divide"]))
        c.update(kw)
        if c["api"] == "pattern":
            c["lazy"] = False
        cases.append(c)
        return c

    for _ in range(ctx.n(90, 1200)):
        c = add("static", api="signal", scaled=rng.random() < 0.5,
                bg=rng.choice(["attribute", "argument", "both", "dask"]))
        c["hi"] = rng.choice([50, 90])
    for op, k in (("dynamic", ctx.n(100, 1200)), ("getdyn", ctx.n(80, 1000))):
        for _ in range(k):
            std = rng.choice([None, 1, 1.5, 2, 3])
            tr = rng.choice([2, 3, 4, 2.5])
            c = add(op, std=std, truncate=tr, domain=rng.choice(["frequency", "spatial"]))
            if std is None:
                c["sig"][1] = rng.choice([8, 12, 14])
                c["truncate"] = rng.choice([3, 4])
            if op == "getdyn" and c["api"] == "signal":
                c["dtype_out"] = rng.choice([None, None, "float32", "float64", "uint16"])
    ctx.sample(*cases[::60])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceIntensity", cases, traces)
    ctx.assumptions += [
        "Gaussian weights are computed by the driver (exp) and rounded to 1/50000",
        "corrected patterns with little contrast left are not compared"]
