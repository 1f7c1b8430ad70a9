"""C06: averaging with neighbours."""
import numpy as np

from harness.core import q
from harness.kp import kikuchipy, layout, lazy, preload, values

RANGES = {
    "uint8": (0, 255, 1), "uint16": (0, 65535, 1), "int16": (-32768, 32767, 1),
    "float32": (-1, 1, 1000), "float64": (-1, 1, 1000),
}


def case_run(c):
    kp = kikuchipy()
    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    dtype = c["dtype"]
    vals = rng.integers(0, 200, nav + sig)
    for idx in np.ndindex(nav):
        vals[idx].flat[rng.integers(vals[idx].size)] = 200 + rng.integers(55)
        vals[idx].flat[0] = rng.integers(20)
    data = vals.astype(dtype)
    chunks = c.get("chunks")
    s = lazy(kp, data.copy(), tuple(chunks)) if chunks else kp.signals.EBSD(layout(data.copy(), c["seed"] // 7))
    if c["wname"] == "array":
        w = np.array(c["W"]) / c["den"] if c["den"] > 1 else np.array(c["W"])
        kw = dict(window=w)
        W = np.array(c["W"])
        den = 1
    else:
        kw = dict(window=c["wname"], window_shape=tuple(c["wshape"]), **c.get("wkw", {}))
        W = np.array(q(np.asarray(kp.filters.Window(
            c["wname"], shape=tuple(c["wshape"]), **c.get("wkw", {}))), c["den"]))
    if c.get("as_window"):
        kw = dict(window=kp.filters.Window(kw["window"]) if c["wname"] == "array"
                  else kp.filters.Window(c["wname"], shape=tuple(c["wshape"]), **c.get("wkw", {})))
    ret = s.average_neighbour_patterns(
        inplace=c["inplace"], lazy_output=c["lazy_output"], show_progressbar=False, **kw
    )
    o = s if c["inplace"] else ret
    was_lazy = bool(chunks)
    want = was_lazy if c["lazy_output"] is None else bool(c["lazy_output"])
    if W.size == 1:
        return [dict(op="identity", inplace=c["inplace"], returned=ret is not None,
                     P=q(vals.reshape(-1, sig[0] * sig[1])),
                     out=q(values(o).reshape(-1, sig[0] * sig[1])), key=c["key"])]
    if W.ndim == 1:
        W = W[:, None]
    ny, nx = (nav + (1,))[:2]
    lo, hi, sc = RANGES[dtype]
    d = values(o)
    return [dict(
        op="average", key=c["key"], ny=ny, nx=nx, W=W.tolist(), dtype=dtype,
        dtype_out=str(d.dtype), shape=list(data.shape), shape_out=list(d.shape),
        P=q(vals.reshape(-1, sig[0] * sig[1])),
        out=q(d.reshape(-1, sig[0] * sig[1]), sc),
        omin=lo * sc, omax=hi * sc, tol=c["tol"], inplace=c["inplace"],
        returned=ret is not None, lazy=bool(o._lazy), want_lazy=want,
    )]


def run(ctx):
    preload()
    rng = ctx.rng
    n = ctx.n(5, 6)
    model = ctx.mc("MCNeighbours", f"SPECIFICATION Spec\nCONSTANTS MaxN = {n} MaxW = {n}\n"
                   "INVARIANTS ChunkIndependent Untouched Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=50)
    cases = []

    def add(**kw):
        c = dict(seed=rng.randrange(1 << 30), key="-", den=1, inplace=False,
                 lazy_output=None, sig=[2, 3], tol=1, dtype="uint8")
        c.update(kw)
        cases.append(c)

    # Every behaviour class of the chunk model, on either map axis and in 1D
    for m in model:
        nn, w, ch = m["n"], m["w"], m["chunks"]
        W1 = [rng.randint(0, 3) for _ in range(w)]
        W1[w // 2] = rng.randint(1, 3)
        W2 = [[rng.randint(0, 2) for _ in range(w)] for _ in range(3)]
        W2[1][w // 2] = 1
        kind = rng.randrange(3)
        if kind == 0:
            add(nav=[nn], chunks=[ch, 2, 3], wname="array", W=W1)
        elif kind == 1:
            k = rng.randint(1, 3)
            add(nav=[nn, k], chunks=[ch, rng.randint(1, k), 2, 3], wname="array",
                W=[list(x) for x in zip(*W2)], inplace=rng.random() < 0.3)
        else:
            k = rng.randint(1, 3)
            add(nav=[k, nn], chunks=[rng.randint(1, k), ch, 2, 3], wname="array", W=W2,
                lazy_output=rng.choice([None, False]))
    dts = ["uint8", "uint16", "int16", "float32", "float64"]
    for i in range(ctx.n(120, 1500)):
        nav = rng.choice([[rng.randint(2, 6)], [rng.randint(1, 5), rng.randint(1, 5)],
                          [rng.randint(2, 4), rng.randint(2, 4)]])
        lz = rng.random() < 0.5
        sig = [rng.randint(1, 4), rng.randint(2, 5)]
        kw = dict(nav=nav, sig=sig, dtype=rng.choice(dts), inplace=rng.random() < 0.4,
                  as_window=rng.random() < 0.3)
        if lz:
            kw["chunks"] = [rng.randint(1, k) for k in nav] + sig
        if not kw["inplace"]:
            kw["lazy_output"] = rng.choice([None, True, False])
        elif lz:
            kw["lazy_output"] = None
        wdim = 1 if len(nav) == 1 else rng.choice([1, 2, 2])
        ws = [rng.randint(1, 5) for _ in range(wdim)]
        if rng.random() < 0.5:
            W = np.array([rng.randint(0, 3) for _ in range(int(np.prod(ws)))]).reshape(ws)
            W[tuple(k // 2 for k in ws)] = rng.randint(1, 3)
            kw.update(wname="array", W=W.tolist(), den=rng.choice([1, 1, int(W.sum()), 16]))
        elif rng.random() < 0.5:
            kw.update(wname=rng.choice(["circular", "rectangular"]), wshape=ws)
        else:
            kw.update(wname="gaussian", wshape=ws, wkw=dict(std=rng.choice([1, 2, 3])),
                      dtype=rng.choice(["uint8", "float32"]))
            kw["den"], kw["tol"] = (1000, 3) if kw["dtype"] == "uint8" else (100, 100)
        if kw["dtype"] in ("uint16", "int16"):
            kw["tol"] = 2
        add(**kw)
    ctx.sample(*cases[::60])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceNeighbours", cases, traces)
    ctx.assumptions += [
        "patterns of at most 20 pixels in maps of at most 6 points per axis",
        "tolerance of one (8-bit) or two (16-bit) intensity steps for array windows; wider "
        "for Gaussian windows, whose weights are logged with two or three decimals",
    ]
