"""C15: dot products with neighbour patterns."""
import numpy as np

from harness.core import q
from harness.kp import kikuchipy, layout, lazy, preload, values


def case_run(c):
    kp = kikuchipy()
    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    N = sig[0] * sig[1]
    vals = rng.integers(0, c["hi"], nav + sig)
    for idx in np.ndindex(nav):
        p = vals[idx].ravel()
        p[rng.integers(N)] = c["hi"]
        p[(p.argmax() + 1) % N] = 0
        vals[idx] = p.reshape(sig)
    data = vals.astype(c["dtype"])
    chunks = c.get("chunks")
    s = lazy(kp, data.copy(), tuple(chunks)) if chunks else kp.signals.EBSD(layout(data.copy(), c["seed"] // 7))
    W = np.array(c["W"])
    kw = dict(zero_mean=c["zm"], normalize=c["nm"], show_progressbar=False)
    if c["default"]:
        W = (np.array([[0, 1, 0], [1, 1, 1], [0, 1, 0]]) if len(nav) == 2 else np.ones(3, int))
        win = None
    else:
        win = kp.filters.Window(W.astype(float) if c["floatw"] else W)
    if win is not None:
        kw["window"] = win
    if c["dtype_out"] != "float32":
        kw["dtype_out"] = c["dtype_out"]
    m = s.get_neighbour_dot_product_matrices(**kw)
    a = s.get_average_neighbour_dot_product_map(**kw)
    m_np = np.asarray(m)
    pre = m if c["pass_lazy"] else m_np
    b = s.get_average_neighbour_dot_product_map(dp_matrices=pre, **kw)
    b = np.asarray(b)
    same = np.array_equal(values(s), data) and (win is None or np.array_equal(np.asarray(win), W))
    same = same and np.array_equal(np.asarray(m), m_np, equal_nan=True)
    sc = 10000 if c["nm"] else (N if c["zm"] else 1)
    ny, nx = nav if len(nav) == 2 else (nav[0], 1)
    W2 = W if W.ndim == 2 else W[:, None]
    return [dict(
        op="ndp", key="windows-of-ones" if list(m.shape) == list(nav) + [1] * W.ndim else "-",
        m_decl=list(m.shape), ny=ny, nx=nx, nav=list(nav), W=(W2 != 0).astype(int).tolist(),
        wshape=list(W.shape), P=vals.reshape(-1, N).tolist(), zm=c["zm"], nm=c["nm"],
        m=q(m_np.reshape((ny * nx,) + W2.shape), sc), m_shape=list(m_np.shape),
        avg=q(np.asarray(a).ravel(), sc), avg_shape=list(a.shape),
        avg_m=q(b.ravel(), sc), avg_m_shape=list(b.shape),
        lazy=bool(chunks), m_lazy=not isinstance(m, np.ndarray),
        avg_lazy=not isinstance(a, np.ndarray), m_dtype=str(m.dtype), avg_dtype=str(a.dtype),
        dtype_out=c["dtype_out"], same=bool(same))]


def run(ctx):
    preload()
    rng = ctx.rng
    n = ctx.n(5, 6)
    model = ctx.mc("MCNeighbourDotProducts",
                   f"SPECIFICATION Spec\nCONSTANTS MaxN = {n} MaxW = {n}\n"
                   "INVARIANTS Complete Mirrored Emit\nCHECK_DEADLOCK FALSE\n", expect_cases=50)
    cases = []

    def add(**kw):
        c = dict(seed=rng.randrange(1 << 30), sig=rng.choice([[2, 2], [2, 3], [1, 4]]),
                 zm=rng.random() < 0.6, nm=rng.random() < 0.6, hi=rng.randint(3, 7),
                 dtype=rng.choice(["uint8", "uint8", "uint16", "float32"]),
                 dtype_out=rng.choice(["float32", "float32", "float64"]), default=False,
                 floatw=rng.random() < 0.5, pass_lazy=rng.random() < 0.3)
        c.update(kw)
        cases.append(c)

    def window(shape):
        W = np.array([int(rng.random() < 0.65) for _ in range(int(np.prod(shape)))]).reshape(shape)
        W[tuple(k // 2 for k in shape)] = rng.randint(1, 3)
        return W.tolist()

    for m in model:
        nn, w, ch = m["n"], m["w"], m["chunks"]
        kind = rng.randrange(3)
        if kind == 0:
            add(nav=[nn], chunks=[ch, 2, 2], sig=[2, 2], W=window([w]))
        elif kind == 1:
            k = rng.randint(1, 3)
            add(nav=[nn, k], chunks=[ch, rng.randint(1, k), 2, 2], sig=[2, 2],
                W=window([w, rng.randint(1, 3)]))
        else:
            k = rng.randint(1, 3)
            add(nav=[k, nn], chunks=[rng.randint(1, k), ch, 2, rng.choice([1, 2])], sig=[2, 2],
                W=window([rng.randint(1, 4), w]))
    for _ in range(ctx.n(120, 1200)):
        nav = rng.choice([[rng.randint(1, 8)], [rng.randint(1, 5), rng.randint(1, 5)]])
        kw = dict(nav=nav, W=window([rng.randint(1, 5) for _ in nav]),
                  default=rng.random() < 0.2)
        if rng.random() < 0.4:
            kw["chunks"] = [rng.randint(1, k) for k in nav] + [-1, -1]
        add(**kw)
    ctx.sample(*cases[::60])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceNeighbourDotProducts", cases, traces)
    ctx.assumptions += ["patterns of at most six pixels and intensities up to 7, none of them flat",
                        "windows contain their origin"]
