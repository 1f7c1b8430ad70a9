"""C23: similarity metrics and image quality."""
import numpy as np

from harness.core import q
from harness.kp import kikuchipy, layout, preload


def patterns(rng, n, shape, top, dtype):
    """Integer patterns, none of one value only, some related by gain and offset."""
    a = rng.integers(0, top, (n,) + shape)
    for i in range(n):
        if i and rng.random() < 0.4:
            a[i] = a[rng.integers(i)] * rng.integers(1, 3) + rng.integers(0, 4)
        if np.ptp(a[i]) == 0:
            a[i].flat[0] += 1
    return a.astype(dtype)


def container(c, a, kind, chunk):
    import dask.array as da

    if kind == "numpy":
        return a
    return da.from_array(a, chunks=tuple(max(1, (n + k - 1) // k) for n, k in zip(a.shape, chunk)))


def case_run(c):
    kp = kikuchipy()
    return globals()["do_" + c["kind"]](kp, c)


def usable(a, mask):
    """Vary among the pixels kept."""
    b = a.reshape(len(a), -1)[:, ~mask.ravel()]
    return np.ptp(b, axis=1).min() > 0


def do_scores(kp, c):
    import dask.array as da
    from kikuchipy.indexing import NormalizedCrossCorrelationMetric, NormalizedDotProductMetric

    rng = np.random.default_rng(c["seed"])
    nav, sig, m = tuple(c["nav"]), tuple(c["sig"]), c["m"]
    n = int(np.prod(nav, dtype=int))
    while True:
        sigmask = rng.random(sig) < c["masked"]
        if c["exact"] is not None:
            e = np.array([c["exact"]["x"]] * n).reshape((n,) + sig).astype(c["dtypes"][0])
            d = np.array([c["exact"]["y"]] * m).reshape((m,) + sig).astype(c["dtypes"][1])
            sigmask = np.array(c["exact"]["mask"]).reshape(sig)
            break
        e = patterns(rng, n, sig, c["top"], c["dtypes"][0])
        d = patterns(rng, m, sig, c["top"], c["dtypes"][1])
        if rng.random() < 0.5:
            d[rng.integers(m)] = e[rng.integers(n)]
        if (~sigmask).sum() > 1 and usable(e, sigmask) and usable(d, sigmask):
            break
    navmask = rng.random(nav) < c["left_out"]
    if navmask.all():
        navmask.flat[-1] = False
    cls = dict(ncc=NormalizedCrossCorrelationMetric, ndp=NormalizedDotProductMetric)[c["metric"]]
    kw = dict(dtype=c["dtype"], rechunk=c["rechunk"])
    if c["masked"] or c["exact"] is not None:
        kw["signal_mask"] = sigmask = layout(sigmask, c["seed"] // 3)
    if c["left_out"]:
        kw["navigation_mask"] = navmask = layout(navmask, c["seed"] // 11)
    ex = e.reshape(nav + sig)
    keep = [a.copy() for a in (ex, d, sigmask, navmask)]
    ea = container(c, ex, c["containers"][0], [c["chunks"][0]] * len(nav) + [c["chunks"][1]] * 2)
    di = container(c, d, c["containers"][1], [c["chunks"][0]] + [c["chunks"][1]] * 2)
    if c["how"] == "set":
        metric = cls(dtype=c["dtype"])
        for name, v in dict(kw, n_experimental_patterns=n, n_dictionary_patterns=m).items():
            setattr(metric, name, v)
    else:
        metric = cls(n, m, **kw)
    metric.raise_error_if_invalid()
    if c["how"] == "steps":
        a = metric.prepare_experimental(ea)
        b = metric.prepare_dictionary(di.reshape((m, -1)))
        out = metric.match(a, b)
    else:
        out = metric(ea, di)
    out = out.compute() if isinstance(out, da.Array) else out
    kept = all(np.array_equal(a, b) for a, b in zip((ex, d, sigmask, navmask), keep))
    flat = lambda v: v.reshape(len(v), -1).astype(int).tolist()  # noqa: E731
    return [dict(
        op="scores", metric=c["metric"], exp=flat(e), sim=flat(d),
        sigmask=(sigmask if "signal_mask" in kw else np.zeros(sig, bool)).ravel().tolist(),
        navmask=(navmask if "navigation_mask" in kw else np.zeros(nav, bool)).ravel().tolist(),
        scores=q(out, 10000), dtype=str(out.dtype), dtype0=c["dtype"], kept=kept,
        key={k: c[k] for k in ("metric", "nav", "sig", "m", "dtype", "dtypes", "containers",
                               "rechunk", "how", "chunks", "seed")})]


def even(rng, shape, top):
    """Even about the origin in either direction."""
    a = rng.integers(0, top, shape)
    for axis, n in enumerate(shape):
        a = np.take(a, [min(k, n - k) for k in range(n)], axis)
    return a


def quality_map(kp, a, c, lazy, **kw):
    s = kp.signals.EBSD(a.copy())
    if lazy:
        s = s.as_lazy()
        s.data = s.data.rechunk(tuple(max(1, n // c["chunk"]) for n in a.shape[:-2]) + (-1, -1))
    return np.asarray(s.get_image_quality(normalize=c["normalize"], show_progressbar=False))


def do_quality(kp, c):
    from kikuchipy.pattern import fft_frequency_vectors, get_image_quality

    rng = np.random.default_rng(c["seed"])
    shape = tuple(c["sig"])
    while True:
        p = even(rng, shape, c["top"])
        if np.ptp(p):
            break
    pd = p.astype(c["dtype"])
    kw, weights, largest = {}, [], 0
    if c["given"] == "vectors":
        w = rng.integers(0, 9, shape)
        w.flat[-1] = 5
        kw, weights = dict(frequency_vectors=w.astype(float)), w.tolist()
    elif c["given"] == "largest":
        largest = 7
        kw = dict(inertia_max=7)
    elif c["given"] == "default":
        kw = dict(frequency_vectors=fft_frequency_vectors(shape))
    keep = pd.copy()
    v = get_image_quality(pd, normalize=c["normalize"], **kw)
    others = []
    if c["given"] in ("none", "default"):
        stack = np.stack([pd, rng.integers(0, c["top"], shape).astype(c["dtype"]), pd, pd])
        stack[1].flat[0] = stack[1].flat[1] + 1
        for lazy in (False, True):
            got = quality_map(kp, stack, c, lazy)
            others += [got[0], got[2], got[3]]
    if not np.array_equal(pd, keep):
        others.append(9)
    return [dict(op="quality", pattern=p.tolist(), normalize=c["normalize"], weights=weights,
                 largest=largest, quality=q(v, 1e5), others=q(np.array(others), 1e5),
                 key={k: c[k] for k in ("sig", "dtype", "normalize", "given", "seed")})]


def do_map(kp, c):
    from kikuchipy.pattern import get_image_quality

    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    n = int(np.prod(nav, dtype=int))
    a = rng.integers(1, c["top"], (n,) + sig)
    a[:, 0, 0] = a[:, 0, 1] + 1
    ad = a.astype(c["dtype"]).reshape(nav + sig)
    keep = ad.copy()
    got = quality_map(kp, ad, c, c["lazy"])
    alone = [get_image_quality(p, normalize=c["normalize"]) for p in ad.reshape((-1,) + sig)]
    gain = rng.integers(2, 5, (n, 1, 1))
    offset = rng.integers(1, 50, (n, 1, 1)) if c["normalize"] else 0
    scaled = (a * gain + offset).astype(c["dtype2"]).reshape(nav + sig)
    return [dict(op="map", shape=list(got.shape), shape0=list(nav) or [1], map=q(got.ravel(), 1e5),
                 alone=q(np.array(alone), 1e5),
                 scaled=q(quality_map(kp, scaled, c, not c["lazy"]).ravel(), 1e5),
                 dtype=str(got.dtype), kept=bool(np.array_equal(ad, keep)),
                 key={k: c[k] for k in ("nav", "sig", "dtype", "normalize", "lazy", "seed")})]


def do_refused(kp, c):
    from kikuchipy.indexing import NormalizedCrossCorrelationMetric, NormalizedDotProductMetric

    cls = dict(ncc=NormalizedCrossCorrelationMetric, ndp=NormalizedDotProductMetric)[c["metric"]]
    try:
        cls(1, 1, dtype=c["dtype"]).raise_error_if_invalid()
        error = "none"
    except Exception as e:
        error = type(e).__name__
    return [dict(op="refused", error=error,
                 want="none" if c["dtype"] in ("float32", "float64") else "ValueError",
                 key=dict(metric=c["metric"], dtype=c["dtype"]))]


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCSimilarity",
                   f"SPECIFICATION Spec\nCONSTANTS Len0 = {ctx.n(3, 4)} Vals = {{0, 1, 3}} "
                   "Gains = {2, 5} Offsets = {1, 4}\n"
                   "INVARIANTS AtMostOne SelfIsOne Symmetric Unchanged OnlyRelated Emit\n"
                   "CHECK_DEADLOCK FALSE\n", expect_cases=2000)
    cases = []

    def scores(**kw):
        return dict(dict(
            kind="scores", metric=rng.choice(["ncc", "ndp"]), exact=None,
            dtype=rng.choice(["float32", "float64"]),
            nav=rng.choice([[], [1], [4], [1, 3], [3, 2], [2, 4]]),
            sig=rng.choice([[2, 2], [2, 3], [3, 4], [1, 5], [4, 2]]), m=rng.choice([1, 2, 5, 7]),
            top=rng.choice([3, 20, 90]), masked=rng.choice([0, 0, 0.3, 0.5]),
            left_out=rng.choice([0, 0, 0.3, 0.7]), rechunk=rng.random() < 0.4,
            dtypes=[rng.choice(["uint8", "uint16", "int32", "float32", "float64"])
                    for _ in range(2)],
            containers=[rng.choice(["numpy", "dask"]) for _ in range(2)],
            chunks=[rng.choice([1, 2, 3]), rng.choice([1, 1, 2])],
            how=rng.choice(["call", "call", "steps", "set"]), seed=rng.randrange(1 << 30)), **kw)

    def usable_model(m):
        def ok(p):
            kept = [v for v, out in zip(p, m["mask"]) if not out]
            return len(set(kept)) > 1
        return ok(m["x"]) and ok(m["y"])

    exact = [m for m in model if usable_model(m)]
    for m in rng.sample(exact, min(len(exact), ctx.n(150, 2000))):
        n = len(m["x"])
        cases.append(scores(exact=m, sig=rng.choice([[1, n], [n, 1]]), nav=rng.choice([[], [2]]),
                            m=rng.choice([1, 2]), masked=0.5))
    for _ in range(ctx.n(300, 3000)):
        cases.append(scores())
    sides = [2, 3, 4, 6]
    for ny in sides:
        for nx in sides:
            for given in ("none", "vectors", "largest", "default"):
                for normalize in (True, False):
                    for _ in range(ctx.n(1, 6)):
                        cases.append(dict(
                            kind="quality", sig=[ny, nx], given=given, normalize=normalize,
                            top=rng.choice([5, 20]), chunk=rng.choice([1, 2]),
                            dtype=rng.choice(["uint8", "uint16", "int16", "float32", "float64"]),
                            seed=rng.randrange(1 << 30)))
    for _ in range(ctx.n(60, 600)):
        cases.append(dict(
            kind="map", nav=rng.choice([[], [1], [4], [2, 3], [3, 1], [1, 2]]),
            sig=rng.choice([[5, 7], [8, 3], [6, 6], [9, 10], [2, 2]]), top=rng.choice([5, 50]),
            dtype=rng.choice(["uint8", "uint16", "float32"]), normalize=rng.random() < 0.5,
            dtype2=rng.choice(["uint16", "float32", "float64"]), lazy=rng.random() < 0.5,
            chunk=rng.choice([1, 2]), seed=rng.randrange(1 << 30)))
    for metric in ("ncc", "ndp"):
        for dtype in ("float32", "float64", "float16", "uint8", "int32", "complex64"):
            cases.append(dict(kind="refused", metric=metric, dtype=dtype))
    ctx.sample(*cases[::120])
    ctx.judge("TraceSimilarity", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "Scores are compared to 3 / 10000 with exact ones of integer patterns of 2-12 pixels, "
        "image quality to 2 / 1000 with the exact one of patterns even about their origin.",
        "Patterns of one value only have no similarity or normalized quality.",
    ]
