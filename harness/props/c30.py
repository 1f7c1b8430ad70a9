"""C30: models from decompositions."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload


def quiet():
    stack = contextlib.ExitStack()
    stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
    stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return stack


def snapshot(lr):
    f, l = lr.factors, lr.loadings
    return (type(f), type(l), f.dtype, l.dtype, np.array(f), np.array(l), lr.output_dimension,
            None if lr.mean is None else np.array(lr.mean))


def equal(a, b):
    return all(np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))


def case_call(kp, c):
    import dask.array as da

    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    f, l = np.array(c["factors"], float), np.array(c["loadings"], float)
    s = kp.signals.EBSD(rng.integers(0, 100, nav + sig).astype(c["dtype"]),
                        detector=kp.detectors.EBSDDetector(shape=sig, pc=np.round(rng.uniform(0.2, 0.8, nav + (3,)), 2)
                                                           if nav else (0.3, 0.4, 0.6), tilt=5))
    s.static_background = rng.integers(1, 100, sig).astype(c["dtype"])
    for i, n in enumerate(nav):
        s.axes_manager[len(nav) - 1 - i].scale = 0.5 + i
    if nav and 1 not in nav:
        from orix.crystal_map import CrystalMap, create_coordinate_arrays
        from orix.quaternion import Rotation

        d, n = create_coordinate_arrays(nav, tuple([0.5 + i for i in range(len(nav))]))
        s.xmap = CrystalMap(rotations=Rotation.random((n,)), **d)
    s = s.as_lazy() if c["lazy"] else s
    lr = s.learning_results
    if c["held"] == "dask":
        lr.factors, lr.loadings = da.from_array(f, chunks=(2, -1)), da.from_array(l, chunks=(3, -1))
    else:
        lr.factors, lr.loadings = f.astype(c["held"]), l.astype(c["held"])
    mean = []
    if c["mean"] == "pattern":
        mean = rng.integers(0, 9, (len(l), 1)).tolist()
    elif c["mean"] == "pixel":
        mean = rng.integers(0, 9, (1, len(f))).tolist()
    if mean:
        lr.mean = np.array(mean, float)
        if c["mean"] == "pixel" and c["seed"] % 2:
            lr.mean = lr.mean.ravel()
    keep, patterns = snapshot(lr), np.array(s.data)
    root = Path(tempfile.mkdtemp(prefix="c30_"))
    out = []
    try:
        for i, e in enumerate(c["hist"]):
            fn = {"a": f"a{i}.hspy", "b": f"b{i}.hspy", "bad": "c.xyz"}.get(e["name"], "")
            do = e["do"] if c["lazy"] else "model"
            comp = {"all": None, "first": (e["list"] or [0])[0], "list": e["list"]}[e["kind"]]
            r = dict(op="call", do=do, kind=e["kind"], list=e["list"], name=(fn if e["name"] != "bad" else "bad") if do == "write" else "",
                     factors=c["factors"], loadings=c["loadings"], mean=mean, err="", values=[], top=0, shape=[],
                     shape0=list(nav + sig), dtype="", dtype0="", xmap=True, detector=True, background=True, none=True,
                     own=True, **{"class": "", "class0": type(s).__name__},
                     key=("centred-decomposition" if mean and do == "write" else dict(do=do, lazy=c["lazy"], nav=nav)))
            try:
                with quiet():
                    if do == "model":
                        m = s.get_decomposition_model(comp, dtype_out=c["out"])
                    else:
                        s.get_decomposition_model_write(comp, dtype_learn=c["out"].replace("16", "32"), mbytes_chunk=c["mbytes"],
                                                        dir_out=str(root), fname_out=fn)
                        m = __import__("hyperspy.api", fromlist=["load"]).load(str(root / fn), signal_type="EBSD")
            except Exception as ex:
                r["err"] = type(ex).__name__ + str(ex)[:80]
            else:
                v = np.asarray(m.data)
                r["class"] = type(m).__name__
                r["shape"] = list(v.shape)
                w = v.reshape(len(l), -1) if v.size == len(l) * len(f) else v.reshape(1, -1)
                r["values"] = q(w, 1).tolist() if isinstance(q(w, 1), np.ndarray) else q(w, 1)
                if do == "model":
                    r["dtype0"] = r["dtype"] = c["out"]
                    if not mean:
                        r["dtype"] = str(v.dtype)
                    r["xmap"] = bool(not nav or 1 in nav or (m.xmap is not s.xmap and m.xmap.shape == s.xmap.shape and
                                     np.allclose(m.xmap.rotations.data, s.xmap.rotations.data)))
                    r["detector"] = bool(np.array_equal(m.detector.pc, s.detector.pc) and m.detector.tilt == 5
                                         and m.detector.shape == sig)
                    r["background"] = bool(np.array_equal(m.static_background, s.static_background))
                    r["none"] = m.learning_results.factors is None and m.learning_results.loadings is None
                    # Changing the model does not change the signal
                    m.detector.tilt = 7
                    m.static_background[...] = 0
                    r["own"] = bool(s.detector.tilt == 5 and np.all(s.static_background > 0))
                else:
                    r["dtype0"], r["dtype"] = c["dtype"], str(v.dtype)
                    r["top"] = int(np.iinfo(v.dtype).max) if v.dtype.kind in "ui" else 1
            r["learning"] = equal(keep, snapshot(s.learning_results))
            r["patterns"] = bool(np.array_equal(patterns, np.asarray(s.data)) and s._lazy == c["lazy"])
            r["files"] = sorted(os.listdir(root))
            out.append(r)
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def case_real(kp, c):
    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    s = kp.signals.EBSD((rng.random(nav + sig) + np.arange(np.prod(sig)).reshape(sig) * 0.1).astype(c["dtype"]))
    if c["lazy"]:
        s = s.as_lazy()
    n = int(np.prod(nav))
    with quiet():
        s.decomposition(output_dimension=n, centre=c["centre"] or None, print_info=False)
    keep = snapshot(s.learning_results)
    X = np.asarray(s.data)

    def model(k=None):
        with quiet():
            return np.asarray(s.get_decomposition_model(k, dtype_out=c["dtype"]).data)

    errs = [float(np.sqrt(np.mean((model(k) - X) ** 2))) for k in range(1, n + 1)]
    k = int(rng.integers(1, n))
    mean = 0 if s.learning_results.mean is None else s.learning_results.mean.reshape(nav + (1, 1))
    add = np.abs(model(k) + model(list(range(k, n))) - model() - mean).max()
    with quiet():
        m = s.get_decomposition_model(2)
    return [dict(op="real", errs=[q(e, 10**5) for e in errs], err_all=q(float(np.abs(model() - X).max()), 10**5),
                 additive=q(float(add), 10**5), learning=equal(keep, snapshot(s.learning_results)),
                 **{"class": type(m).__name__, "class0": type(s).__name__}, key=dict(lazy=c["lazy"], centre=c["centre"]))]


def case_run(c):
    kp = kikuchipy()
    warnings.simplefilter("ignore")
    import hyperspy.api as hs

    hs.preferences.General.show_progressbar = False
    hs.set_log_level("CRITICAL")
    return case_real(kp, c) if c["op"] == "real" else case_call(kp, c)


def run(ctx):
    preload("kikuchipy.signals", "hyperspy.api")
    rng = ctx.rng
    states = []
    for n, nav, px in [(3, 4, 4), (2, 6, 6)] + ([] if ctx.quick else [(4, 6, 6), (1, 4, 4)]):
        states += [dict(s, n=n, patterns=nav, pixels=px) for s in ctx.mc("MCDecompositionModel", """
SPECIFICATION Spec
CONSTANT N = %d
CONSTANT Patterns = %d
CONSTANT Pixels = %d
CONSTANT Values <- MCValues
CONSTANT MaxCalls = 2
INVARIANTS Kept %s Shape Emit
CHECK_DEADLOCK FALSE
""" % (n, nav, px, "Additive Ordered"), expect_cases=1000)]
    rng.shuffle(states)
    shapes = {4: [[2, 2], [4], [1, 4], [4, 1]], 6: [[2, 3], [3, 2], [6], [1, 6]]}
    held = ["float64", "float32", "dask", "float64"]
    cases = []

    def setting(k):
        return dict(op="call", lazy=k % 4 != 0, held=held[k % 3], out=rng.choice(["float32", "float32", "float64", "float16"]),
                    dtype=rng.choice(["uint8", "uint8", "uint16"]), mbytes=rng.choice([100, 100, 1, 2e-4]),
                    seed=rng.randrange(10**6))

    for k, m in enumerate(states[: ctx.n(120, 1200)]):
        cases.append(dict(setting(k), nav=rng.choice(shapes[m["patterns"]]), mean="",
                          sig=rng.choice([x for x in shapes[m["pixels"]] if len(x) == 2 and 1 not in x]),
                          factors=m["factors"], loadings=m["loadings"], hist=m["hist"]))
    # Random learning results, with means
    for k in range(ctx.n(120, 1500)):
        nav = rng.choice([[2, 3], [3, 4], [5], [1, 3], [3, 1], [], [2, 2]])
        sig = [rng.randint(2, 4), rng.randint(2, 4)]
        n = rng.randint(1, 5)
        rows = [int(np.prod(sig)), int(np.prod(nav)) if nav else 1]
        f, l = ([[rng.randint(-4, 4) for _ in range(n)] for _ in range(r)] for r in rows)
        hist = []
        for _ in range(rng.randint(1, 3)):
            kind = rng.choice(["all", "first", "list", "list"])
            x = [rng.randint(1, n + 1)] if kind == "first" else [] if kind == "all" else rng.sample(range(n), rng.randint(1, n))
            if kind == "list" and rng.random() < 0.2:
                x = [v - n for v in x] if rng.random() < 0.5 else x + [n]
            hist.append(dict(do=rng.choice(["model", "write"]), kind=kind, list=x, name=rng.choice(["a", "b", "b", "bad"])))
        lone = rows[1] == 1 or rows[0] == rows[1]
        mean = "" if lone else rng.choice(["", "", "pattern", "pixel"])
        if mean == "pixel":
            for h in hist:
                h["do"] = "write"
        s = setting(k)
        if mean == "pixel":
            s["lazy"] = True
        cases.append(dict(s, nav=nav, sig=sig, mean=mean, factors=f, loadings=l, hist=hist))
    for k in range(ctx.n(16, 120)):
        cases.append(dict(op="real", nav=rng.choice([[2, 2], [2, 3], [4], [1, 3]]), sig=[rng.randint(3, 5), rng.randint(3, 5)],
                          lazy=k % 2 == 0, centre=["", "signal"][k // 2 % 2], dtype=["float32", "float64"][k // 4 % 2],
                          seed=rng.randrange(10**6)))
    ctx.sample(*cases[::60])
    ctx.judge("TraceDecompositionModel", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "HyperSpy's decomposition itself is not specified beyond returning components which together "
        "give the patterns back.",
    ]
