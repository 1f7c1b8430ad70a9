"""C33: histories of master patterns."""
import contextlib
import io

import numpy as np

from harness.kp import kikuchipy, layout, preload

FULL = 7
TYPES = {"first": "float32", "second": "float64"}


def data_of(sig):
    """Constant images of the hemispheres and energies a signal holds."""
    v = np.array([[(0 if h == "upper" else 1000) + 100 * e + sig["add"] for e in sig["en"]]
                  for h in sig["hemi"]], "float32")
    v = v[..., None, None] * np.ones((FULL, FULL), "float32")
    return v if sig["eax"] else v[:, 0]


def start(kp, c):
    import dask.array as da
    from orix.crystal_map import Phase

    sig = c["start"]
    d = data_of(sig)
    axes = [dict(name=n, size=k, **kw) for n, k, kw in zip(
        ("hemisphere", "energy", "height", "width"),
        (len(sig["hemi"]), len(sig["en"]), FULL, FULL),
        ({}, dict(offset=10, scale=5, units="keV"), dict(scale=0.5, offset=-2), {}))]
    if not sig["eax"]:
        axes.pop(1)
    if not sig["hax"]:
        d, axes = d[0], axes[1:]
    d = layout(d, c["layout"])
    kw = dict(axes=axes, projection=sig["proj"], phase=Phase("first", space_group=225),
              hemisphere="both" if len(sig["hemi"]) == 2 else sig["hemi"][0])
    if sig["lazy"]:
        return kp.signals.LazyEBSDMasterPattern(da.from_array(d, chunks=c["chunks"]), **kw)
    return kp.signals.EBSDMasterPattern(d, **kw)


def apply(s, o, way):
    """The signal an operation makes, or None if it is in place."""
    do, i, j = o["do"], o["i"], o["j"]
    axes = s.axes_manager
    if do in ("energy", "energies", "crop energies", "hemisphere", "crop hemispheres"):
        name = "hemisphere" if "hemi" in do else "energy"
        axis = axes[name]
        n = axis.size

        def at(k):
            """A position along the axis: an index, one from the end, or a value."""
            if way == 1 and k < n:
                return k - n
            if way == 2 and k < n:
                return float(axis.axis[k])
            return None if way == 3 and k in (0, n) and o["how"] == "range" else k
        if do.startswith("crop"):
            s.crop(name if way % 2 else axis.index_in_axes_manager, at(i) if way != 1 else i,
                   at(j) if way != 1 else j)
            return None
        sl = at(i) if o["how"] == "one" else slice(at(i), at(j))
        if [a.name for a in axes.navigation_axes][0] == name:
            return s.inav[sl]
        return s.inav[:, sl]
    if do == "window":
        return s.isig[i:j, i:j] if way % 2 else s.isig[i:, i:].isig[:j - i, :j - i]
    if do == "copy":
        return s.deepcopy()
    if do == "lazy":
        return s.as_lazy()
    if do == "compute":
        s.compute(show_progressbar=False)
        return None
    if do == "dtype":
        s.change_dtype(TYPES["second"])
        return None
    if do == "add":
        return s + 1
    if do == "adjust":
        return s.rescale_intensity(
            in_range=(0, 5000), out_range=(1, 5001), show_progressbar=False,
            inplace=o["how"] == "inplace",
            lazy_output={"new lazy": True, "new in memory": False}.get(o["how"]))
    if do == "class":
        s.set_signal_type("ECPMasterPattern" if type(s).__name__.endswith("EBSDMasterPattern")
                          else "EBSDMasterPattern")
        return None
    if do == "as Lambert":
        return s.as_lambert(show_progressbar=False)
    if do == "rename":
        if way % 2:
            s.phase.name = "second"
        else:
            new = s.phase.deepcopy()
            new.name = "second"
            s.phase = new
        return None
    raise ValueError(do)


def arrays(s):
    return np.asarray(s.data.compute() if s._lazy else s.data)


def says(s):
    ax = [a.name for a in s.axes_manager._axes]
    name = type(s).__name__
    return dict(
        hemisphere=str(s.hemisphere), projection=str(s.projection), phase=str(s.phase.name),
        cls={"EBSDMasterPattern": "EBSD", "ECPMasterPattern": "ECP"}.get(
            name.removeprefix("Lazy"), name),
        lazy=bool(s._lazy) and hasattr(s.data, "compute") and name.startswith("Lazy"),
        dt={v: k for k, v in TYPES.items()}.get(str(s.data.dtype), str(s.data.dtype)), axes=ax,
        energies=[int(v) if v == int(v) else -1 for v in s.axes_manager["energy"].axis] if "energy" in ax else [],
        shape=list(s.data.shape))


def number(a):
    """The value of a constant image."""
    a = np.asarray(a, float)
    r = float(np.round(np.mean(a), 3))
    return int(r) if np.allclose(a, r, atol=1e-2) and r == int(r) else -1


def images(s, sig):
    d = arrays(s)
    d = d.reshape((len(d) if d.ndim > 2 and "hemisphere" in
                   [a.name for a in s.axes_manager._axes] else 1, -1) + d.shape[-2:])
    return [[number(i) for i in row] for row in d]


def seen(kp, s, c):
    """Values in patterns of the upper and lower hemisphere, for each energy
    and for the one used when none is asked for."""
    from orix.quaternion import Rotation

    if s.projection != "lambert" or not type(s).__name__.endswith("EBSDMasterPattern"):
        return []
    det = kp.detectors.EBSDDetector(shape=(2, 2), pc=(0.5, 0.5, 5), sample_tilt=90)
    rot = Rotation.from_axes_angles([[1, 0, 0], [1, 0, 0]], [0, np.pi])
    names = [a.name for a in s.axes_manager._axes]
    energies = list(s.axes_manager["energy"].axis) if "energy" in names else [c["energy"]]
    out = []
    for e in energies + [None]:
        p = s.get_patterns(rot, det, energy=e, dtype_out=s.data.dtype, compute=True,
                           show_progressbar=False)
        out.append([number(i) for i in p.data])
    return out


def case_run(c):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        kp = kikuchipy()
        sigs = [start(kp, c)]
        recs = [record(kp, c, sigs, sigs[0], dict(op="start", signal=c["start"]))]
        for h, way in zip(c["hist"], c["ways"]):
            new = apply(sigs[h["k"] - 1], h["o"], way)
            if new is not None:
                sigs.append(new)
            recs.append(record(kp, c, sigs, sigs[h["k"] - 1] if new is None else new,
                               dict(op="step", k=h["k"], o=h["o"],
                                    key=dict(do=h["o"]["do"], how=h["o"]["how"]))))
        return recs


def record(kp, c, sigs, s, rec):
    return dict(rec, all=[says(x) for x in sigs], images=[images(x, c) for x in sigs], seen=seen(kp, s, c))


def run(ctx):
    preload()
    rng = ctx.rng
    cfg = ("SPECIFICATION MCSpec\nCONSTANTS MaxOps = {} Full = 7\nINVARIANTS TypeOK NoNewImages "
           "Emit\nCHECK_DEADLOCK FALSE\n")
    every = ctx.mc("MCMasterHistory", cfg.format(2), expect_cases=10000)
    long = ctx.mc("MCMasterHistory", cfg.format(5),
                  args=("-simulate", f"num={ctx.n(1000, 12000)}", "-depth", "7", "-seed",
                        str(ctx.seed)), workers=1, expect_cases=300)
    cases = []
    kinds = {}
    for m in every:  # Some of each pair of operations
        kinds.setdefault(str([(h["o"]["do"], h["o"]["how"], h["k"]) for h in m["hist"]]), []).append(m)
    pairs = [m for k, ms in kinds.items()
             for m in rng.sample(ms, min(len(ms), ctx.n(5 if "rename" in k else 2, 24)))]
    for m in pairs + \
            rng.sample(long, min(len(long), ctx.n(300, 6000))):
        cases.append(dict(m, ways=[rng.choice([0, 1, 1, 2, 3]) for _ in m["hist"]], layout=rng.randrange(5),
                          chunks=rng.choice(["auto", 1, 2, FULL]), energy=rng.choice([None, 10, 25.0])))
    ctx.sample(*cases[::200])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceMasterHistory", cases, traces)
    ctx.assumptions += [
        "Images are constant, so which image a pattern is of is seen, not how it is interpolated "
        "(C19, C20)"]
