"""Runs histories of operations on EBSD signals and observes every state."""
import numpy as np

from harness.core import q
from harness.kp import lazy

NONE = 1000


def phases():
    from orix.crystal_map import Phase, PhaseList

    return PhaseList([Phase("a", point_group="m-3m"), Phase("b", point_group="6/mmm")])


def make_map(nav, steps):
    from orix.crystal_map import CrystalMap, create_coordinate_arrays
    from orix.quaternion import Rotation

    n = int(np.prod(nav))
    co, _ = create_coordinate_arrays(tuple(nav), tuple(steps)) if nav else ({}, 1)
    ids = np.arange(1, n + 1)
    if not nav:
        co = {}
    return CrystalMap(rotations=Rotation.from_axes_angles([0, 0, 1], ids / 100),
                      phase_id=ids % 2, prop={"i": ids}, scan_unit="um",
                      phase_list=phases(), **co)


def build(kp, c):
    """Signal of case c and what the specification needs of the original."""
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    n = int(np.prod(nav))
    rng = np.random.default_rng(c["seed"])
    P = rng.integers(0, 8, (n,) + sig)
    data = P.reshape(nav + sig).astype(c["dtype"])
    step = [1.5, 0.5][: len(nav)]
    sig_step = [2.0, 4.0] if c.get("aniso") else [2.0, 2.0]
    pc2 = rng.integers(1, 12, (n, 3))  # Two times the center in pixels
    if not c["pcn"]:
        pc2[:] = pc2[0]
    pc = pc2 / (2 * np.array([sig[1], sig[0], sig[0]]))
    pc = pc.reshape(nav + (3,)) if c["pcn"] and nav else pc[0]
    det = kp.detectors.EBSDDetector(shape=sig, pc=pc, sample_tilt=65, tilt=3, azimuthal=2,
                                    twist=1.5, binning=2, px_size=50)
    kw = dict(detector=det)
    bg = rng.integers(0, 8, sig)
    if c["bg"]:
        kw["static_background"] = bg.astype(c["dtype"])
    if c["xmap"]:
        kw["xmap"] = make_map(nav, step)
    if c["lazy"]:
        ch = tuple(max(1, (k + 1) // 2) for k in nav) + sig
        s = lazy(kp, data, ch, **kw)
    else:
        s = kp.signals.EBSD(data, **kw)
    for i, (a, sc) in enumerate(zip(s.axes_manager._axes, step + sig_step)):
        a.scale, a.units = sc, "um"
        a.name = (["y", "x"][-len(nav):] if nav else [])[i] if i < len(nav) else ["dy", "dx"][i - len(nav)]
    orig = dict(nav=list(nav), P=P.tolist(), bg=bg.tolist(), pc=pc2.tolist(),
                tilts=[6500, 300, 200, 150, 5000], binning=2,
                step=[round(10 * x) for x in step], sig_step=[round(10 * x) for x in sig_step])
    return s, orig


def state(s, exact=True):
    """The observable state of a signal."""
    am = s.axes_manager
    d = s.data
    d = np.asarray(d.compute() if hasattr(d, "compute") else d)
    nav = d.shape[:-2]
    det = s.detector
    x = s.xmap
    if x is None:
        xm = dict(has=False)
    else:
        xm = dict(has=True, size=int(x.size), shape=list(x.shape),
                  ids=np.atleast_1d(x.prop["i"]).astype(int).tolist(),
                  rot=np.rint(np.atleast_1d(x.rotations.angle) * 100).astype(int).ravel().tolist(),
                  phase=np.atleast_1d(x.phase_id).astype(int).tolist(),
                  x=[] if x.x is None else np.rint(np.atleast_1d(x.x) * 10).astype(int).tolist(),
                  y=[] if x.y is None else np.rint(np.atleast_1d(x.y) * 10).astype(int).tolist())
    b = s.static_background
    if b is None:
        bg = dict(has=False)
    else:
        b = np.asarray(b.compute() if hasattr(b, "compute") else b)
        bg = dict(has=True, shape=list(b.shape), values=q(b.ravel(), 1 if exact else 1000))
    nd = len(nav)
    axes = am._axes
    return dict(
        shape=list(d.shape), data=q(d.reshape((-1, d.shape[-2] * d.shape[-1])), 1 if exact else 1000),
        det_shape=list(det.shape), det_nav=list(det.navigation_shape),
        pc=q(det.pc.reshape(-1, 3), 10000),
        tilts=[round(100 * v) for v in (det.sample_tilt, det.tilt, det.azimuthal, det.twist,
                                        det.px_size)],
        binning=round(det.binning * 10), xmap=xm, bg=bg,
        off=[round(10 * a.offset) for a in axes[:nd]], scale=[round(10 * a.scale) for a in axes[:nd]],
        sig_off=[round(10 * a.offset) for a in axes[nd:]],
        sig_scale=[round(10 * a.scale) for a in axes[nd:]],
        lazy=bool(s._lazy), dtype=str(d.dtype), cls=type(s).__name__)


def pyslice(sel, axis=None):
    """Python index of a selection; positions in axis units if axis given."""
    def at(v):
        if v == NONE:
            return None
        if axis is not None and 0 <= v < axis.size:
            return float(axis.offset + axis.scale * v)
        return v
    if sel["k"] == "i":
        return at(sel["a"])
    return slice(at(sel["a"]), at(sel["b"]), None if sel["st"] == 1 else sel["st"])


def apply(s, o):
    """Apply operation o to signal s. Returns the resulting signal."""
    name = o["name"]
    am = s.axes_manager
    nd = am.navigation_dimension
    fl = o.get("float", False)
    if name in ("inav", "isig"):
        ax = am._axes[:nd] if name == "inav" else am._axes[nd:]
        idx = tuple(pyslice(x, a if fl else None) for x, a in zip(o["sel"], ax))[::-1]
        if o.get("how") == "crop_signal":
            (r, c) = (pyslice(x) for x in o["sel"])
            s.crop_signal(top=r.start, bottom=r.stop, left=c.start, right=c.stop)
            return s
        return getattr(s, name)[idx if len(idx) > 1 else idx[0]]
    if name == "crop":
        a = am._axes[o["axis"] - 1]
        sl = pyslice(o["sel"][0], a if fl else None)
        key = {"name": a.name, "index": o["axis"] - 1, "axis": a}[o.get("how", "name")]
        if o.get("how") == "index":
            key = a.index_in_axes_manager
        s.crop(key, start=sl.start, end=sl.stop)
        return s
    if name == "downsample":
        if o.get("how") == "inplace":
            s.downsample(o["k"], show_progressbar=False)
            return s
        return s.downsample(o["k"], inplace=False, show_progressbar=False)
    if name == "rebin":
        sc = list(o["kn"][::-1]) + [o["kc"], o["kr"]]
        if o.get("how") == "new_shape":
            sh = list(s.data.shape[:nd][::-1]) + list(s.data.shape[nd:][::-1])
            return s.rebin(new_shape=[a // b for a, b in zip(sh, sc)])
        return s.rebin(scale=sc)
    if name == "grid":
        out, idx = s.extract_grid(tuple(o["grid"][::-1]), return_indices=True)
        o["ix"] = ([idx[0].tolist()] if nd == 1
                   else [idx[0][:, 0].tolist(), idx[1][0].tolist()])
        return out
    if name == "lazy":
        return s.as_lazy()
    if name == "compute":
        s.compute(show_progressbar=False)
        return s
    if name == "dtype":
        s.change_dtype(o["to"])
        return s
    if name == "copy":
        return s.deepcopy()
    raise ValueError(name)


def random_op(rng, s):
    """A random operation that s allows."""
    am = s.axes_manager
    nd = am.navigation_dimension
    shape = s.data.shape
    nav, sig = shape[:nd], shape[nd:]

    def sel(n, least=1, steps=(1,), ints=False):
        if ints and rng.random() < 0.3:
            return dict(k="i", a=rng.randrange(-n, n), b=0, st=1)
        for _ in range(50):
            a = rng.choice([NONE, rng.randrange(n), -rng.randint(1, n)])
            b = rng.choice([NONE, rng.randrange(n), -rng.randint(1, n)])
            st = rng.choice(steps)
            k = len(range(n)[slice(None if a == NONE else a, None if b == NONE else b, st)])
            if k >= least:
                return dict(k="s", a=a, b=b, st=st)
        return dict(k="s", a=NONE, b=NONE, st=1)

    names = ["isig", "crop", "downsample", "rebin", "lazy", "compute", "dtype", "copy"]
    if nd:
        names += ["inav", "inav", "inav", "grid"]
    for _ in range(100):
        name = rng.choice(names)
        o = dict(name=name, float=rng.random() < 0.25)
        if name == "inav":
            o["sel"] = [sel(n, 1, (1, 1, 1, 2, -1, 3), True) for n in nav]
        elif name == "isig":
            o["sel"] = [sel(n, 2, (1, 1, 1, 1, 1, 1, 2)) for n in sig]
            if rng.random() < 0.3 and all(x["st"] == 1 for x in o["sel"]):
                o["how"] = "crop_signal"
                o["float"] = False
        elif name == "crop":
            i = rng.randint(1, nd + 2)
            o.update(axis=i, sel=[sel(shape[i - 1], 1 if i <= nd else 2)],
                     how=rng.choice(["name", "index", "axis"]))
        elif name == "downsample":
            ks = [k for k in (2, 3) if all(n % k == 0 and n // k >= 2 for n in sig)]
            if not ks:
                continue
            o.update(k=rng.choice(ks), how=rng.choice(["inplace", "out"]))
        elif name == "rebin":
            div = s._lazy
            o.update(kn=[rng.choice([k for k in (1, 1, 1, 2) if n >= k and (not div or n % k == 0)])
                         for n in nav])
            ks = [k for k in (1, 1, 2, 3) if all(n // k >= 2 and (not div or n % k == 0) for n in sig)]
            k1 = rng.choice(ks)
            k2 = k1 if rng.random() < 0.8 else rng.choice(ks)
            o.update(kr=k1, kc=k2)
            full = all(n % k == 0 for n, k in zip(shape, o["kn"] + [k1, k2]))
            o["how"] = "new_shape" if full and rng.random() < 0.4 else "scale"
            if all(k == 1 for k in o["kn"] + [k1, k2]):
                continue
        elif name == "grid":
            o["grid"] = [rng.randint(1, n) for n in nav]
        elif name == "lazy":
            if s._lazy:
                continue
        elif name == "compute":
            if not s._lazy:
                continue
        elif name == "dtype":
            o["to"] = rng.choice(["uint8", "uint16", "float32"])
            if s.data.dtype.kind == "f" and o["to"] != "float32":
                continue
            if s.data.dtype.itemsize > np.dtype(o["to"]).itemsize:
                continue
        return o
    return dict(name="copy")
