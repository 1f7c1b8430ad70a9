"""Drivers shared by C04, C05 and C07."""
import math

import numpy as np

from harness.core import q
from harness.kp import layout, lazy, values

RANGE = {"uint8": (0, 255), "uint16": (0, 65535), "uint32": (0, 4294967295),
         "int8": (-128, 127), "int16": (-32768, 32767), "int32": (-2147483648, 2147483647),
         "float32": (-1, 1), "float64": (-1, 1), "float16": (-1, 1)}


def unit(dtype, rng=None, top=2000):
    """Factor on outputs such that the output range has at most ``top`` (or 255 for
    small integers) units."""
    lo, hi = rng or RANGE[dtype]
    size = hi - lo
    if np.dtype(dtype).kind in "iu" and size <= 255:
        return 1.0
    return top / size


def signal(kp, c, data, kind="EBSD", **kw):
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    data = np.asarray(data).reshape(nav + sig)
    if kind == "EBSD" and c.get("lazy"):
        ch = tuple(min(a, b) for a, b in zip(c["chunks"], nav)) + sig
        return lazy(kp, data, ch, **kw)
    cls = getattr(kp.signals, kind)
    s = cls(layout(data, c.get("seed", 0) // 7), **kw)
    if c.get("lazy"):
        s = s.as_lazy()
    return s


def dress(s):
    for k, a in enumerate(s.axes_manager._axes):
        a.scale, a.offset, a.units, a.name = 0.5 + k, 1.0 * k, "um", f"ax{k}"
    s.metadata.General.title = "title"
    return describe(s)


def describe(s):
    return [[a.size, a.scale, a.offset, str(a.units), str(a.name)] for a in s.axes_manager._axes], \
        s.metadata.General.title, type(s).__name__.replace("Lazy", "")


def apply(c, s, data, call):
    """Call in place or not. Returns the result and what frames it."""
    before = dress(s)
    if c["inplace"]:
        out = call(s, dict(inplace=True))
        assert out is None
        out = s
        want_lazy = c["lazy"]
        same = True
    else:
        kw = dict(inplace=False)
        if c["lazy_output"] is not None:
            kw["lazy_output"] = c["lazy_output"]
        out = call(s, kw)
        want_lazy = c["lazy"] if c["lazy_output"] is None else c["lazy_output"]
        same = bool(np.array_equal(values(s), data)) and describe(s) == before
    return out, before, dict(lazy=bool(out._lazy), want_lazy=bool(want_lazy), same=same)


def frame(out, before, f, want_dtype, want_shape, kept=None):
    d = values(out)
    return dict(f, dtype=str(d.dtype), want_dtype=want_dtype, shape=list(d.shape),
                want_shape=list(want_shape),
                kept=(describe(out) == before) if kept is None else kept)


def outputs(out, n, k):
    d = values(out).astype(np.float64)
    return [q(np.floor(p * k) if k == 1 else p * k) for p in d.reshape(n, -1)]


def gaussian(std, truncate, domain):
    """Weights (sum W), offset of the first one and how lines are extended."""
    W = 50000
    if domain == "spatial":
        rad = int(truncate * std + 0.5)
        x = range(-rad, rad + 1)
        o, mode = -rad, "reflect"
        v = [math.exp(-0.5 * (k / std) ** 2) for k in x]
    else:
        n = int(truncate * std)
        v = [math.exp(-0.5 * ((k - (n - 1) / 2) / std) ** 2) for k in range(n)]
        o, mode = -(n // 2), "nearest"
    w = [round(W * a / sum(v)) for a in v]
    w[len(w) // 2] += W - sum(w)
    return dict(w=w, W=W, o=o, boundary=mode)
