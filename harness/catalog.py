"""Public operations on signals, with random arguments, for several checks."""
import hashlib

import numpy as np


def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        if hasattr(a, "compute"):
            a = a.compute()
        a = np.asarray(a)
        h.update(str((a.dtype.str, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:16]


def axes(s):
    return str([(str(a.name), round(float(a.scale), 9), round(float(a.offset), 9), str(a.units),
                 int(a.size), bool(a.navigate)) for a in s.axes_manager._axes])


def metadata(s):
    d = s.metadata.as_dictionary()
    d.get("General", {}).pop("FileIO", None)
    d.pop("_HyperSpy", None)
    return str(d) + str(s.original_metadata.as_dictionary())


def detector(d):
    if d is None:
        return "-"
    return str((d.shape, d.navigation_shape, digest(d.pc), float(d.sample_tilt), float(d.tilt),
                float(d.azimuthal), float(d.twist), float(d.binning), float(d.px_size)))


def xmap(x):
    if x is None:
        return "-"
    return str((x.shape, digest(x.rotations.data, x.phase_id, x.is_in_data,
                                *[x.prop[k] for k in sorted(x.prop)]),
                sorted(x.prop), [str(p) for _, p in x.phases], x.scan_unit,
                "-" if x.x is None else digest(x.x), "-" if x.y is None else digest(x.y)))


def background(s):
    b = getattr(s, "static_background", None)
    return "-" if b is None else digest(b)


def attributes(s):
    """Digests of everything of a signal but its patterns."""
    d = dict(axes=axes(s), metadata=metadata(s))
    if hasattr(s, "detector"):
        d.update(detector=detector(s.detector), xmap=xmap(s.xmap), bg=background(s))
    return {k: hashlib.sha256(v.encode()).hexdigest()[:16] if k != "axes" else v
            for k, v in d.items()}


# Methods that return a processed signal.
#   name: (keyword arguments from a generator and signal shape, local?)
def _static(rng, sig, s):
    return dict(operation=rng.choice(["subtract", "divide"]), scale_bg=rng.random() < 0.5)


def _dyn(rng, sig, s):
    return dict(operation=rng.choice(["subtract", "divide"]),
                filter_domain=rng.choice(["frequency", "spatial"]),
                **({} if rng.random() < 0.4 else {"std": rng.choice([1, 2, 2.5])}),
                **({} if rng.random() < 0.6 else {"truncate": rng.choice([2, 3.0])}))


def _getdyn(rng, sig, s):
    return dict(filter_domain=rng.choice(["frequency", "spatial"]),
                **({} if rng.random() < 0.4 else {"std": rng.choice([1, 2, 2.5])}),
                **({} if rng.random() < 0.5 else {"dtype_out": rng.choice(["float32", "uint8"])}))


def _fft(rng, sig, s):
    if rng.random() < 0.6:
        return dict(tf=["modified", rng.choice([2, 3]), sig], function_domain="frequency",
                    shift=True)
    return dict(tf=["kernel", [[rng.randint(0, 3) for _ in range(3)] for _ in range(3)]],
                function_domain="spatial", shift=False)


def _avg(rng, sig, s):
    nd = s.axes_manager.navigation_dimension
    shape = [rng.choice([2, 3, 3, 4, 5, 6]) for _ in range(nd)]
    if rng.random() < 0.5:
        return dict(window="circular", window_shape=shape)
    return dict(win=np.array([rng.randint(0, 3) for _ in range(int(np.prod(shape)))])
                .reshape(shape).tolist(), plus=1)


def _down(rng, sig, s):
    ks = [k for k in (2, 3) if all(n % k == 0 and n // k > 2 for n in sig)]
    if not ks:
        return None
    return dict(factor=rng.choice(ks),
                **({} if rng.random() < 0.6 else {"dtype_out": rng.choice(["uint16", "float32"])}))


def _resc(rng, sig, s):
    k = rng.randrange(5)
    out = {} if rng.random() < 0.5 else {"dtype_out": rng.choice(["uint8", "uint16", "float32"])}
    if k == 0:
        return dict(relative=True, **out)
    if k == 1:
        return dict(in_range=[20, 180], **out)
    if k == 2:
        return dict(percentiles=[rng.choice([0, 5]), rng.choice([90, 99.5])], **out)
    if k == 3:
        return dict(out_range=[5, 100], **out)
    return out


def _norm(rng, sig, s):
    return dict(num_std=rng.choice([1, 2]), divide_by_square_root=rng.random() < 0.4,
                dtype_out="float32")


def _ahe(rng, sig, s):
    return dict(kernel_size=[rng.choice([2, 3]), rng.choice([2, 4])],
                clip_limit=rng.choice([0, 0.02]), nbins=rng.choice([64, 128]))


METHODS = {
    "remove_static_background": (_static, True),
    "remove_dynamic_background": (_dyn, True),
    "get_dynamic_background": (_getdyn, True),
    "fft_filter": (_fft, True),
    "average_neighbour_patterns": (_avg, False),
    "downsample": (_down, True),
    "rescale_intensity": (_resc, True),
    "normalize_intensity": (_norm, True),
    "adaptive_histogram_equalization": (_ahe, True),
}
NOT_INPLACE = {"get_dynamic_background"}


def make_kwargs(kp, name, p):
    """Keyword arguments from JSON parameters p."""
    p = dict(p)
    for k in ("in_range", "out_range", "percentiles", "kernel_size", "window_shape"):
        if k in p:
            p[k] = tuple(p[k])
    if "tf" in p:
        t = p.pop("tf")
        if t[0] == "kernel":
            w = np.array(t[1], dtype=float)
            w[1, 1] += 1
        else:
            w = kp.filters.Window("lowpass", cutoff=t[1], cutoff_width=1, shape=tuple(t[2]))
        p["transfer_function"] = w
    if "win" in p:
        w = np.array(p.pop("win"), dtype=float)
        w[tuple(n // 2 for n in w.shape)] += p.pop("plus", 0)
        p["window"] = w
    return p


def call(kp, s, name, p, **kw):
    return getattr(s, name)(**make_kwargs(kp, name, p), show_progressbar=False, **kw)


def is_local(name, p):
    return METHODS[name][1] and not p.get("relative", False)
