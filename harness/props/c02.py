"""C02: operations leave signals and arguments alone."""
import os
import random
import shutil
import tempfile

import numpy as np

from harness import catalog, content, session
from harness.kp import kikuchipy, lazy, preload

NAV, SIG = (2, 3), (8, 8)


class Env:
    def __init__(self, kp, c):
        from orix.quaternion import Rotation

        self.kp, self.c, self.rng = kp, c, random.Random(c["seed"])
        self.np = np.random.default_rng(c["seed"])
        data = self.np.integers(10, 200, NAV + SIG)
        for i in np.ndindex(NAV):
            data[i].flat[0], data[i].flat[5] = 3, 240
        data = data.astype(c["dtype"])
        bg = self.np.integers(5, 100, SIG)
        bg.flat[1] = 130
        pc = self.np.uniform(0.4, 0.6, NAV + (3,) if c["pcn"] else 3)
        det = kp.detectors.EBSDDetector(shape=SIG, pc=pc, sample_tilt=70, tilt=2, px_size=5)
        kw = dict(detector=det, static_background=bg.astype(c["dtype"]))
        if c["xmap"]:
            kw["xmap"] = session.make_map(NAV, [1.5, 0.5])
        self.s = lazy(kp, data, ((1, 1), (2, 1), (8,), (8,)), **kw) if c["lazy"] \
            else kp.signals.EBSD(data, **kw)
        for a, sc, nm in zip(self.s.axes_manager._axes, [1.5, 0.5, 1.0, 1.0], ["y", "x", "dy", "dx"]):
            a.scale, a.units, a.name = sc, "um", nm
        self.s.metadata.General.title = "a title"
        self.s.original_metadata.set_item("a.b", 3)
        self.objs = {"s": self.s}
        self.results = []
        self.initial = {}  # Contents of arguments as they are created
        self.lazy = set()
        self.Rotation = Rotation

    def arg(self, name, factory):
        if name not in self.objs:
            o = factory()
            self.initial[name] = content.parts(o)
            self.objs[name] = o
        return self.objs[name]

    def dtypes(self):
        return self.rng.choice(["uint8", "float32"])

    # Arguments -------------------------------------------------------
    def mask(self):
        def f():
            m = np.zeros(SIG, bool)
            m[:2, :3] = True
            return m
        return self.arg("signal_mask", f)

    def navmask(self):
        def f():
            m = np.zeros(NAV, bool)
            m[0, 1] = True
            return m
        return self.arg("navigation_mask", f)

    def mp(self):
        from orix.crystal_map import Phase

        return self.arg("mp", lambda: self.kp.signals.EBSDMasterPattern(
            np.random.default_rng(1).random((2, 11, 11)).astype("float32"),
            projection="lambert", hemisphere="both", phase=Phase("a", point_group="m-3m"),
            axes=[dict(name="hemisphere", size=2, navigate=True), dict(size=11), dict(size=11)]))

    def stereo(self):
        from orix.crystal_map import Phase

        return self.arg("stereo", lambda: self.kp.signals.EBSDMasterPattern(
            np.random.default_rng(2).random((11, 11)).astype("float32"),
            projection="stereographic", hemisphere="upper", phase=Phase("a", point_group="m-3m")))

    def det(self):
        return self.arg("det", lambda: self.kp.detectors.EBSDDetector(
            shape=SIG, pc=self.np.uniform(0.4, 0.6, NAV + (3,)), sample_tilt=70))

    def det1(self):
        return self.arg("det1", lambda: self.kp.detectors.EBSDDetector(
            shape=SIG, pc=[0.45, 0.55, 0.5], sample_tilt=70))

    def rot(self):
        return self.arg("rot", lambda: self.Rotation.from_euler(self.np.uniform(0, 1, NAV + (3,))))

    def xm(self):
        from orix.crystal_map import CrystalMap, Phase, PhaseList, create_coordinate_arrays

        def f():
            co, n = create_coordinate_arrays(NAV, (1.5, 0.5))
            r = self.Rotation.from_euler(self.np.uniform(0, 1, (n, 3)))
            return CrystalMap(rotations=r, phase_list=PhaseList(Phase("a", point_group="m-3m")),
                              prop=dict(scores=np.linspace(0.2, 0.4, n),
                                        simulation_indices=np.arange(3 * n).reshape(n, 3) % 7),
                              scan_unit="um", **co)
        return self.arg("xm", f)

    def xm2(self):
        from orix.crystal_map import CrystalMap, Phase, PhaseList, create_coordinate_arrays

        def f():
            co, n = create_coordinate_arrays(NAV, (1.5, 0.5))
            r = self.Rotation.from_euler(self.np.uniform(0, 1, (n, 3)))
            pl = PhaseList(Phase("b", point_group="6/mmm"))
            pl.add_not_indexed()
            pid = np.zeros(n, int)
            pid[1] = -1
            return CrystalMap(rotations=r, phase_list=pl, phase_id=pid,
                              prop=dict(scores=np.linspace(0.5, 0.1, n)), scan_unit="um", **co)
        return self.arg("xm2", f)

    def dic(self):
        def f():
            from orix.crystal_map import CrystalMap, Phase, PhaseList
            d = np.random.default_rng(4).integers(0, 255, (5,) + SIG).astype("uint8")
            x = CrystalMap(rotations=self.Rotation.from_euler(np.random.default_rng(4).random((5, 3))),
                           phase_list=PhaseList(Phase("a", point_group="432")), x=np.arange(5))
            if self.c["seed"] % 2:
                return lazy(self.kp, d, ((3, 2), (8,), (8,)), xmap=x)
            return self.kp.signals.EBSD(d, xmap=x)
        return self.arg("dic", f)

    def imager(self):
        return self.kp.imaging.VirtualBSEImager(self.s)

    def phase_list(self):
        from diffpy.structure import Atom, Lattice, Structure
        from orix.crystal_map import Phase, PhaseList

        return self.arg("phase_list", lambda: PhaseList(Phase(
            "ni", space_group=225, structure=Structure(
                lattice=Lattice(3.5236, 3.5236, 3.5236, 90, 90, 90), atoms=[Atom("Ni", [0, 0, 0])]))))

    def simulator(self):
        from diffsims.crystallography import ReciprocalLatticeVector

        def f():
            p = self.phase_list()[0]
            r = ReciprocalLatticeVector(p, hkl=[[1, 1, 1], [2, 0, 0], [2, 2, 0]]).symmetrise()
            r.calculate_structure_factor()
            r.calculate_theta(20e3)
            return self.kp.simulations.KikuchiPatternSimulator(r)
        if not hasattr(self, "_sim"):
            self._sim = f()
        self.arg("reflectors", lambda: self._sim.reflectors.data)
        return self._sim

    def pattern(self, dt="float32"):
        return self.arg("pattern_" + dt, lambda: np.random.default_rng(7).integers(
            1, 200, SIG).astype(dt))


# Operations: name -> function of the environment, returning results
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def processing(name):
    def f(e):
        e.s
        gen = catalog.METHODS[name][0]
        p = gen(e.rng, list(SIG), e.s)
        if p is None:
            return []
        kw = catalog.make_kwargs(e.kp, name, p)
        for k in ("transfer_function", "window"):
            if isinstance(kw.get(k), np.ndarray) or hasattr(kw.get(k), "is_valid"):
                obj = kw[k]
                nm = f"{k}{len(e.objs)}"
                kw[k] = e.arg(nm, lambda: obj)
        if name == "remove_static_background" and e.rng.random() < 0.5:
            kw["static_bg"] = e.arg("static_bg", lambda: np.random.default_rng(3).integers(
                1, 99, SIG).astype(e.c["dtype"]))
        if e.rng.random() < 0.5:
            kw["lazy_output"] = e.rng.random() < 0.5
        if name not in catalog.NOT_INPLACE:
            kw["inplace"] = False
        return [getattr(e.s, name)(show_progressbar=False, **kw)]
    f.__name__ = name
    OPS[name] = f


for _n in catalog.METHODS:
    if _n != "adaptive_histogram_equalization":
        processing(_n)


@op
def adaptive_histogram_equalization(e):
    if e.s.data.dtype.kind == "f":
        return []
    return [e.s.adaptive_histogram_equalization(kernel_size=(4, 4), inplace=False, show_progressbar=False)]


@op
def deepcopy(e):
    return [e.s.deepcopy()]


@op
def as_lazy(e):
    return [e.s.as_lazy()] if not e.s._lazy else []


@op
def extract_grid(e):
    r, i = e.s.extract_grid((1, 2), return_indices=True)
    return [r, i]


@op
def rebin(e):
    return [e.s.rebin(new_shape=(3, 1, 4, 4))]


@op
def get_image_quality(e):
    return [e.s.get_image_quality(normalize=e.rng.random() < 0.5, show_progressbar=False)]


@op
def neighbour_dot_products(e):
    w = e.arg("win", lambda: e.kp.filters.Window("rectangular", (3, 3)))
    m = e.s.get_neighbour_dot_product_matrices(window=w, zero_mean=e.rng.random() < 0.5,
                                               normalize=e.rng.random() < 0.5,
                                               show_progressbar=False)
    if e.s._lazy:
        return [e.s.get_average_neighbour_dot_product_map(window=w, show_progressbar=False)]
    a = e.s.get_average_neighbour_dot_product_map(dp_matrices=e.arg(f"dp{len(e.objs)}", lambda: m),
                                                  show_progressbar=False)
    return [a]


@op
def virtual_image(e):
    import hyperspy.api as hs

    return [e.s.get_virtual_bse_intensity(hs.roi.RectangularROI(0, 0, 4, 4))]


@op
def virtual_grid(e):
    v = e.imager()
    v.grid_shape = (2, 2)
    return [v.get_images_from_grid()]


@op
def virtual_rgb(e):
    v = e.imager()
    v.grid_shape = (2, 2)
    alpha = e.arg("alpha", lambda: np.random.default_rng(3).random(NAV).astype("float32"))
    lst = e.arg("tiles", lambda: [(0, 1), (1, 1)])
    return [v.get_rgb_image((0, 0), lst, (1, 0), alpha=alpha if e.rng.random() < 0.6 else None,
                            percentiles=(1, 99) if e.rng.random() < 0.5 else None)]


@op
def vbse_processing(e):
    im = e.arg("vbse", lambda: e.kp.signals.VirtualBSEImage(
        np.random.default_rng(3).random((2, 6, 7)).astype("float32")))
    if e.rng.random() < 0.5:
        return [im.rescale_intensity(inplace=False, dtype_out="uint8", show_progressbar=False)]
    return [im.rescale_intensity(inplace=False, relative=True, out_range=(0, 3),
                                 show_progressbar=False)]


@op
def dictionary_indexing(e):
    kw = {}
    if e.rng.random() < 0.5:
        kw["navigation_mask"] = e.navmask()
    if e.rng.random() < 0.5:
        kw["signal_mask"] = e.mask()
    if e.rng.random() < 0.5:
        kw["n_per_iteration"] = 2
    m = e.rng.choice(["ncc", "ndp", "obj"])
    if m == "obj":
        m = e.kp.indexing.NormalizedCrossCorrelationMetric()
    return [e.s.dictionary_indexing(e.dic(), keep_n=e.rng.choice([1, 3]), metric=m, **kw)]


@op
def merge_crystal_maps(e):
    kw = {}
    ms = [e.xm(), e.xm2()]
    if e.rng.random() < 0.4:
        nm = e.navmask()
        kw["navigation_masks"] = [nm, None]
        ms[0] = e.arg("xm_part", lambda: e.xm()[~nm.ravel()].deepcopy())
    return [e.kp.indexing.merge_crystal_maps(e.arg(f"maps{len(ms)}{bool(kw)}", lambda: ms)
                                             and ms, **kw)]


@op
def orientation_similarity_map(e):
    fp = e.arg("footprint", lambda: np.array([[0, 1, 0], [1, 1, 1], [0, 1, 0]]))
    return [e.kp.indexing.orientation_similarity_map(e.xm(), footprint=fp, n_best=e.rng.choice([1, 2]))]


def refine_kw(e, n, ori=True):
    kw = dict(energy=20, trust_region=e.arg(
        f"trust{n}", lambda: np.array([1, 1, 1, 0.05, 0.05, 0.05][:n] if ori else [0.05] * 3)))
    k = e.rng.randrange(3)
    if k == 0:
        kw.update(method="minimize", method_kwargs=e.arg(
            "method_kwargs", lambda: dict(method="Nelder-Mead", options=dict(maxiter=3))))
    elif k == 1:
        kw.update(method="LN_NELDERMEAD", maxeval=4, initial_step=e.arg(
            f"step{n}{ori}", lambda: [1.0] * (1 if n == 3 else 2) if ori else [0.05]))
    else:
        kw.update(method="minimize", method_kwargs=e.arg(
            "method_kwargs2", lambda: dict(method="Powell", options=dict(maxiter=1))))
    if e.rng.random() < 0.4:
        kw["navigation_mask"] = e.navmask()
    if e.rng.random() < 0.4:
        kw["signal_mask"] = e.mask()
    if e.rng.random() < 0.3:
        kw["chunk_kwargs"] = e.arg("chunk_kwargs", lambda: dict(chunk_shape=2))
    return kw


def ps_ops(e, kw):
    if e.rng.random() < 0.4:
        kw["pseudo_symmetry_ops"] = e.arg("ps", lambda: e.Rotation.from_axes_angles(
            [0, 0, 1], [np.pi / 2]))
    return kw


@op
def refine_orientation(e):
    kw = ps_ops(e, refine_kw(e, 3))
    return [e.s.refine_orientation(e.xm(), e.rng.choice([e.det, e.det1])(), e.mp(), **kw)]


@op
def refine_projection_center(e):
    sc, det, nev = e.s.refine_projection_center(e.xm(), e.rng.choice([e.det, e.det1])(), e.mp(),
                                                **refine_kw(e, 3, False))
    return [sc, det]


@op
def refine_orientation_projection_center(e):
    x, det = e.s.refine_orientation_projection_center(
        e.xm(), e.rng.choice([e.det, e.det1])(), e.mp(), **ps_ops(e, refine_kw(e, 6)))
    return [x, det]


@op
def get_patterns(e):
    return [e.mp().get_patterns(e.rot(), e.rng.choice([e.det, e.det1])(), energy=20,
                                dtype_out=e.dtypes(), compute=e.rng.random() < 0.5,
                                show_progressbar=False)]


@op
def as_lambert(e):
    return [e.stereo().as_lambert(show_progressbar=False)]


@op
def mp_processing(e):
    m = e.mp()
    k = e.rng.randrange(3)
    if k == 0:
        return [m.rescale_intensity(inplace=False, dtype_out="uint8", show_progressbar=False)]
    if k == 1:
        return [m.normalize_intensity(inplace=False, show_progressbar=False)]
    return [m.deepcopy()]


@op
def detector_ops(e):
    d = e.det()
    mask = e.arg("is_outlier", lambda: np.array([True] + [False] * 5).reshape(NAV))
    k = e.rng.randrange(6)
    if k == 0:
        return [d.deepcopy()]
    if k == 1:
        return [d.crop((1, 7, 0, 5))]
    if k == 2:
        idx = e.arg("pc_indices", lambda: np.indices(NAV))
        mi = e.arg("map_indices", lambda: np.indices((3, 4)))
        return [d.fit_pc(idx, mi, transformation=e.rng.choice(["projective", "affine"]),
                         plot=False)]
    if k == 3:
        idx = e.arg("pc_idx_list", lambda: np.array([[0, 0], [0, 1], [0, 2], [1, 0], [1, 1], [1, 2]]).T)
        return [d.extrapolate_pc(idx, (3, 4), (1.5, 0.5), is_outlier=mask.ravel()
                                 if e.rng.random() < 0.5 else None)]
    if k == 4:
        return [d.pc_emsoft(), d.pc_bruker(), d.pc_tsl(), d.pc_oxford()]
    co = e.arg("coords", lambda: np.array([[1.0, 2.0], [3.0, 4.0]]))
    return [e.det1().to_gnomonic_coords(co), e.det1().to_pixel_coords(co)]


@op
def estimate_tilts(e):
    d = e.det()
    with np.errstate(all="ignore"):
        d.estimate_xtilt(plot=False)
        d.estimate_xtilt_ztilt()
    return []


@op
def detector_plots(e):
    import matplotlib.pyplot as plt

    p = e.pattern()
    pk = e.arg("plot_kwargs", lambda: dict(vmin=0))
    d = e.det1()
    d.plot(pattern=p, pattern_kwargs=pk, coordinates=e.rng.choice(["detector", "gnomonic"]),
           draw_gnomonic_circles=True, return_figure=True)
    e.det().plot_pc(return_figure=True)
    plt.close("all")
    return []


@op
def save(e):
    d = tempfile.mkdtemp(prefix="c02_")
    try:
        e.s.save(os.path.join(d, e.rng.choice(["a.h5", "a.dat", "a.hspy"])))
        e.det().save(os.path.join(d, "d.txt"))
    finally:
        shutil.rmtree(d)
    return []


@op
def simulate(e):
    sim = e.simulator()
    g = sim.on_detector(e.rng.choice([e.det, e.det1])(), e.rot())
    g.lines_coordinates(index=(0, 0))
    g.zone_axes_coordinates(index=(1, 1))
    g.as_collections(index=(0, 1))
    g.as_markers()
    return [g]


@op
def kinematical_master(e):
    return [e.simulator().calculate_master_pattern(half_size=4)]


@op
def indexer(e):
    ix = e.det().get_indexer(e.phase_list(), reflectors=e.arg(
        "refl", lambda: [[[1, 1, 1], [2, 0, 0], [2, 2, 0], [3, 1, 1]]][0]))
    return [ix]


@op
def hough(e):
    if e.s._lazy:
        return []
    # PyEBSDIndex needs larger patterns than the other operations
    big = e.arg("big", lambda: e.kp.signals.EBSD(
        np.random.default_rng(8).integers(0, 255, (2, 2, 60, 60)).astype("uint8"),
        detector=e.kp.detectors.EBSDDetector(shape=(60, 60), pc=[0.45, 0.55, 0.5],
                                             sample_tilt=70)))
    ix = big.detector.get_indexer(e.phase_list())
    x, i = big.hough_indexing(e.phase_list(), ix, verbose=0, return_index_data=True)
    return [x, i]


@op
def hough_data(e):
    def f():
        dt = np.dtype([("quat", float, 4), ("iq", float), ("pq", float), ("cm", float),
                       ("phase", int), ("fit", float), ("nmatch", int), ("matchattempts", int, 2),
                       ("totvotes", int)])
        d = np.zeros((2, 6), dt)
        d["quat"] = np.random.default_rng(1).random((2, 6, 4))
        d["phase"][:, 1] = -1
        d["fit"] = np.linspace(0, 2, 12).reshape(2, 6)
        d["cm"] = np.linspace(0, 1, 12).reshape(2, 6)
        return d
    return [e.kp.indexing.xmap_from_hough_indexing_data(
        e.arg("hough_data", f), e.phase_list(), navigation_shape=NAV, step_sizes=(1.5, 0.5))]


@op
def pattern_functions(e):
    p = e.kp.pattern
    a = e.pattern(e.rng.choice(["uint8", "float32", "float64"]))
    tf = e.arg("tf", lambda: e.kp.filters.Window("lowpass", cutoff=2, cutoff_width=1, shape=SIG))
    k = e.rng.randrange(9)
    if k == 0:
        return [p.rescale_intensity(a, **e.rng.choice([{}, dict(in_range=(5, 100)),
                                                       dict(percentiles=(1, 99)),
                                                       dict(out_range=(0, 50), dtype_out="uint8")]))]
    if k == 1:
        return [p.normalize_intensity(a.astype("float32") if a.dtype.kind != "f" else a)]
    if k in (2, 8):
        return [p.remove_dynamic_background(a, operation=e.rng.choice(["subtract", "divide"]),
                                            filter_domain=e.rng.choice(["frequency", "spatial"]),
                                            std=2)]
    if k == 3:
        return [p.get_dynamic_background(a, filter_domain=e.rng.choice(["frequency", "spatial"]), std=2)]
    if k == 4:
        return [p.fft_filter(a, np.asarray(tf), shift=e.rng.random() < 0.5)]
    if k == 5:
        f = p.fft(a, shift=e.rng.random() < 0.5, apodization_window=np.asarray(tf))
        e.arg(f"f{len(e.objs)}", lambda: f)
        return [p.ifft(f), p.fft_spectrum(f)]
    if k == 6:
        q = p.get_image_quality(a, frequency_vectors=e.arg("fv", lambda: p.fft_frequency_vectors(SIG)))
        return [np.array([q])]
    return [p.fft_frequency_vectors(SIG)]


def observe(e):
    out = {}
    for n, o in e.objs.items():
        out[n] = content.parts(o)
    return out


def case_run(c):
    import matplotlib

    matplotlib.use("Agg")
    kp = kikuchipy()
    e = Env(kp, c)
    recs = [dict(op="start", key="-", objs=observe(e), lazy=[], results=[])]
    for ev in c["hist"]:
        if ev["ev"] == "call":
            name = c["ops"].pop(0)
            e.initial = {}
            before = observe(e)
            got = OPS[name](e)
            before.update(e.initial)
            recs.append(dict(op="start", key="-", objs=before, lazy=[], results=[]))
            for o in got:
                if o is None:
                    continue
                n = f"result{len(e.results)}_{name}"
                e.results.append(n)
                e.objs[n] = o
                if getattr(o, "_lazy", False):
                    e.lazy.add(n)
            recs.append(dict(op="call", key=name, objs=observe(e), lazy=sorted(e.lazy),
                             results=list(e.results)))
        else:
            if ev["o"] == 1:
                n = "s"
            elif ev["o"] == 2:
                names = [x for x in e.objs if x not in e.results and x != "s"]
                n = e.rng.choice(names) if names else "s"
            else:
                n = e.rng.choice(e.results[-2:]) if e.results else None
            if n is None:
                continue
            for i in range(12):
                p = content.touch(e.objs[n], phases=n in e.results, i= ev["p"] * 5 + i + c["seed"] % 12)
                if p:
                    break
            if not p:
                continue
            recs.append(dict(op="touch", key=c["names"][-1], o=n, p=p, objs=observe(e),
                             lazy=sorted(e.lazy), results=list(e.results)))
    if c.get("every"):
        # Change every part of every result, and then of every operand
        order = list(e.results) + ["s"] + [x for x in e.objs if x not in e.results and x != "s"]
        for n in order:
            for p in sorted(content.parts(e.objs[n])):
                if n not in e.results and p in ("phase", "phases", "map_phases"):
                    continue
                if content.kind(e.objs[n]) in ("other", "indexer") or not content.touch_part(e.objs[n], p):
                    continue
                recs.append(dict(op="touch", key=c["names"][-1], o=n, p=p, objs=observe(e),
                                 lazy=sorted(e.lazy), results=list(e.results)))
    last = {}
    for r in recs:
        r["diff"] = [f"{o}.{p}" for o in last for p in last[o]
                     if r["objs"].get(o, {}).get(p) != last[o][p]]
        last = r["objs"]
    return recs


def run(ctx):
    preload("kikuchipy.signals", "kikuchipy.indexing", "kikuchipy.simulations",
            "kikuchipy.imaging", "matplotlib.pyplot")
    rng = ctx.rng
    model = ctx.mc("MCIsolation",
                   "SPECIFICATION Spec\nCONSTANTS\n  Depth = 5\n  NParts = 2\n"
                   "INVARIANTS NoSharing ContentIsOwn Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=1000)
    cases = []

    def add(first):
        m = rng.choice(model)
        n = sum(e["ev"] == "call" for e in m["hist"])
        ops = [first] + [rng.choice(list(OPS)) for _ in range(n - 1)]
        rng.shuffle(ops)
        cases.append(dict(seed=rng.randrange(1 << 30), hist=m["hist"], ops=list(ops),
                          names=list(ops), dtype=rng.choice(["uint8", "uint8", "float32", "uint16"]),
                          pcn=rng.random() < 0.6, xmap=rng.random() < 0.6,
                          lazy=rng.random() < 0.35))

    for name in OPS:
        for _ in range(ctx.n(4, 60)):
            add(name)
    for name in OPS:
        for i in range(ctx.n(2, 8)):
            cases.append(dict(seed=rng.randrange(1 << 30), hist=[dict(ev="call")], ops=[name],
                              names=[name], dtype="uint8", pcn=i % 2 == 0, xmap=True,
                              lazy=i % 4 == 3, every=True))
    ctx.sample(*cases[::40])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceIsolation", cases, traces)
    ctx.assumptions += ["parts of objects that are views by design (slices with inav and isig, "
                        "as_lazy) are not claimed"]
