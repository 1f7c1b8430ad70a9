"""C10: histories of kikuchipy h5ebsd files."""
import builtins
import contextlib
import hashlib
import io
import os
import shutil
import tempfile

import numpy as np

from harness import content
from harness.kp import kikuchipy, preload

DTYPES = ["uint8", "uint16", "int16", "float32", "float64", "int32", "uint32"]
SEM = ["", "SEM X", "Ultra 55 µ"]


class Intern:
    """Small integers for values that are the same."""

    def __init__(self):
        self.ids, self.rots = {}, []

    def __call__(self, x):
        return self.ids.setdefault(x, len(self.ids))

    def rotations(self, q):
        q = np.asarray(q, dtype=float)
        for i, r in enumerate(self.rots):
            if r.shape == q.shape and np.all(np.abs((r * q).sum(-1)) > 1 - 1e-9):
                return i
        self.rots.append(q)
        return len(self.rots) - 1


def make(kp, d):
    """A signal from its description."""
    from orix.crystal_map import CrystalMap, Phase, PhaseList
    from orix.quaternion import Rotation
    from diffpy.structure import Atom, Lattice, Structure

    rng = np.random.default_rng(d["seed"])
    nav, sig = tuple(d["nav"]), tuple(d["sig"])
    n = int(np.prod(nav))
    hi = 200 if d["dtype"] == "uint8" else 20000
    data = rng.integers(0, hi, nav + sig).astype(d["dtype"])
    if "float" in d["dtype"]:
        data = data / np.asarray(7, d["dtype"])
    if d["lazy"]:
        import dask.array as da

        s = kp.signals.LazyEBSD(da.from_array(data, chunks=(1,) * len(nav) + sig))
    else:
        s = kp.signals.EBSD(data)
    am = s.axes_manager
    names = ["x", "y"] if len(nav) == 2 else [d["name1"]]
    for a, nm, sc in zip(am.navigation_axes, names, d["steps"]):
        a.name, a.scale, a.units = nm, sc, "um"
    for a in am.signal_axes:
        a.scale, a.units = d["px_size"], "um"
    npc = nav if d["pcs"] and len(nav) else (1,)
    s.detector = kp.detectors.EBSDDetector(
        shape=sig, pc=rng.random(npc + (3,)), px_size=d["px_size"], binning=d["binning"],
        tilt=d["tilt"], azimuthal=1.5, twist=-0.25, sample_tilt=69.7)
    if d["bg"]:
        s.static_background = (rng.integers(0, hi, sig)).astype(d["dtype"])
    if d["sem"]:
        s.metadata.set_item("Acquisition_instrument.SEM.microscope", SEM[d["sem"]])
        s.metadata.set_item("Acquisition_instrument.SEM.beam_energy", 12.5)
        s.metadata.set_item("Acquisition_instrument.SEM.magnification", 300)
        s.metadata.set_item("Acquisition_instrument.SEM.working_distance", 22.25)
    if d["xmap"]:
        kw = {}
        if len(nav) == 2:
            y, x = np.indices(nav)
            kw = dict(x=x.ravel() * d["steps"][0], y=y.ravel() * d["steps"][1])
        elif len(nav) == 1:
            kw = {d["name1"]: np.arange(n) * d["steps"][0]}
        keep = np.ones(n, bool)
        if d["xmap"] == 2 and n > 3:
            keep[rng.permutation(np.arange(1, n - 1))[: n // 3]] = False
        al = Structure(lattice=Lattice(4.04, 4.04, 4.04, 90, 90, 90), atoms=[Atom("Al", [0, 0, 0])])
        pl = PhaseList([Phase("γ-Fe", point_group="m-3m"), Phase("al", space_group=225, structure=al)])
        per = d["per"] if n > 1 else 1
        pid = rng.integers(0, 2, n)
        prop = dict(scores=rng.random((n, per) if per > 1 else n),
                    simulation_indices=rng.integers(0, 99, (n, per) if per > 1 else n))
        if d["seed"] % 3 == 0:
            pid[rng.integers(n)] = -1
            pl.add_not_indexed()
        s.xmap = CrystalMap(
            rotations=Rotation.random((n, per) if per > 1 else n), phase_id=pid,
            phase_list=pl, prop=prop, is_in_data=keep, scan_unit="um", **kw)
    return s


def navshape(s):
    """Sizes of the navigation dimensions of more than one point."""
    return [(a.name, a.size, float(a.scale), str(a.units))
            for a in s.axes_manager.navigation_axes if a.size > 1]


def parts(s, it):
    """The parts of a signal that the file keeps, as small integers."""
    from orix.crystal_map import CrystalMap

    data = np.asarray(s.data.compute() if s._lazy else s.data)
    data = data.reshape([n for n in data.shape[:-2] if n > 1] + list(data.shape[-2:]))
    out = dict(data=it((str(data.dtype), data.shape, data.tobytes())))
    out["axes"] = it((tuple(navshape(s)), tuple((a.size, float(a.scale)) for a in s.axes_manager.signal_axes)))
    d = s.detector
    ns = tuple(n for n in d.navigation_shape if n > 1)
    out["detector"] = it((tuple(d.shape), ns, d.pc.astype(float).tobytes(), float(d.px_size), float(d._binning),
                          float(d.tilt), float(d.azimuthal), float(d.twist), float(d.sample_tilt)))
    n = int(np.prod(data.shape[:-2]))
    x = s.xmap
    if x is None:
        ax = {a.name: a for a in s.axes_manager.navigation_axes}
        x = CrystalMap.empty(shape=tuple(ax[k].size if k in ax else 1 for k in "yx"),
                             step_sizes=tuple(ax[k].scale if k in ax else 1 for k in "yx"))
    full = int(np.size(x.is_in_data))
    def co(v):
        v = np.zeros(full) if v is None else np.broadcast_to(np.asarray(v, float), (full,))
        return tuple(np.round(v, 9))
    out["xmap"] = it((
        full, n, it.rotations(x._rotations.data.reshape(full, -1, 4)), np.ravel(x._phase_id).tobytes(),
        tuple((k, str(v.dtype), np.asarray(v).shape[1:], np.ascontiguousarray(v).tobytes()) for k, v in sorted(dict.items(x._prop))),
        np.ravel(x.is_in_data).tobytes(), repr(content.phases(x.phases)), co(x._x), co(x._y)))
    b = s.static_background
    out["background"] = it(None if b is None else (str(b.dtype), b.shape, np.ascontiguousarray(b).tobytes()))
    m = s.metadata.as_dictionary().get("Acquisition_instrument", {}).get("SEM", {})
    out["meta"] = it(tuple((k, type(e)(m.get(k, e))) for k, e in (
        ("beam_energy", 0.0), ("magnification", 0.0), ("microscope", ""), ("working_distance", 0.0))))
    return out


def look(f, it):
    """Kind of file, numbers of scans in the order of their names, and digests of what
    is stored for each of them."""
    import h5py

    if not os.path.isfile(f):
        return "none", [], []
    with h5py.File(f, "r") as h:
        man = h["manufacturer"][()] if "manufacturer" in h else b""
        man = man[0] if isinstance(man, np.ndarray) else man
        order, raw = [], []

        def digest(g):
            items = []
            g.visititems(lambda n, o: items.append(
                (n, str(o.dtype), o.shape, hashlib.sha256(np.asarray(o[()]).tobytes()).hexdigest())
                if isinstance(o, h5py.Dataset) else (n,)))
            return it(tuple(items))

        if bytes(man).strip(b"\0") != b"kikuchipy":
            return "foreign", [], [[0, digest(h)]]
        for k in h.keys():
            if k.startswith("Scan "):
                order.append(int(k.split()[1]))
                raw.append([order[-1], digest(h[k])])
        return "kikuchipy", order, raw


@contextlib.contextmanager
def answers(seq):
    seq = list(seq)

    def give(question=""):
        if not seq:
            raise OSError("no input")
        a = seq.pop(0)
        if a == "EOF":
            raise EOFError("end of input")
        return a

    old = builtins.input
    builtins.input = give
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        builtins.input = old


FLAG = dict(yes=True, no=False, ask=None)


def case_run(c):
    kp = kikuchipy()
    tmp = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        return _case_run(c, kp, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _case_run(c, kp, tmp):
    import h5py

    it = Intern()
    f = os.path.join(tmp, c["fname"])
    sources = [make(kp, d) for d in c["contents"]]
    recs = [dict(op="sources", key="-", src=[parts(s, it) for s in sources], raw=[])]
    held, kinds = None, None

    def state(r):
        kind, order, raw = look(f, it)
        r.update(kind=kind, order=order, raw=raw, key=c["key"])
        recs.append(r)

    for o in c["ops"]:
        r = dict(o)
        if o["op"] == "nothing":
            pass
        elif o["op"] == "foreign":
            with h5py.File(f, "w") as h:
                h["Scan 1/EBSD/Data/x"] = np.arange(5)
                if c["seed"] % 2:
                    h["manufacturer"] = b"somebody"
            state(r)
        elif o["op"] == "save":
            kw = dict(c["kw"])
            if o["n"] != 1 or c["seed"] % 2:
                kw["scan_number"] = o["n"]
            for k, v in (("overwrite", o["over"]), ("add_scan", o["add"])):
                if v != "ask" or c["seed"] % 3:
                    kw[k] = FLAG[v]
            src = sources[o["c"] - 1]
            if c["resave"] and o["c"] in c["loaded"]:
                src = c["loaded"][o["c"]]
            r["nums"] = [[x, int(x)] for x in sorted(set(o["a"])) if x.lstrip("-").isdigit()]
            r["raised"] = False
            name = f
            if c["ext"] and c["fname"].count(".") == 1:
                name, ext = f.rsplit(".", 1)
                kw["extension"] = ext
            try:
                with answers(o["a"]):
                    src.save(name, **kw)
            except (OSError, EOFError):
                r["raised"] = True
            state(r)
        elif o["op"] == "hold":
            held = kp.load(f, lazy=True)
            state(r)
        elif o["op"] == "close":
            held.compute(close_file=True)
            held = None
            state(r)
        elif o["op"] == "load":
            kind, order, raw = look(f, it)
            if not o["names"] and not order and kind == "kikuchipy":
                continue
            kw = {}
            if o["names"]:
                names = [f"Scan {n}" for n in o["names"]]
                kw["scan_group_names"] = names[0] if len(names) == 1 and c["seed"] % 2 else names
            r.update(raised=False, got=[], is_lazy=o["lazy"], kind=kind, order=order, raw=raw, key=c["key"])
            try:
                out = kp.load(f, lazy=o["lazy"], **kw)
            except OSError:
                r["raised"] = True
                out = []
            out = out if isinstance(out, list) else [out]
            r["got"] = [parts(x, it) for x in out]
            r["is_lazy"] = o["lazy"] if not out else all(x._lazy for x in out)
            for x in out:
                if x._lazy:
                    x.compute(close_file=True)
            if c["resave"] and out and not o["names"] and r["got"][0] in recs[0]["src"]:
                c["loaded"][recs[0]["src"].index(r["got"][0]) + 1] = out[0]
            recs.append(r)
    if held is not None:
        held.compute(close_file=True)
    return recs


def run(ctx):
    preload("kikuchipy.signals", "kikuchipy.io._io", "orix.crystal_map")
    rng = ctx.rng
    model = ctx.mc(
        "MCH5ebsdFile", "SPECIFICATION MCSpec\nVIEW View\nCONSTANTS Nums = %s Contents = {1, 2}\n"
        "  AnswerSeqs <- MCAnswers NumOf <- MCNumOf\n"
        "INVARIANTS OneContentPerNumber ScansOnlyInOwnFiles\nPROPERTY NothingLost\n"
        "CHECK_DEADLOCK FALSE\n" % ctx.n("{2, 10}", "{1, 2, 10}"), workers=1, expect_cases=3000)
    cases = []

    def describe():
        nav = rng.choice([[], [rng.randint(2, 5)], [rng.randint(2, 3), rng.randint(2, 4)], [1, 3], [4, 1], [1]])
        name1 = "x"
        if len(nav) == 1 and nav[0] > 1 and rng.random() < 0.4:
            name1 = "y"
        return dict(
            nav=nav, sig=[rng.randint(1, 4), rng.randint(2, 5)], dtype=rng.choice(DTYPES),
            lazy=rng.random() < 0.3, name1=name1, steps=[rng.choice([1, 1.5, 0.1]), rng.choice([2.5, 1, 0.3])],
            px_size=rng.choice([1, 70.0, 0.5]), pcs=rng.random() < 0.6, binning=rng.choice([1, 8, 2.5]),
            tilt=rng.choice([0, 5.25]), bg=rng.random() < 0.7, sem=rng.randrange(3),
            xmap=rng.choice([0, 1, 1, 2]) if 1 not in nav and nav else rng.choice([0, 0, 0, 1]) if not nav else 0,
            per=rng.choice([1, 1, 3]), seed=rng.randrange(10**6))

    def loads(n):
        out = []
        for _ in range(n):
            k = rng.choice([0, 1, 1, 2, 3])
            out.append(dict(op="load", names=[rng.choice([1, 1, 2, 2, 10, 3]) for _ in range(k)],
                            lazy=rng.random() < 0.4))
        return out

    def add(ops, **kw):
        seed = rng.randrange(10**6)
        cases.append(dict(dict(
            ops=ops, contents=[describe(), describe()], seed=seed, key="-",
            fname=rng.choice(["f.h5", "f.h5", "f.hdf5", "f.h5ebsd", "a.b.h5"]),
            ext=rng.random() < 0.2, resave=rng.random() < 0.3, loaded={},
            kw=rng.choice([{}, {}, dict(compression="gzip")])), **kw))

    # A transition in the model, and loads of what is then in the file
    pick = rng.sample(model, 6000) if not ctx.quick else rng.sample(model, 150)
    for h in pick:
        ops = []
        for o in h:
            ops.append(o)
            if o["op"] == "save" and rng.random() < 0.2:
                ops += loads(1)
        held = sum(o["op"] == "hold" for o in h) > sum(o["op"] == "close" for o in h)
        tail = [dict(op="load", names=[], lazy=rng.random() < 0.3)] + loads(2)
        add(ops + tail + ([dict(op="close")] if held else []))
    # Longer histories
    seqs = [[], ["y"], ["n", "y"], ["x", "3"], ["y", "5"], ["EOF"], ["n"], ["7"], ["-2"], ["y", "q", "1"]]
    for _ in range(ctx.n(40, 900)):
        ops = [dict(op=rng.choice(["nothing"] * 5 + ["foreign"]))]
        for _ in range(rng.randint(3, ctx.n(6, 12))):
            ops.append(dict(op="save", c=rng.randint(1, 2), n=rng.choice([1, 1, 2, 3, 10, 11]),
                            over=rng.choice(["ask", "ask", "no", "no", "yes"]),
                            add=rng.choice(["yes", "yes", "yes", "ask", "no"]), a=rng.choice(seqs)))
            if rng.random() < 0.4:
                ops += loads(1)
        ops += [dict(op="load", names=[], lazy=False)] + loads(3)
        add(ops)
    ctx.sample(*cases[::80])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceH5ebsdFile", cases, traces)
    ctx.assumptions += [
        "axis offsets, units other than um and the signal scale (unless the detector pixel size) are not stored",
        "one-point maps have one rotation per point", "writing itself does not fail midway"]
