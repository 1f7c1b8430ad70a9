"""C22: Hough indexing."""
import contextlib
import io

import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload

JIT_THOROUGH = True
DT = [("quat", "4f8"), ("iq", "f4"), ("pq", "f4"), ("cm", "f4"), ("phase", "i4"), ("fit", "f4"),
      ("nmatch", "i4"), ("matchattempts", "2i4"), ("totvotes", "i4")]
CELLS = [(225, 3.52), (229, 2.87), (227, 5.43)]


def phases(ids, other=None):
    from diffpy.structure import Lattice, Structure
    from orix.crystal_map import Phase, PhaseList

    cells = [list(c) for c in CELLS[:len(ids)]]
    if other is not None:
        cells[other[0]][other[1]] = other[2]
    return PhaseList(phases=[
        Phase(f"p{i}", space_group=sg, structure=Structure(lattice=Lattice(a, a, a, 90, 90, 90)))
        for i, (sg, a) in enumerate(cells)], ids=ids)


def quat(deg):
    h = np.deg2rad(deg) / 2
    return np.stack([np.cos(h), 0 * h, 0 * h, np.sin(h)], -1)


def degrees(rot):
    d = np.rad2deg(2 * np.arctan2(rot[:, 3], rot[:, 0]))
    ok = np.allclose(rot[:, 1:3], 0, atol=1e-6)
    return [int(round(v)) if ok else 999 for v in d]


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **kw)


def table(c):
    """Answers: data (n phases + 1, n) and what they are, for patterns 0, 1, ..., n - 1."""
    n, k = len(c["sol"]), len(c["ids"])
    rng = np.random.default_rng(c["seed"])
    d = np.zeros((k + 1, n), DT)
    for row in range(k + 1):
        p = np.array(c["sol"]) if row == k else np.where(rng.random(n) < 0.2, -1, row)
        d[row]["phase"] = p
        d[row]["quat"] = np.where((p == -1)[:, None], 0.0, quat(10 * row + np.arange(n) + 1.0))
        for name in ("pq", "cm", "fit"):
            d[row][name] = np.where(p == -1, 0, rng.integers(1, 1000, n))
        d[row]["fit"][p == -1] = 180
        d[row]["nmatch"] = np.where(p == -1, 0, rng.integers(1, 12, n))
    return d


def solutions(d, ids):
    rot = degrees(d["quat"])
    return [dict(p=int(d["phase"][i]), rot=rot[i], fit=int(d["fit"][i]), cm=int(d["cm"][i]),
                 pq=int(d["pq"][i]), nmatch=int(d["nmatch"][i])) for i in range(len(d))]


def observe_map(x, shape_steps):
    n = x.size
    rot = degrees(x.rotations.data.reshape(n, -1)[:, :4])
    ids = [int(i) for i in x.phase_id]
    return [dict(id=ids[i], name=x.phases[ids[i]].name, indexed=bool(x.is_indexed[i]),
                 rot=rot[i], fit=int(x.prop["fit"][i]), cm=int(x.prop["cm"][i]),
                 pq=int(x.prop["pq"][i]), nmatch=int(x.prop["nmatch"][i]),
                 x=0 if x.x is None else q(x.x[i], 100), y=0 if x.y is None else q(x.y[i], 100))
            for i in range(n)]


def case_run(c):
    kp = kikuchipy()
    return globals()["do_" + c["kind"]](kp, c)


def signal(kp, c, n):
    nav = tuple(c["nav"])
    p = np.zeros((n, 6, 7), np.int32)
    p[:, 2, 3] = np.arange(n)
    s = kp.signals.EBSD(p.reshape(nav + (6, 7)))
    for ax, step in zip(s.axes_manager.navigation_axes[::-1], c["steps"]):
        ax.scale, ax.units = step / 100, c["unit"]
    return s


def do_map(kp, c):
    from kikuchipy.indexing import xmap_from_hough_indexing_data

    n = len(c["sol"])
    pl = phases(c["ids"])
    d = table(c)
    keep = d.copy()
    names = [f"p{i}" for i in range(len(c["ids"]))]
    key = dict(via=c["via"], nav=c["nav"], ids=c["ids"], sol=c["sol"], row=c["row"])
    base = dict(op="map", nav=c["nav"], steps=c["steps"], names=names, ids=c["ids"], key=key,
                chunksize=0, chunksize0=0, unit0=c["unit"])
    if c["via"] == "data":
        kw = {}
        if c["given"]:
            kw = dict(navigation_shape=tuple(c["nav"]),
                      step_sizes=tuple(k / 100 for k in c["steps"]), scan_unit=c["unit"])
        else:
            base.update(nav=[n], steps=[100], unit0="px")
        x = xmap_from_hough_indexing_data(d, pl, data_index=c["row"], **kw)
        sol = solutions(d[c["row"]], c["ids"])
        returned = True
    else:
        det = kp.detectors.EBSDDetector(shape=(6, 7), pc=np.full((n, 3), 0.5) if c["pcs"]
                                        else (0.5, 0.5, 0.5))
        ix = det.get_indexer(pl)
        seen = {}
        band = np.arange(n)

        def index_pats(patsin=None, verbose=None, chunksize=None, **kw):
            pats = np.asarray(patsin)
            code = pats[:, 2, 3]
            assert pats.shape == (n, 6, 7) and not np.delete(pats.reshape(n, -1), 17, 1).any()
            seen.update(chunksize=int(chunksize))
            return d[:, code], band, 0, 0

        ix.index_pats = index_pats
        s = signal(kp, c, n)
        kw = dict(return_index_data=c["extra"] in (1, 3), return_band_data=c["extra"] in (2, 3))
        if c["chunk"]:
            kw["chunksize"] = c["chunk"]
        out = quiet(s.hough_indexing, phase_list=pl, indexer=ix, verbose=0, **kw)
        out = out if isinstance(out, tuple) else (out,)
        x = out[0]
        want = [d] * kw["return_index_data"] + [band] * kw["return_band_data"]
        returned = len(out) == 1 + len(want) and all(
            np.array_equal(a, b) for a, b in zip(out[1:], want))
        sol = solutions(keep[-1], c["ids"])
        base.update(chunksize=seen["chunksize"], chunksize0=c["chunk"] or 528)
        if not c["nav"]:
            base["unit0"] = "px"
    kept = bool(np.array_equal(d, keep) and pl.ids == c["ids"] and
                [p.name for _, p in pl] == names)
    return [dict(base, sol=sol, got=observe_map(x, None), shape=list(x.shape),
                 unit=x.scan_unit, kept=kept, returned=returned)]


def do_pc(kp, c):
    import pyebsdindex.pcopt as pcopt

    n = int(np.prod(c["nav"], dtype=int))
    s = signal(kp, c, n)
    det = kp.detectors.EBSDDetector(shape=(6, 7), pc=(0.4, 0.3, 0.6), sample_tilt=60, tilt=7)
    ix = det.get_indexer(phases([0]))
    seen = {}

    def stub(pats=None, indexer=None, PC0=None, batch=None, **kw):
        seen.update(start=[q(v, 1000) for v in PC0])
        code = np.asarray(pats)[:, 2, 3]
        if batch:
            return np.stack([code * 0.01, 0.5 + 0 * code, 1 + code * 0.02], -1)
        return np.array(PC0, float)

    old = pcopt.optimize, pcopt.optimize_pso
    pcopt.optimize = pcopt.optimize_pso = stub
    pc0 = [0.1, 0.2, 0.3]
    try:
        new = quiet(s.hough_indexing_optimize_pc, pc0=c["wrap"] and [pc0] or pc0, indexer=ix,
                    batch=c["batch"], method=c["method"])
    finally:
        pcopt.optimize, pcopt.optimize_pso = old
    return [dict(op="pc", nav=c["nav"], batch=c["batch"], pc0=[100, 200, 300], start=seen["start"],
                 shape=list(new.navigation_shape),
                 got=[q(v, 1000) for v in new.pc.reshape(-1, 3)],
                 codes=[[10 * i, 500, 1000 + 20 * i] for i in range(n)],
                 rest=bool(new.shape == (6, 7) and new.sample_tilt == 60 and new.tilt == 7),
                 key=dict(nav=c["nav"], batch=c["batch"], method=c["method"]))]


def do_refused(kp, c):
    what = c["what"]
    pl = phases([0, 1])
    det = kp.detectors.EBSDDetector(shape=(6, 7))
    s = kp.signals.EBSD(np.zeros((2, 3, 6, 7), np.uint8))
    other = pl
    want = "ValueError"
    if what == "shape":
        det = kp.detectors.EBSDDetector(shape=(7, 6))
    elif what == "pc":
        det = kp.detectors.EBSDDetector(shape=(6, 7), pc=np.full((5, 3), 0.5))
    elif what == "number":
        other = phases([0])
    elif what == "lattice":
        other = phases([0, 1], (1, 1, 2.88))
    elif what == "group":
        other = phases([0, 1], (1, 0, 221))
    elif what == "order":
        from orix.crystal_map import PhaseList

        other = PhaseList(phases=[pl[1], pl[0]])
    elif what == "lazy":
        s = s.as_lazy()
    ix = det.get_indexer(pl)
    if what == "vendor":
        ix.vendor = "EDAX"

    def index_pats(patsin=None, **kw):
        d = np.zeros((3, len(patsin)), DT)
        d["quat"][..., 0] = 1
        return d, 0, 0, 0

    ix.index_pats = index_pats
    if what == "none":
        want = "none"
    if what == "pc_ok":
        ix.PC = np.full((6, 3), 0.5)
        want = "none"
    try:
        quiet(s.hough_indexing, other, ix)
        error = "none"
    except Exception as e:
        error = type(e).__name__
    return [dict(op="refused", error=error, want=want, key=what)]


def do_indexer(kp, c):
    """What the indexer of a detector is set up with."""
    from diffsims.crystallography import ReciprocalLatticeVector

    rng = np.random.default_rng(c["seed"])
    pc = rng.integers(100, 900, tuple(c["pcnav"]) + (3,)) / 1000
    det = kp.detectors.EBSDDetector(shape=tuple(c["sig"]), pc=pc, sample_tilt=c["tilts"][0],
                                    tilt=c["tilts"][1])
    pl = phases(c["ids"])
    hkl = [[[1, 1, 1], [2, 0, 0], [2, 2, 0]], [[1, 1, 0], [2, 0, 0]], [[2, 2, 0], [4, 0, 0]]]
    ref = []
    for (_, phase), r, kind in zip(pl, hkl, c["refs"]):
        ref.append({"none": None, "list": r, "tuple": tuple(map(tuple, r)), "array": np.array(r),
                    "vector": ReciprocalLatticeVector(phase, hkl=r)}[kind])
    kw = {}
    if any(k != "none" for k in c["refs"]):
        kw["reflectors"] = ref if len(ref) > 1 or c["wrap"] else ref[0]
    ix = det.get_indexer(pl, nBands=c["bands"], **kw)
    want = det.pc.reshape(-1, 3)
    return [dict(
        op="indexer", pc=[q(v, 1000) for v in np.reshape(ix.PC, (-1, 3))],
        pc0=[q(v, 1000) for v in want], sig=[int(v) for v in ix.bandDetectPlan.patDim],
        sig0=c["sig"], tilts=[q(ix.sampleTilt, 10), q(ix.camElev, 10)],
        tilts0=[10 * v for v in c["tilts"]], vendor=str(ix.vendor).lower(),
        bands=int(ix.bandDetectPlan.nBands), bands0=c["bands"],
        phases=[dict(name=str(p.phasename), group=int(p.spacegroup),
                     cell=q(p.latticeparameter[:3], 1000),
                     poles=sorted([abs(int(round(v))) for v in sorted(np.abs(h))]
                                  for h in np.atleast_2d(p.polefamilies)) if k != "none" else [])
                for p, k in zip(ix.phaselist, c["refs"])],
        phases0=[dict(name=f"p{i}", group=CELLS[i][0], cell=[q(CELLS[i][1], 1000)] * 3,
                      poles=sorted(sorted(h) for h in hkl[i]) if k != "none" else [])
                 for i, k in enumerate(c["refs"])],
        key=dict(pcnav=c["pcnav"], sig=c["sig"], tilts=c["tilts"], ids=c["ids"],
                 refs=c["refs"]))]


def do_real(kp, c):
    """Real patterns in many places of maps."""
    from orix.quaternion import Orientation, Rotation
    from orix.quaternion.symmetry import Oh

    pl = phases(c["ids"])
    mp = kp.data.nickel_ebsd_master_pattern_small(projection="lambert")
    euler = np.deg2rad([[20, 30, 40], [70, 50, 10], [110, 20, 65], [5, 70, 33], [200, 45, 80]])
    det = kp.detectors.EBSDDetector(shape=(60, 60), pc=(0.45, 0.3, 0.55), sample_tilt=70)
    pats = quiet(mp.get_patterns, Rotation.from_euler(euler), det, dtype_out="uint8",
                 compute=True).data
    ix = det.get_indexer(pl)

    def one(p):
        return quiet(kp.signals.EBSD(p).hough_indexing, pl, ix, verbose=0)

    alone = [one(p) for p in pats]
    out = []
    for nav, source in c["maps"]:
        x = quiet(kp.signals.EBSD(pats[source].reshape(tuple(nav) + (60, 60))).hough_indexing,
                  pl, ix, verbose=0, chunksize=c["chunk"])
        a = Orientation(x.rotations.data.reshape(-1, 4), symmetry=Oh)
        b = Orientation(np.concatenate([alone[k].rotations.data.reshape(-1, 4) for k in source]),
                        symmetry=Oh)
        ang = np.rad2deg(np.atleast_1d((a - b).angle))
        out.append(dict(
            op="real", source=[k + 1 for k in source], fit=q(x.prop["fit"], 100), angle=q(ang, 100),
            name=[x.phases[int(i)].name for i in x.phase_id],
            alone=[dict(name=y.phases[int(y.phase_id[0])].name, fit=q(y.prop["fit"][0], 100))
                   for y in alone], key=dict(nav=nav, source=source, ids=c["ids"])))
    return out


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCHoughIndexing",
                   f"SPECIFICATION Spec\nCONSTANTS Lists <- PhaseLists MaxN = {ctx.n(3, 4)}\n"
                   "INVARIANTS OwnSolution NotIndexed OnePhase Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=300)
    shapes = {1: [[], [1], [1, 1]], 2: [[2], [1, 2], [2, 1]], 3: [[3], [1, 3], [3, 1]],
              4: [[4], [2, 2], [1, 4]], 6: [[6], [2, 3], [3, 2]], 8: [[2, 4], [4, 2], [8]]}
    cases = []
    for m in model:
        sol = m["sol"]
        if rng.random() < 0.4:
            size = rng.choice([4, 6, 8])
            sol = [rng.choice(sol) for _ in range(size)]
        nav = rng.choice(shapes[len(sol)])
        steps = [rng.choice([100, 150, 20, 325]) for _ in nav]
        c = dict(kind="map", via=rng.choice(["index", "index", "data"]), ids=m["ids"], sol=sol,
                 nav=nav, steps=steps, unit=rng.choice(["um", "nm", "px"]), row=-1,
                 given=rng.random() < 0.8, pcs=rng.random() < 0.3, extra=rng.randrange(4),
                 chunk=rng.choice([0, 1, 2, 1000]), seed=rng.randrange(1 << 30))
        if c["via"] == "data":
            # The ids in the list must be those in the data
            c["ids"] = list(range(len(m["ids"])))
            c["row"] = rng.choice([-1] + c["ids"])
        cases.append(c)
    for n, sh in shapes.items():
        for nav in sh:
            for batch in (True, False):
                cases.append(dict(kind="pc", nav=nav, batch=batch, steps=[100] * len(nav),
                                  unit="um", wrap=rng.random() < 0.5,
                                  method=rng.choice(["Nelder-Mead", "PSO", "pso"])))
    cases += [dict(kind="refused", what=w) for w in (
        "none", "pc_ok", "shape", "pc", "number", "lattice", "group", "order", "vendor", "lazy")]
    for _ in range(ctx.n(40, 300)):
        k = rng.choice([1, 1, 2, 3])
        cases.append(dict(
            kind="indexer", pcnav=rng.choice([[], [1], [3], [2, 3], [1, 4], [1, 1]]),
            sig=rng.choice([[6, 7], [60, 50], [20, 20]]), tilts=[rng.randint(50, 80),
                                                               rng.randint(-5, 10)],
            ids=rng.choice([list(range(k)), [2 * i + 1 for i in range(k)]]),
            refs=[rng.choice(["none", "list", "tuple", "array", "vector"]) for _ in range(k)],
            wrap=rng.random() < 0.5, bands=rng.choice([7, 9]), seed=rng.randrange(1 << 30)))
    # Compilation in PyEBSDIndex takes minutes
    for ids in () if ctx.quick else ([0], [2], [1, 2], [0, 1], [1, 2, 3]):
        maps = []
        for nav in ([5], [2, 3], [3, 2], [1, 4], [6, 1]):
            size = int(np.prod(nav))
            maps.append([nav, [rng.randrange(5) for _ in range(size)]])
        cases.append(dict(kind="real", ids=ids, maps=maps, chunk=rng.choice([1, 2, 528])))
    ctx.sample(*cases[::60])
    ctx.judge("TraceHoughIndexing", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "The Hough transform and the solutions are PyEBSDIndex's: judged is what kikuchipy "
        "passes to it and makes of its answers.",
        "Lazy patterns need an OpenCL device, which this sandbox has not: they are refused.",
    ]
