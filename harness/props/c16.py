"""C16: refinement results and the points they belong to."""
import numpy as np

from harness.core import q
from harness.kp import kikuchipy, layout, preload
from harness.refinement import (FROM_START, METHODS, NEEDS_REGION, NO_BOUNDS, PC0, SC, alone,
                                call, detector, master_pattern, quiet, similarity)


def case_run(c):
    from orix.crystal_map import CrystalMap, Phase, PhaseList, create_coordinate_arrays
    from orix.quaternion import Rotation
    import dask.array as da

    kp = kikuchipy()
    rng = np.random.default_rng(c["seed"])
    nav, sig, mode = tuple(c["nav"]), tuple(c["sig"]), c["mode"]
    N = int(np.prod(nav))
    steps = tuple(c["steps"])
    mp = master_pattern(kp, c["seed"] + 1, c["mp_dtype"])
    pats = rng.integers(0, 250, nav + sig)
    pats = (pats / 50 - 2).astype("float32") if c["dtype"] == "float32" else pats.astype(c["dtype"])
    st = c["pts"]
    pid, other = c["pid"], 1 - c["pid"]
    ids = np.array([-1 if not p["indexed"] else other if p["masked"] and c["two_phases"] else pid
                    for p in st])
    names = {pid: mp.phase.deepcopy()}
    if c["two_phases"]:
        names[other] = Phase("bb", space_group=186)
    pl = PhaseList(names)
    if -1 in ids:
        pl.add_not_indexed()
    rot = Rotation.from_euler(rng.random((N, 3)) * [6, 3, 6] + 0.05)
    rots = rot if c["rpp"] == 1 else Rotation(np.stack([rot.data, rot.data[::-1]], axis=1))
    coords, _ = create_coordinate_arrays(nav, steps)
    in_data = np.array([p["inData"] for p in st])
    xmap = CrystalMap(rotations=rots, phase_id=ids, phase_list=pl, scan_unit="um",
                      is_in_data=in_data, prop=dict(scores=rng.random(N)), **coords)
    crop = c["crop"]
    if crop:  # A part of a larger map
        big = tuple(n + a for n, a in zip(nav, crop))
        coords, M = create_coordinate_arrays(big, steps)
        sl = tuple(slice(a, None) for a in crop)
        at = np.arange(M).reshape(big)[sl].ravel()
        brot = Rotation.from_euler(rng.random((M, 3)))
        bdata = brot.data.copy() if c["rpp"] == 1 else np.repeat(brot.data[:, None], 2, 1)
        bdata[at] = rots.data
        bid = np.full(M, pid)
        bid[at] = ids
        bin_ = np.zeros(M, bool)
        bin_[at] = in_data
        xmap = CrystalMap(rotations=Rotation(bdata), phase_id=bid, phase_list=pl,
                          scan_unit="um", is_in_data=bin_, **coords)
    mask = None
    if c["use_mask"]:
        mask = layout(np.array([p["masked"] for p in st]).reshape(nav), c["seed"] // 11)
    smask, keep = None, np.ones(sig[0] * sig[1], bool)
    if c["smask"]:
        smask = np.zeros(sig, bool)
        smask[0, 0] = smask[-1, c["smask"] % sig[1]] = True
        keep = ~smask.ravel()
        smask = layout(smask, c["seed"] // 3)
    many = c["many_pcs"] and N > 1
    pcs = PC0 + 0.05 * rng.random((N, 3))
    if not many:
        pcs[:] = pcs[0]
    dkw = dict(tilt=c["tilt"], azimuthal=c["tilt"] / 2)
    det = detector(kp, sig, pcs.reshape(nav + (3,)) if many else pcs[0], **dkw)
    if c["lazy"]:
        s = kp.signals.LazyEBSD(da.from_array(pats, chunks=tuple(c["lazy"])))
    else:
        s = kp.signals.EBSD(layout(pats, c["seed"] // 7))
    for ax, d in zip(s.axes_manager.navigation_axes[::-1], steps):
        ax.scale = d
    kw = dict(METHODS[c["method"]], energy=c["energy"])
    if smask is not None:
        kw["signal_mask"] = smask
    trust = c["trust"]
    bounded = trust is not None and c["method"] not in NO_BOUNDS
    if trust is not None:
        kw["trust_region"] = trust
    first = []
    if c["method"] == "nlopt_first":
        kw["initial_step"] = c["step"]
        e, p = (c["step"] if mode == "ori_pc" else (c["step"], c["step"]))
        first = {"ori": [np.deg2rad(e)] * 3, "pc": [p] * 3,
                 "ori_pc": [np.deg2rad(e)] * 3 + [p] * 3}[mode]
    ops = None
    if c["nc"] > 1 and mode != "pc":
        ops = Rotation.from_euler(np.array([[0, 0, 1.5], [0.7, 1.2, 0.3]])[: c["nc"] - 1])
    run_kw = dict(kw, rechunk=c["rechunk"])
    if mask is not None:
        run_kw["navigation_mask"] = mask
    if c["chunk_shape"]:
        run_kw["chunk_kwargs"] = dict(chunk_shape=c["chunk_shape"])
    if ops is not None:
        run_kw["pseudo_symmetry_ops"] = ops
    todo = [i for i, p in enumerate(st) if p["inData"] and p["indexed"]
            and not (p["masked"] and mask is not None)]
    pts = [dict(p, masked=bool(p["masked"] and mask is not None)) for p in st]
    rec = dict(op="refine", key=f"{mode}-{c['method']}", pts=pts, nav=list(nav), pid=pid,
               ps=ops is not None, tol=3, ncctol=2000, fromstart=c["method"] in FROM_START,
               bounded=bounded, firststep=q(first, SC), steps=q(list(steps), 1000),
               refused=False, hasmap=mode != "pc", hasdet=mode != "ori", hasscores=mode == "pc")
    # Each point by itself
    def state(row, i, r):
        eu = row[2:5] if mode != "pc" else None
        x = row[2:5] if mode != "ori_pc" else row[2:8]
        pc = pcs[i] if mode == "ori" else x[-3:]
        rr = r if mode == "pc" else Rotation.from_euler(eu).data[0]
        return x, pc, rr

    cand = np.stack([rot.data] if ops is None else [rot.data, *ops.outer(rot).data], axis=1)
    al, start, startncc = [], [], []
    for i in todo:
        al.append([]), start.append([]), startncc.append([])
        for r in cand[i]:
            row = alone(kp, mode, pats.reshape((N,) + sig)[i], r, pcs[i], sig, mp, many, dkw, **kw)
            al[-1].append(dict(score=q(row[0], SC), evals=int(row[1]), x=q(row[2:], SC)))
            eu = Rotation(r).to_euler().ravel()
            x0 = dict(ori=eu, pc=pcs[i], ori_pc=np.concatenate([eu, pcs[i]]))[mode]
            start[-1].append(q(x0, SC))
            startncc[-1].append(q(similarity(kp, pats.reshape((N,) + sig)[i], r, pcs[i], sig, mp,
                                             c["energy"], keep, dkw), SC))
    tr = np.zeros(6 if mode == "ori_pc" else 3)
    if trust is not None:
        tr = np.array(trust, float)
        if mode != "pc":
            tr[:3] = np.deg2rad(tr[:3])
    rec.update(alone=al, start=start, startncc=startncc, trust=q(tr, SC))
    # All together
    raw = call(s, mode, xmap, det, mp, compute=False, **run_kw)
    rows_arr = np.asarray(raw.compute())
    rows, ncc = [], []
    for k, i in enumerate(todo[: len(rows_arr)]):
        row = rows_arr[k]
        x, pc, rr = state(row, i, rot.data[i])
        d = dict(score=q(row[0], SC), evals=int(row[1]), x=q(x, SC), pc=q(pc, SC), eu=q(x[:3], SC))
        if ops is not None:
            d["ps"] = int(row[-1])
        rows.append(d)
        ncc.append(q(similarity(kp, pats.reshape((N,) + sig)[i], rr, pc, sig, mp, c["energy"],
                                keep, dkw), SC))
    rec.update(rows=rows + [dict()] * (len(rows_arr) - len(rows)), ncc=ncc)
    if c["direct"]:
        out = call(s, mode, xmap, det, mp, compute=True, **run_kw)
    else:
        later = dict(navigation_mask=mask)
        if mode == "pc":
            out = quiet(kp.indexing.compute_refine_projection_center_results,
                        raw, det, xmap, **later)
        else:
            later.update(master_pattern=mp, pseudo_symmetry_checked=ops is not None)
            if mode == "ori":
                out = quiet(kp.indexing.compute_refine_orientation_results, raw, xmap, **later)
            else:
                out = quiet(kp.indexing.compute_refine_orientation_projection_center_results,
                            raw, det, xmap, **later)
    xm = out if mode == "ori" else out[0] if mode == "ori_pc" else None
    nd = None if mode == "ori" else out[1]
    if xm is not None:
        full = np.zeros(xm.is_in_data.size)

        def spread(v):
            f = full.copy()
            f[xm.is_in_data] = v
            return f

        want = Rotation.from_euler(rows_arr[:, 2:5]).data
        got = np.zeros((xm.is_in_data.size, 4))
        got[xm.is_in_data] = xm.rotations.data.reshape(-1, 4)
        got = got[todo]
        sign = np.sign((got * want).sum(axis=1, keepdims=True))
        rec["map"] = dict(
            x=q(list(xm.x - xm.x.min()) if nav else [0], 1000),
            y=q(list(xm.y - xm.y.min()) if len(nav) == 2 else [0] * xm.size, 1000),
            unit=xm.scan_unit == "um",
            indata=xm.is_in_data.astype(int).tolist(),
            phase=spread(xm.phase_id).astype(int).tolist(),
            phasename=bool(xm.phases[pid].name == mp.phase.name
                           and set(xm.phases.ids) <= {-1, pid}),
            score=q(spread(xm.scores), SC), evals=spread(xm.num_evals).astype(int).tolist(),
            rot=q(np.abs(got * sign - want).max(axis=1), SC),
            psi=(spread(xm.pseudo_symmetry_index).astype(int).tolist() if ops is not None else []),
            hasps="pseudo_symmetry_index" in xm.prop)
    if nd is not None:
        rest = all(np.allclose(getattr(nd, k), getattr(det, k)) for k in
                   ("shape", "tilt", "azimuthal", "sample_tilt", "px_size", "binning"))
        rec["det"] = dict(shape=list(nd.pc.shape[:-1]), pc=q(nd.pc.reshape(-1, 3), SC),
                          rest=bool(rest))
    if mode == "pc":
        rec["scores"] = dict(shape=list(out[0].shape), v=q(out[0].ravel(), SC),
                             evals=out[2].ravel().astype(int).tolist())
    return [rec]


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCRefinement",
                   f"SPECIFICATION Spec\nCONSTANTS MaxN = {ctx.n(4, 5)} MaxC = {ctx.n(2, 3)}\n"
                   "INVARIANTS Owned Untouched ShapeFits Emit\nCHECK_DEADLOCK FALSE\n",
                   expect_cases=300)
    cases = []

    def point(i=True, m=False, x=True):
        return dict(inData=bool(i), masked=bool(m), indexed=bool(x))

    def add(pts, nav, **kw):
        method = rng.choice(list(METHODS))
        mode = rng.choice(["ori", "ori", "pc", "ori_pc"])
        c = dict(seed=rng.randrange(1 << 30), nav=nav, pts=pts, mode=mode, method=method,
                 sig=rng.choice([[4, 5], [5, 4], [4, 4]]), dtype=rng.choice(
                     ["uint8", "uint8", "uint16", "float32", "float64"]),
                 mp_dtype=rng.choice(["float32", "float32", "uint8", "float64"]), nc=1,
                 energy=rng.choice([10, 20]), pid=rng.randint(0, 1), rpp=rng.choice([1, 1, 2]),
                 two_phases=rng.random() < 0.5, use_mask=any(p["masked"] for p in pts)
                 or rng.random() < 0.3, smask=rng.choice([0, 0, 1, 2]),
                 many_pcs=rng.random() < 0.5, tilt=rng.choice([0, 4, -6]),
                 steps=[rng.choice([1, 2, 0.5]) for _ in nav], crop=None,
                 rechunk=rng.random() < 0.6, chunk_shape=rng.choice([0, 1, 2, 3]), lazy=None,
                 direct=rng.random() < 0.3, trust=None)
        if rng.random() < 0.4:
            c["lazy"] = [rng.randint(1, n) for n in nav] + [
                rng.choice([-1, 2]), rng.choice([-1, 3])]
        if rng.random() < 0.3:
            c["crop"] = [rng.randint(0, 2) for _ in nav]
        c.update(kw)
        if c["method"] == "nlopt_first":
            c.update(step=rng.choice([1, 2.5]) if c["mode"] == "ori" else
                     rng.choice([0.01, 0.02]) if c["mode"] == "pc" else [2, 0.02], nc=1)
        elif c["method"] in NEEDS_REGION or rng.random() < 0.5:
            ang, pc = rng.choice([[2, 3, 4], [1, 1, 1]]), [0.02, 0.03, 0.01]
            c["trust"] = {"ori": ang, "pc": pc, "ori_pc": ang + pc}[c["mode"]]
        cases.append(c)

    for m in rng.sample(model, min(len(model), ctx.n(110, 700))):
        n = len(m["pts"])
        add(m["pts"], [n] if n > 1 else [], nc=m["nc"], chunk_shape=m["chunk"], rechunk=True)
    for _ in range(ctx.n(90, 900)):
        ny, nx = rng.randint(2, 3), rng.randint(2, 3)
        kind = rng.randrange(4)
        if kind == 0:
            pts = [point() for _ in range(ny * nx)]
        elif kind == 1:  # A rectangle
            r, k = rng.randint(1, ny), rng.randint(1, nx)
            pts = [point(m=not (i // nx < r and i % nx < k)) for i in range(ny * nx)]
        elif kind == 2:
            pts = [point(m=rng.random() < 0.3) for _ in range(ny * nx)]
        else:
            pts = [point(rng.random() < 0.8, rng.random() < 0.2, rng.random() < 0.8)
                   for _ in range(ny * nx)]
            pts[0]["inData"] = pts[-1]["inData"] = True
        if not any(p["inData"] and p["indexed"] and not p["masked"] for p in pts):
            continue
        rows = {i // nx for i, p in enumerate(pts) if p["inData"]}
        cols = {i % nx for i, p in enumerate(pts) if p["inData"]}
        if len(rows) < ny or len(cols) < nx:
            continue
        add(pts, [ny, nx], nc=rng.choice([1, 1, 2, 3]))
    ctx.sample(*cases[::50])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceRefinement", cases, traces)
    ctx.assumptions += [
        "detectors of 4 x 4 to 4 x 5 pixels, and a few evaluations per optimization",
        "stochastic methods are given a seed", "points to refine are of one phase",
        "the extent of the points in the data is the signal's navigation shape"]
