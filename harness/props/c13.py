"""C13: merging crystal maps."""
import numpy as np

from harness.core import NAN, q
from harness.kp import kikuchipy, preload

KINDS = [("a", "432"), ("b", "432"), ("a", "6/mmm"), ("c", "m-3m")]


def case_run(c):
    kp = kikuchipy()
    from orix.crystal_map import CrystalMap, Phase, PhaseList, create_coordinate_arrays
    from orix.quaternion import Rotation

    shape = tuple(c["shape"])
    m = int(np.prod(shape))
    K, n = c["k"], c["n"]
    sc = np.array(c["sc"], dtype=float).reshape(K, m, n)
    ind = np.array(c["ind"]).reshape(K, m)
    mask = np.array(c["mask"]).reshape(K, m).astype(bool)
    sim = np.array(c["sim"]).reshape(K, m, n)
    steps = tuple(c["steps"])[-len(shape):]
    maps, masks = [], []
    ang = lambda k, p, j: 0.011 * (1 + (k * m + p) * n + j)  # noqa: E731
    codes, rots = [], []
    for k in range(K):
        a = np.array([[ang(k, p, j) for j in range(n)] for p in range(m)])
        rot = Rotation.from_axes_angles(np.array([0, 0, 1.0]), a.ravel()).reshape(m, n)
        rots.append(rot.data.reshape(-1, 4))
        codes += [(k, p, j) for p in range(m) for j in range(n)]
        coords, _ = create_coordinate_arrays(shape, steps)
        name, pg = KINDS[c["kind"][k]]
        # Points outside the data may be of another phase
        unused = int(c["unused"] and c["how"] == "in_data" and mask[k].any() and not mask[k].all())
        pl = PhaseList([Phase("unused", point_group="23")] * unused + [Phase(name, point_group=pg)])
        pid = np.where(mask[k] & unused, 0, np.where(ind[k] == 1, unused, -1))
        if (pid == -1).any():
            pl.add_not_indexed()
        s_k, i_k = sc[k].astype(c["dtype"]), sim[k]
        if n == 1:
            rot, s_k, i_k = rot.flatten(), s_k[:, 0], i_k[:, 0]
        keep = ~mask[k]
        kw = dict(phase_list=pl, scan_unit="um")
        if c["how"] == "explicit" and not keep.all():
            # A map of the points in question only
            coords = {key: v[keep] for key, v in coords.items() if v is not None}
            maps.append(CrystalMap(rotations=rot[keep], phase_id=pid[keep],
                                   prop=dict(scores=s_k[keep], sim=i_k[keep]), **coords, **kw))
            masks.append(~keep.reshape(shape))
        else:
            maps.append(CrystalMap(rotations=rot, phase_id=pid, is_in_data=keep,
                                   prop=dict(scores=s_k, sim=i_k), **coords, **kw))
            masks.append(None)
    kw = {}
    if c["sign_how"] == "mean":
        kw["mean_n_best"] = c["sign"] * c["nb"]
    else:
        kw.update(mean_n_best=c["nb"], greater_is_better=c["sign"] == 1)
    if c["how"] == "explicit" and any(x is not None for x in masks):
        kw["navigation_masks"] = masks
    if c["has_sim"]:
        kw["simulation_indices_prop"] = "sim"
    out = kp.indexing.merge_crystal_maps(maps, **kw)

    allrot = np.concatenate(rots)
    rd = out.rotations.data.reshape(m, n, 4)
    near = np.abs(np.einsum("ijk,lk->ijl", rd, allrot))
    best = near.argmax(-1)
    code = [[list(codes[best[p, j]]) if near[p, j].max() > 1 - 1e-9 else [-2, -2, -2]
             for j in range(n)] for p in range(m)]
    kinds = []
    for p in range(m):
        i = int(out.phase_id[p])
        kd = -1
        if i != -1:
            ph = out.phases[i]
            hits = [j for j, (nm, pg) in enumerate(KINDS)
                    if ph.name.startswith(nm) and ph.point_group.name == pg]
            kd = hits[0] if hits else -2
        kinds.append(kd)
    scl = [[[] if mask[k, p] else q(sc[k, p]) for p in range(m)] for k in range(K)]
    coords, _ = create_coordinate_arrays(shape, steps)

    def co(v, mm):
        return q(np.broadcast_to(np.asarray(0 if v is None else v, float), (mm,)), 1000)

    rec = dict(
        op="merge", key="-", m=m, n=n, sc=scl, ind=ind.tolist(), nb=c["nb"], sign=c["sign"],
        kind=c["kind"], sim=sim.tolist(), has_sim=c["has_sim"],
        out_pid=out.phase_id.tolist(), out_kind=kinds, out_rot=code,
        out_map=[x[0][0] for x in code],
        out_sc=q(out.prop["scores"].reshape(out.size, n)),
        out_msc=q(out.prop["merged_scores"].reshape(out.size, -1)),
        x=co(out.x, out.size), y=co(out.y, out.size),
        want_x=co(coords.get("x"), m), want_y=co(coords.get("y"), m),
    )
    if c["has_sim"]:
        rec["out_sim"] = out.prop["sim"].reshape(out.size, n).tolist()
        ms = np.asarray(out.prop["merged_sim"]).reshape(out.size, -1)
        rec["out_msim"] = q(ms)
    return [rec]


def run(ctx):
    preload("kikuchipy.indexing", "orix.crystal_map")
    rng = ctx.rng
    model = ctx.mc("MCMerge", "SPECIFICATION Spec\nCONSTANTS MaxK = 3 MaxM = %d MaxS = 1\n"
                   "INVARIANTS IdsSafe IdsDenotePhases Emit\nCHECK_DEADLOCK FALSE\n"
                   % ctx.n(3, 4), expect_cases=100)
    cases = []

    def scores(k, m, n, hi):
        # Distinct in a point, so that matches can be told apart
        out = np.zeros((k, m, n), int)
        for p in range(m):
            v = rng.sample(range(hi), k * n)
            out[:, p, :] = np.array(v).reshape(k, n)
        return out

    def covered(mask, shape):
        # Every row and column of every map has a point (the extent of a map
        # follows from its points)
        a = (1 - mask).reshape(shape) if len(shape) == 2 else (1 - mask).reshape(1, -1)
        return a.any(0).all() and a.any(1).all()

    def add(k, shape, n, sc, ind, mask, **kw):
        m = int(np.prod(shape))
        c = dict(k=k, shape=list(shape), n=n, sc=np.asarray(sc).tolist(),
                 ind=np.asarray(ind).tolist(), mask=np.asarray(mask).tolist(), nb=1, sign=1,
                 sign_how=rng.choice(["mean", "flag"]), steps=[1.5, 0.5], how="in_data",
                 dtype=rng.choice(["float32", "float64"]), has_sim=rng.random() < 0.5, unused=int(rng.random() < 0.5),
                 sim=[[[rng.randint(0, 7) for _ in range(n)] for _ in range(m)]
                      for _ in range(k)])
        c.update(kw)
        # Matches in a map are distinct dictionary patterns
        c["sim"] = [[rng.sample(range(10), n) for _ in range(m)] for _ in range(k)]
        cases.append(c)

    for mc in model:
        k, m = len(mc["kind"]), len(mc["win"])
        n = rng.choice([1, 1, 2])
        sign = rng.choice([1, -1])
        sc = scores(k, m, n, 40) + 100
        ind = np.ones((k, m), int)
        for p, w in enumerate(mc["win"]):
            if w == 0:
                ind[:, p] = 0
            else:
                sc[w - 1, p] += sign * 50
                for j in range(k):
                    if j != w - 1 and rng.random() < 0.15:
                        ind[j, p] = 0
        add(k, [m], n, sc, ind, np.zeros((k, m), int), kind=[x - 1 for x in mc["kind"]],
            sign=sign, nb=rng.randint(1, n))
    tried = 0
    while tried < ctx.n(200, 2500):
        tried += 1
        k = rng.randint(2, 4)
        shape = rng.choice([[rng.randint(1, 6)], [rng.randint(2, 3), rng.randint(2, 4)]])
        m = int(np.prod(shape))
        n = rng.randint(1, 3)
        sc = scores(k, m, n, 60) - rng.choice([0, 30])
        ind = (np.array([[rng.random() for _ in range(m)] for _ in range(k)]) < 0.85).astype(int)
        if rng.random() < 0.5:
            ind[:] = 1
        mask = np.zeros((k, m), int)
        if rng.random() < 0.6:
            mask = (np.array([[rng.random() for _ in range(m)] for _ in range(k)]) < 0.3).astype(int)
            if rng.random() < 0.4:
                mask[:] = mask[0]  # the same mask for all maps
            for i in range(k):
                if not covered(mask[i], shape):
                    mask[i] = 0
        for i in range(k):
            if rng.random() < 0.1:
                ind[i] = 0
        how = rng.choice(["in_data", "explicit"])
        if how == "explicit":
            mask[0] = 0  # the merged map takes its step sizes from the first one
        add(k, shape, n, sc, ind, mask, kind=[rng.randrange(4) for _ in range(k)],
            sign=rng.choice([1, 1, -1]), nb=rng.randint(1, n), how=how)
    ctx.sample(*cases[::90])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceMerge", cases, traces)
    ctx.assumptions += ["at most four maps of twelve points and three scores per point",
                        "every row and column of a masked map has a point in the data"]
