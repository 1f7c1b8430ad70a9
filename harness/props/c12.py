"""C12: dictionary indexing."""
import numpy as np

from harness.core import q
from harness.kp import kikuchipy, layout, lazy, preload


def dictionary(kp, data, chunk, names, seed):
    from orix.crystal_map import CrystalMap, Phase, PhaseList
    from orix.quaternion import Rotation

    n = len(data)
    # Rotations about z by distinct angles that name the dictionary pattern
    rot = Rotation.from_axes_angles([0, 0, 1], np.arange(n) * 0.1 + 0.05)
    x = CrystalMap(rotations=rot, phase_list=PhaseList(Phase(names, point_group="432")),
                   x=np.arange(n))
    if chunk:
        return lazy(kp, data, (chunk,) + data.shape[1:], xmap=x)
    return kp.signals.EBSD(data, xmap=x)


def make_metric(kp, S, sign, echunk):
    import dask.array as da

    class Table(kp.indexing.SimilarityMetric):
        _allowed_dtypes = [np.float32, np.float64]
        _sign = sign

        def prepare_experimental(self, patterns):
            p = da.asarray(patterns).reshape((self.n_experimental_patterns, -1))
            if self.navigation_mask is not None:
                p = p[~self.navigation_mask.ravel()]
            return p

        def prepare_dictionary(self, patterns):
            return patterns

        def match(self, experimental, dictionary):
            e = np.asarray(experimental)[:, 0].astype(int)
            d = np.asarray(dictionary)[:, 0].astype(int)
            return da.from_array(S[np.ix_(e, d)].astype(self.dtype), chunks=(echunk, -1))

    return Table()


def case_run(c):
    kp = kikuchipy()
    rng = np.random.default_rng(c["seed"])
    nav = tuple(c["nav"])
    n = int(np.prod(nav)) if nav else 1
    if c["kind"] == "table":
        S = np.array(c["S"], dtype=float)
        nd = S.shape[1]
        E = rng.integers(0, len(S), n)
        P = np.zeros((n, 2, 2), np.uint8)
        P[:, 0, 0] = E
        D = np.zeros((nd, 2, 2), np.uint8)
        D[:, 0, 0] = np.arange(nd)
        metric = make_metric(kp, S, c["sign"], c["echunk"])
        smask = None
    else:
        sig = tuple(c["sig"])
        nd = c["nd"]
        npx = int(np.prod(sig))
        smask = np.zeros(npx, bool)
        smask[rng.permutation(npx)[: c["n_masked"]]] = True
        keep = ~smask

        def pats(k):
            out = []
            while len(out) < k:
                p = rng.integers(0, 3, npx)
                if np.unique(p[keep]).size > 1:
                    p = np.where(keep, p, rng.integers(0, 250, npx))
                    out.append(p)
            return np.array(out).reshape((k,) + sig)

        P, D = pats(n), pats(nd)
        P, D = P.astype(c["dtype_e"]), D.astype(c["dtype_d"])
        metric = c["metric"]
        smask = layout(smask.reshape(sig), c["seed"] // 3)
    data = P.reshape(nav + P.shape[1:])
    if c["lazy"]:
        s = lazy(kp, data, tuple(min(c["navchunk"], k) for k in nav) + P.shape[1:])
    else:
        s = kp.signals.EBSD(layout(data, c["seed"] // 7))
    scale = (0.5, 1.5)
    for ax, sc in zip(s.axes_manager.navigation_axes, scale):
        ax.scale = sc
    names = "ph"
    dic = dictionary(kp, D, c["dchunk"], names, c["seed"])
    nmask = None
    mask = np.zeros(n, int)
    if c["nmask"] and n > 1:
        mask = (rng.random(n) < 0.4).astype(int)
        if mask.all():
            mask[rng.integers(n)] = 0
        nmask = layout(mask.astype(bool).reshape(nav), c["seed"] // 11)
    kw = dict(metric=metric, keep_n=c["keep"], n_per_iteration=c["per"],
              navigation_mask=nmask, signal_mask=smask if c.get("n_masked") else None,
              rechunk=c["rechunk"])
    if c.get("dtype"):
        kw["dtype"] = c["dtype"]
    xm = s.dictionary_indexing(dic, **kw)
    si = np.asarray(xm.simulation_indices).reshape(xm.size, -1)
    sc = np.asarray(xm.scores).reshape(xm.size, -1)
    rd = xm.rotations.data.reshape(xm.size, -1, 4)
    dots = np.abs(np.einsum("ijk,lk->ijl", rd, dic.xmap.rotations.data.reshape(-1, 4)))
    rot = dots.argmax(-1)
    rot[dots.max(-1) < 1 - 1e-8] = -1
    ink = mask == 0
    nav2 = nav if nav else (1,)
    # Coordinates of the points in the data
    idx = np.indices(nav2).reshape(len(nav2), -1)[:, ink]
    wx = q(idx[-1] * scale[0], 1000) if nav else [0]
    wy = q(idx[-2] * scale[1], 1000) if len(nav) == 2 else [0] * int(ink.sum())
    gx = q(xm.x, 1000) if xm.x is not None else [0] * int(ink.sum())
    gy = q(xm.y, 1000) if xm.y is not None else [0] * int(ink.sum())
    if not nav:
        gx, gy = [0], [0]
    if not isinstance(gx, list):
        gx, gy = [gx], [gy]
    rec = dict(
        key="-", keep=c["keep"], si=si.tolist(), rot=rot.tolist(), mask=mask.tolist(),
        is_in_data=np.asarray(xm.is_in_data).astype(int).ravel().tolist(),
        map_shape=list(xm._original_shape) if nav else [], want_shape=list(nav),
        x=gx, y=gy, want_x=wx, want_y=wy,
        phases=[xm.phases_in_data[i].name for i in xm.phases_in_data.ids],
        want_phases=[names],
    )
    if c["kind"] == "table":
        rec.update(op="table", sc=q(sc), S=q(S), E=E[ink].tolist(), sign=c["sign"])
    else:
        rec.update(op="patterns", sc=q(sc, 1000), metric=c["metric"],
                   P=q(P.reshape(n, -1)[ink]), D=q(D.reshape(nd, -1)),
                   smask=smask.ravel().astype(int).tolist())
    return [rec]


def run(ctx):
    preload("kikuchipy.signals", "kikuchipy.indexing", "orix.crystal_map")
    rng = ctx.rng
    md = ctx.n(4, 5)
    model = ctx.mc("MCDictionaryIndexing",
                   "SPECIFICATION Spec\nCONSTANTS MaxD = %d MaxScore = 2 Every = %d\n"
                   "INVARIANTS RunningBest Emit\nCHECK_DEADLOCK FALSE\n" % (md, ctx.n(11, 7)),
                   expect_cases=50)
    cases = []

    def nav():
        return rng.choice([[rng.randint(1, 5)], [rng.randint(1, 4), rng.randint(1, 4)],
                           [rng.randint(2, 3), rng.randint(2, 4)]])

    def common(nd):
        return dict(seed=rng.randrange(1 << 30), nav=nav(), lazy=rng.random() < 0.4,
                    navchunk=rng.randint(1, 3), nmask=rng.random() < 0.35,
                    rechunk=rng.random() < 0.3,
                    dchunk=rng.choice([0, 0, rng.randint(1, nd)]))

    for m in model:
        if len(m["sc"]) == 1:
            continue  # a crystal map of one point has no shape of (1,)
        c = common(len(m["sc"]))
        # Further rows so that points differ
        off = rng.choice([0, 0, -3, 5])
        S = [[v + off for v in m["sc"]]] + [
            [rng.randint(-3, 9) for _ in m["sc"]] for _ in range(2)]
        c.update(kind="table", S=S, sign=m["sign"], keep=m["keep"], per=m["per"],
                 echunk=rng.randint(1, 4), dtype=rng.choice([None, "float32", "float64"]))
        cases.append(c)
    for i in range(ctx.n(150, 1500)):
        nd = rng.randint(2, 14)
        c = common(nd)
        kind = rng.choice(["table", "patterns", "patterns"])
        c.update(kind=kind, keep=rng.choice([1, 1, 2, 3, nd, 20]),
                 per=rng.choice([None, nd, rng.randint(1, nd), rng.randint(1, nd), nd + 3]))
        if rng.random() < 0.05:
            c["nav"] = []
        if kind == "table":
            hi = rng.choice([3, 50])
            c.update(S=[[rng.randint(-hi, hi) for _ in range(nd)] for _ in range(4)],
                     sign=rng.choice([1, 1, -1]), echunk=rng.randint(1, 5))
        else:
            c.update(sig=rng.choice([[2, 3], [3, 2], [1, 6], [2, 4]]), nd=nd,
                     metric=rng.choice(["ncc", "ndp"]), n_masked=rng.choice([0, 0, 1, 2, 3]),
                     dtype_e=rng.choice(["uint8", "float32", "uint16"]),
                     dtype_d=rng.choice(["uint8", "float32", "float64"]),
                     dtype=rng.choice([None, "float32", "float64"]))
            if np.prod(c["sig"]) - c["n_masked"] > 7:
                c["n_masked"] = 2
        cases.append(c)
    ctx.sample(*cases[::80])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceDictionaryIndexing", cases, traces)
    ctx.assumptions += [
        "dictionaries of at most 14 patterns; NCC and NDP on patterns of at most 8 pixels of "
        "three levels, where the order of the scores is decided exactly",
        "ties may be broken in any order",
    ]
