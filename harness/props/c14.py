"""C14: orientation similarity maps."""
import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload


def case_run(c):
    kp = kikuchipy()
    from orix.crystal_map import CrystalMap, create_coordinate_arrays
    from orix.quaternion import Rotation

    shape = (c["ny"], c["nx"])
    m = c["ny"] * c["nx"]
    S = np.array(c["S"])
    keep = S.shape[1]
    coords, _ = create_coordinate_arrays(shape, (1.5, 0.5))
    xmap = CrystalMap(rotations=Rotation.identity((m,)), prop={c["prop"]: S.copy()}, **coords)
    F = np.array(c["F"])
    kw = dict(normalize=c["normalize"])
    if c["prop"] != "simulation_indices":
        kw["simulation_indices_prop"] = c["prop"]
    if not c["default_fp"]:
        flat = np.nonzero(F.ravel())[0]
        origin = (F.shape[0] // 2) * F.shape[1] + F.shape[1] // 2
        kw.update(footprint=F.copy(), center_index=int(np.where(flat == origin)[0][0]))
    if c["nb"] != keep or c["give_nb"]:
        kw["n_best"] = c["nb"]
    if c["nf"] != c["nb"]:
        kw["from_n_best"] = c["nf"]
    out = kp.indexing.orientation_similarity_map(xmap, **kw)
    k = c["nb"] - c["nf"] + 1
    arr = np.asarray(out).reshape(m, k).T
    want = [i for i in shape + (k,) if i > 1]
    same = np.array_equal(xmap.prop[c["prop"]], S) and (
        "footprint" not in kw or np.array_equal(kw["footprint"], F))
    return [dict(op="osm", key="-", ny=c["ny"], nx=c["nx"], S=S.tolist(), F=F.tolist(),
                 nb=c["nb"], nf=c["nf"], normalize=c["normalize"], out=q(arr, 100000),
                 shape=list(out.shape), want_shape=want, same=bool(same))]


CROSS = [[0, 1, 0], [1, 1, 1], [0, 1, 0]]


def run(ctx):
    preload("kikuchipy.indexing", "orix.crystal_map")
    rng = ctx.rng
    model = ctx.mc(
        "MCOrientationSimilarity",
        "SPECIFICATION Spec\nCONSTANTS MaxY = 2 MaxX = 2 Keep = 2 Ids = {0, 1, 2}\n"
        "  Footprints <- FP\nINVARIANTS Bounded Monotone Saturated LayersInOrder Emit\n"
        "CHECK_DEADLOCK FALSE\n", expect_cases=1000)
    rng.shuffle(model)
    cases = []

    def add(**kw):
        c = dict(normalize=rng.random() < 0.4, prop=rng.choice(["simulation_indices", "si"]),
                 give_nb=rng.random() < 0.5)
        c.update(kw)
        c["default_fp"] = c["F"] == CROSS and rng.random() < 0.7
        cases.append(c)

    for mc in model[: ctx.n(500, 4000)]:
        add(**mc)
    for _ in range(ctx.n(150, 1500)):
        ny, nx = rng.randint(1, 6), rng.randint(1, 6)
        keep = rng.randint(1, 6)
        hi = keep + rng.choice([0, 2, 6, 40])
        S = [rng.sample(range(hi), keep) for _ in range(ny * nx)]
        if rng.random() < 0.3:  # large domains of equal lists
            pool = [rng.sample(range(hi), keep) for _ in range(2)]
            S = [list(rng.choice(pool)) for _ in range(ny * nx)]
        if rng.random() < 0.4:
            F = CROSS
        else:
            fy, fx = rng.randint(1, 5), rng.randint(1, 5)
            F = [[int(rng.random() < 0.6) for _ in range(fx)] for _ in range(fy)]
            F[fy // 2][fx // 2] = 1
        nb = rng.randint(1, keep)
        add(ny=ny, nx=nx, S=S, F=F, nb=nb, nf=rng.randint(1, nb))
    ctx.sample(*cases[::200])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceOrientationSimilarity", cases, traces)
    ctx.assumptions += ["maps of at most 6 x 6 points, at most six matches",
                        "the footprint contains its origin and center_index denotes it"]
