"""C09: histories of a detector."""
import os
import tempfile

import numpy as np

from harness.core import q
from harness.detector import ALIASES, GETTERS, observe, same_attrs, snapshot
from harness.kp import kikuchipy, preload


def case_run(c):
    kp = kikuchipy()
    Det = kp.detectors.EBSDDetector
    rng = np.random.default_rng(c["seed"])
    nav = tuple(c["nav"])
    given = (np.array(c["P"]) / 100000).reshape(nav + (3,))
    kept = given.copy()
    a = c["ang"]
    d = Det(shape=tuple(c["shape"]), pc=given, px_size=c["d"] / 10, binning=c["b"] / 10,
            sample_tilt=a[0] / 100, tilt=a[1] / 100, azimuthal=a[2] / 100, twist=a[3] / 100)
    given += 1  # The detector has its own copy
    want = dict(pc=c["P"], shape=c["shape"], nav=c["nav"], b=c["b"], d=c["d"], ang=a)
    recs = [dict(op="new", key="-", want=want, **observe(d))]
    del kept

    def unshared(old, new):
        """Whether changing one leaves the other alone."""
        s = snapshot(old)
        p, sh, pc = new.px_size, new.shape, new.pc.copy()
        new.pcx = new.pcx + 0.5
        new.pc[..., 1] += 0.25
        new.tilt, t = new.tilt + 1, new.tilt
        new.shape = (1, 1)
        ok = snapshot(old) == s
        new.shape, new.tilt, new.px_size = sh, t, p
        new.pc = pc
        s = snapshot(new)
        opc = old.pc.copy()
        old.pcz = old.pcz + 0.5
        old.pc[..., 0] -= 0.25
        ok &= snapshot(new) == s
        old.pc = opc
        return bool(ok)

    with tempfile.TemporaryDirectory() as tmp:
        for i, h in enumerate(c["ops"]):
            op = h["op"]
            was = snapshot(d)
            if op == "conv":
                name = ALIASES[h["conv"]][h["alias"] % len(ALIASES[h["conv"]])]
                new = Det(pc=GETTERS[h["conv"]](d), convention=name, **same_attrs(d))
                extra = dict(same=snapshot(d) == was, unshared=unshared(d, new))
            elif op == "save":
                name = ALIASES[h["conv"]][h["alias"] % len(ALIASES[h["conv"]])]
                f = os.path.join(tmp, f"d{i}.txt")
                d.save(f, convention=name, **({"fmt": "%.9e"} if h["alias"] % 2 else {}))
                new = Det.load(f)
                extra = dict(same=snapshot(d) == was, unshared=unshared(d, new))
            elif op == "copy":
                new = d.deepcopy()
                extra = dict(same=snapshot(d) == was, unshared=unshared(d, new))
            elif op == "crop":
                new = d.crop(tuple(h["over"]))
                extra = dict(extent=h["extent"],
                             same=bool(snapshot(d) == was and unshared(d, new)))
            elif op == "nav":
                new = d.deepcopy() if h["copy"] else d
                n = new.navigation_size
                shapes = [(n,)] + [(k, n // k) for k in range(1, n + 1) if n % k == 0]
                to = shapes[h["pick"] % len(shapes)]
                new.navigation_shape = to
                extra = dict(to=list(to))
            elif op == "shape":
                new = d
                new.shape = tuple(h["to"])
                extra = dict(to=list(h["to"]))
            elif op == "setpc":
                new = d
                k = h["coord"]
                v = rng.integers(20000, 90000, new.navigation_shape)
                if h["one"]:
                    v[...] = v.flat[0]
                val = v / 100000
                arg = float(val.flat[0]) if h["one"] else val
                setattr(new, ["pcx", "pcy", "pcz"][k], arg)
                extra = dict(coord=k + 1, val=v.ravel().tolist())
                if not h["one"]:
                    val += 1
            elif op == "attr":
                new = d
                if h["name"] == "b":
                    new.binning = h["to"] / 10
                elif h["name"] == "d":
                    new.px_size = h["to"] / 10
                else:
                    (new.sample_tilt, new.tilt, new.azimuthal, new.twist) = (
                        x / 100 for x in h["to"])
                extra = dict(name=h["name"], to=h["to"])
            elif op == "refused":
                new = d
                raised = False
                try:
                    if h["what"] == "crop":
                        d.crop((1, 1, 0, 1))
                    elif h["what"] == "nav":
                        d.navigation_shape = (1, d.navigation_size, 1)
                    elif h["what"] == "nav2":
                        d.navigation_shape = (d.navigation_size + 1,)
                    elif h["what"] == "shape":
                        d.shape = (2, 3, 4)
                    elif h["what"] == "tilt":
                        d.tilt = "1"
                    elif h["what"] == "conv":
                        d.save(os.path.join(tmp, "r.txt"), convention="nordif")
                except ValueError:
                    raised = True
                extra = dict(raised=raised, same=snapshot(d) == was)
            d = new
            recs.append(dict(op=op, key=h.get("conv", "-"), **extra, **observe(d)))
    return recs


CONVS = list(ALIASES)


def run(ctx):
    preload("kikuchipy.detectors")
    rng = ctx.rng
    model = ctx.mc("MCDetector",
                   "SPECIFICATION Spec\nCONSTANTS MaxN = 3 MaxH = %d\n"
                   "  Convs = {\"tsl\", \"oxford\", \"emsoft\", \"emsoft4\", \"bruker\"}\n"
                   "INVARIANTS TypeOK SamePoint Inside Emit\nCHECK_DEADLOCK FALSE\n" % ctx.n(3, 4),
                   expect_cases=500)
    rng.shuffle(model)
    cases = []

    def start(shape):
        nav = rng.choice([[1], [rng.randint(2, 6)], [rng.randint(1, 4), rng.randint(1, 3)]])
        n = int(np.prod(nav))
        return dict(seed=rng.randrange(1 << 30), shape=list(shape), nav=nav,
                    P=[[rng.randint(-10000, 110000), rng.randint(-10000, 110000),
                        rng.randint(30000, 150000)] for _ in range(n)],
                    b=rng.choice([10, 20, 80, 25, 15]), d=rng.choice([10, 592, 700, 3]),
                    ang=angles())

    def angles():
        return [rng.choice([7000, 6950, 6512]), rng.choice([0, 500, -1025]),
                rng.choice([0, 0, 310, -55]), rng.choice([0, 0, 102, -700])]

    def over(e, shape):
        """An extent that is cut to e, at times given beyond the detector."""
        t, b, l, r = e
        o = [t, b, l, r]
        if t == 0 and rng.random() < 0.3:
            o[0] = -rng.randint(1, 3)
        if l == 0 and rng.random() < 0.3:
            o[2] = -rng.randint(1, 3)
        if b == shape[0] and rng.random() < 0.3:
            o[1] += 2
        if r == shape[1] and rng.random() < 0.3:
            o[3] += 5
        return o

    def step(h, shape):
        h = dict(h)
        if h["op"] in ("conv", "save"):
            h["alias"] = rng.randrange(12)
        elif h["op"] == "nav":
            h.update(pick=rng.randrange(12), copy=rng.random() < 0.5)
        elif h["op"] == "crop":
            h["over"] = over(h["extent"], shape)
            shape = [h["extent"][1] - h["extent"][0], h["extent"][3] - h["extent"][2]]
        return h, shape

    for m in model[:ctx.n(250, 3000)]:
        hist = m["h"]
        shape = [hist[0]["ny"], hist[0]["nx"]]
        c = start(shape)
        c["ops"] = []
        for h in hist[1:]:
            h, shape = step(h, shape)
            c["ops"].append(h)
        cases.append(c)
    for _ in range(ctx.n(150, 2500)):
        shape = [rng.randint(1, 30), rng.randint(1, 30)]
        c = start(shape)
        c["ops"] = []
        for _ in range(rng.randint(2, 6)):
            op = rng.choice(["crop", "conv", "save", "save", "copy", "nav", "shape", "setpc",
                             "attr", "refused"])
            h = dict(op=op)
            if op in ("conv", "save"):
                h["conv"] = rng.choice(CONVS)
            elif op == "crop":
                t, l = (rng.randrange(k) for k in shape)
                h["extent"] = [t, rng.randint(t + 1, shape[0]), l, rng.randint(l + 1, shape[1])]
            elif op == "shape":
                h["to"] = [rng.randint(1, 30), rng.randint(1, 30)]
            elif op == "setpc":
                h.update(coord=rng.randrange(3), one=rng.random() < 0.3)
            elif op == "attr":
                h["name"] = rng.choice(["b", "d", "ang"])
                h["to"] = angles() if h["name"] == "ang" else rng.choice([10, 20, 35, 70])
            elif op == "refused":
                h["what"] = rng.choice(["crop", "nav", "nav2", "shape", "tilt", "conv"])
            h, shape = step(h, shape)
            if op == "shape":
                shape = h["to"]
            c["ops"].append(h)
        cases.append(c)
    ctx.sample(*cases[::80])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceDetector", cases, traces)
    ctx.assumptions += ["saved projection centers keep seven decimals (the default of save)"]
