"""C01: histories of an EBSD signal."""
import random

from harness import session
from harness.kp import kikuchipy, preload


def case_run(c):
    kp = kikuchipy()
    s, orig = session.build(kp, c)
    rng = random.Random(c["seed"])
    exact = True
    recs = [dict(op="session", key="-", name="start", orig=orig, nav=c["nav"], sig=c["sig"],
                 pcn=c["pcn"], **session.state(s))]
    ops = c.get("ops")
    for i in range(len(ops) if ops is not None else c["length"]):
        o = dict(ops[i]) if ops is not None else session.random_op(rng, s)
        if ops is not None and rng.random() < 0.3:
            o["float"] = True
        exact &= o["name"] != "downsample"
        s = session.apply(s, o)
        recs.append(dict(op="session", key="-", **o, **session.state(s, exact)))
    return recs


def run(ctx):
    preload()
    rng = ctx.rng
    model = ctx.mc("MCSession",
                   "SPECIFICATION Spec\nCONSTANTS Depth = 3\n"
                   "INVARIANTS Consistent Frame Directions NoDuplicates Emit\nCHECK_DEADLOCK FALSE\n",
                   workers=8, expect_cases=50000)
    cases = []

    def base(**kw):
        c = dict(seed=rng.randrange(1 << 30), dtype=rng.choice(["uint8", "uint16", "float32"]),
                 bg=True, xmap=True, lazy=False, pcn=True)
        c.update(kw)
        return c

    for m in rng.sample(model, ctx.n(160, 3000)):
        cases.append(base(nav=list(m["start"]["nav"]), sig=[4, 6], pcn=m["start"]["pcn"],
                          ops=m["hist"]))
    for _ in range(ctx.n(140, 2500)):
        nav = rng.choice([[], [rng.randint(2, 5)], [rng.randint(2, 4), rng.randint(2, 5)],
                          [rng.randint(2, 4), rng.randint(2, 5)]])
        cases.append(base(nav=nav, sig=[rng.choice([4, 5, 6, 8]), rng.choice([4, 6, 7, 8])],
                          pcn=bool(nav) and rng.random() < 0.7, bg=rng.random() < 0.7,
                          xmap=rng.random() < 0.8, lazy=rng.random() < 0.35,
                          length=rng.randint(2, 7)))
    ctx.sample(*cases[::60])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceSession", cases, traces)
    ctx.assumptions += ["positions given in axis units lie on pixels or map points",
                        "selections are not empty and keep two detector rows and columns"]
