"""C17: refinements before, after and beside each other."""
import sys
import threading

import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload
from harness.refinement import (METHODS, NEEDS_REGION, PC0, SC, call, detector, master_pattern,
                                one_point_map, quiet)


class Turns:
    """Lets threads take turns as a schedule says; never blocks for long."""

    def __init__(self, order):
        self.order, self.at = list(order), 0
        self.gone = set()
        self.cond = threading.Condition()

    def step(self, me):
        if not me:
            return
        with self.cond:
            ok = self.cond.wait_for(lambda: self._mine(me), timeout=5)
            if ok and self.at < len(self.order):
                self.at += 1
            self.cond.notify_all()

    def _mine(self, me):
        while self.at < len(self.order) and self.order[self.at] in self.gone:
            self.at += 1
        return self.at >= len(self.order) or self.order[self.at] == me

    def leave(self, me):
        with self.cond:
            self.gone.add(me)
            self.cond.notify_all()


def build(kp, c):
    """The arguments that the jobs of a case share."""
    from orix.quaternion import Rotation

    rng = np.random.default_rng(c["seed"])
    sig, n = tuple(c["sig"]), c["n"]
    pats = [rng.integers(0, 250, (n,) + sig).astype("uint8"),
            (rng.random((n,) + sig) * 3 - 1).astype("float32")]
    mps = [master_pattern(kp, c["seed"] + 1), master_pattern(kp, c["seed"] + 2, "uint8")]
    rot = Rotation.from_euler(rng.random((n, 3)) * [6, 3, 6] + 0.05)
    xmap = one_point_map(rot, mps[0].phase)
    pcs = PC0 + 0.05 * rng.random((n, 3))
    dets = [detector(kp, sig, pcs[0]), detector(kp, sig, pcs, tilt=-5),
            detector(kp, sig, PC0 + 0.03, azimuthal=9)]
    m1 = np.zeros(sig, bool)
    m1[0] = True
    m2 = np.zeros(sig, bool)
    m2[:, 0] = True
    import copy

    return dict(signals=[kp.signals.EBSD(p) for p in pats], mps=mps, xmap=xmap, dets=dets,
                smasks=[None, m1, m2], navs=[None, np.arange(n) == 0],
                methods=copy.deepcopy(METHODS), trust=[None, [2., 3., 4.], [1., 1., 1.]],
                trust_pc=[None, [0.02, 0.03, 0.01], [0.01, 0.01, 0.01]],
                ops=[None, Rotation.from_euler([[0, 0, 1.5], [0.7, 1.2, 0.3]])])


def make(a, j, compute, callback=None):
    kw = a["methods"][j["method"]]
    if callback is not None:
        kw = dict(kw, method_kwargs=dict(kw["method_kwargs"], callback=callback))
    kw = dict(kw, energy=j["energy"], rechunk=True, chunk_kwargs=dict(chunk_shape=j["chunk"]))
    if j["smask"]:
        kw["signal_mask"] = a["smasks"][j["smask"]]
    if j["nav"]:
        kw["navigation_mask"] = a["navs"][1]
    t = j["trust"] or (1 if j["method"] in NEEDS_REGION else 0)
    if t:
        kw["trust_region"] = {"ori": a["trust"][t], "pc": a["trust_pc"][t],
                              "ori_pc": a["trust"][t] + a["trust_pc"][t]}[j["mode"]]
    if j["ops"] and j["mode"] != "pc":
        kw["pseudo_symmetry_ops"] = a["ops"][1]
    return call(a["signals"][j["dtype"]], j["mode"], a["xmap"], a["dets"][j["det"]],
                a["mps"][j["mp"]], compute=compute, **kw)


def rows_now(out, mode):
    """What a refinement computed at once returns, as rows."""
    if mode == "pc":
        return np.concatenate([out[0].reshape(-1, 1), out[2].reshape(-1, 1),
                               out[1].pc.reshape(-1, 3)], axis=1)
    xmap = out if mode == "ori" else out[0]
    cols = [xmap.scores[:, None], xmap.num_evals[:, None], xmap.rotations.data.reshape(-1, 4)]
    if mode == "ori_pc":
        cols.append(out[1].pc.reshape(-1, 3))
    if "pseudo_symmetry_index" in xmap.prop:
        cols.append(xmap.pseudo_symmetry_index[:, None])
    return np.concatenate(cols, axis=1)


def enc(rows):
    return [[q(x, SC) if k != 1 else int(x) for k, x in enumerate(r)] for r in np.asarray(rows)]


def reference(c, j, now):
    kp = kikuchipy()
    out = make(build(kp, c), j, now)
    return enc(rows_now(out, j["mode"]) if now else out.compute(scheduler="synchronous"))


def history(c):
    kp = kikuchipy()
    a = build(kp, c)
    made, recs = {}, []
    for h in c["hist"]:
        k = h["j"] - 1
        j = c["jobs"][k]
        key = f"{j['mode']}-{j['method']}-{h['a']}"
        if h["a"] == "make":
            made[k] = make(a, j, False)
            continue
        now = h["a"] == "now"
        out = rows_now(make(a, j, True), j["mode"]) if now else made[k].compute()
        recs.append(dict(op="job", key=key, rows=enc(out), ref=reference(c, j, now),
                         finished=True))
    return recs


def threads(c):
    kp = kikuchipy()
    a = build(kp, c)
    turns = Turns(c["turn"])
    made, outs, errs, who = {}, {}, [], {}
    for k, j in enumerate(c["jobs"]):
        cb = None
        if j["method"] in ("nm", "default", "powell"):
            cb = lambda *x: turns.step(who.get(threading.get_ident(), 0))
        elif not c["same"]:
            turns.leave(k + 1)
        made[k] = make(a, j, False, cb)
    if c["same"]:  # Both threads compute chunks of the same refinement
        blocks = list(made[0].to_delayed().ravel())
        parts = {0: blocks[0::2], 1: blocks[1::2]}

    def work(k):
        who[threading.get_ident()] = k + 1
        try:
            if c["same"]:
                outs[k] = [b.compute(scheduler="synchronous") for b in parts[k]]
            else:
                outs[k] = made[k].compute(scheduler="synchronous")
        except BaseException as e:
            errs.append(e)
        finally:
            turns.leave(k + 1)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in (0, 1)]
        [t.start() for t in ts]
        [t.join(60) for t in ts]
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise errs[0]
    done = not any(t.is_alive() for t in ts)
    if c["same"]:
        got = {0: np.concatenate([x for p in zip(outs[0], outs[1] + [None]) for x in p
                                  if x is not None]
                                 if len(outs[0]) == len(outs[1]) else
                                 [outs[(i % 2)][i // 2] for i in range(len(blocks))])}
    else:
        got = outs
    return [dict(op="job", key=f"{c['jobs'][k]['mode']}-{c['jobs'][k]['method']}-thread",
                 rows=enc(got[k]), ref=reference(c, c["jobs"][k], False), finished=done)
            for k in sorted(got)]


def points(c):
    """Each point of a refinement beside the others, and by itself."""
    kp = kikuchipy()
    j, sig = c["jobs"][0], tuple(c["sig"])
    got = make(build(kp, c), j, False).compute(scheduler=c["scheduler"])
    from orix.quaternion import Rotation

    recs = []
    for i in range(c["n"]):
        a = build(kp, c)
        s, xmap, det = a["signals"][j["dtype"]], a["xmap"], a["dets"][j["det"]]
        # A map of one point cannot be refined: the point twice
        a["signals"][j["dtype"]] = kp.signals.EBSD(np.stack([s.data[i]] * 2))
        a["xmap"] = one_point_map(Rotation(np.stack([xmap.rotations.data[i]] * 2)),
                                  a["mps"][0].phase)
        if det.navigation_size > 1:
            det.pc = np.stack([det.pc_flattened[i]] * 2)
        ref = make(a, dict(j, chunk=2), False).compute(scheduler="synchronous")
        recs.append(dict(op="job", key=f"{j['mode']}-{j['method']}-point",
                         rows=enc(np.asarray(got)[i:i + 1]), ref=enc(np.asarray(ref)[:1]),
                         finished=True))
    return recs


def case_run(c):
    return {"history": history, "threads": threads, "points": points}[c["kind"]](c)


def run(ctx):
    preload()
    rng = ctx.rng
    model = []
    for jobs, n in ((2, 4), (3, 5)) if ctx.quick else ((2, 5), (3, 6)):
        model += ctx.mc(
            "MCRefinementJobs",
            f"SPECIFICATION Spec\nCONSTANTS Jobs = {{{', '.join(map(str, range(1, jobs + 1)))}}} "
            f"MaxLen = {n} Steps = {ctx.n(3, 4) if jobs == 2 else 0} "
            f"MaxPoints = {4 if jobs == 2 else 2}\n"
            "INVARIANTS Isolated EachOnce Emit\nCHECK_DEADLOCK FALSE\n", expect_cases=20)

    def job(**kw):
        j = dict(mode=rng.choice(["ori", "pc", "ori_pc"]), method=rng.choice(list(METHODS)),
                 energy=rng.choice([10, 20]), smask=rng.randrange(3), nav=rng.random() < 0.3,
                 trust=rng.randrange(3), ops=rng.random() < 0.3, det=rng.randrange(3),
                 mp=rng.randrange(2), dtype=rng.randrange(2), chunk=rng.choice([1, 2]))
        if j["method"] == "nlopt_first":
            j["method"] = "nlopt"
        j.update(kw)
        return j

    cases = []
    hist = [m for m in model if m["kind"] == "history"]
    sched = [m for m in model if m["kind"] == "threads"]
    for m in rng.sample(hist, min(len(hist), ctx.n(110, 900))):
        k = max(h["j"] for h in m["hist"])
        jobs = [job() for _ in range(k)]
        if rng.random() < 0.5:  # Jobs that differ in few arguments
            jobs = [dict(jobs[0], **{x: jobs[i][x] for x in rng.sample(sorted(jobs[0]), 3)})
                    for i in range(k)]
        cases.append(dict(kind="history", hist=m["hist"], jobs=jobs, n=rng.choice([2, 3]),
                          sig=rng.choice([[4, 4], [3, 5]]), seed=rng.randrange(1 << 30)))
    for m in sched * ctx.n(2, 4):
        same = rng.random() < 0.4
        meth = rng.choice([["nm", "default", "powell"], ["nm"], list(METHODS)[:9]])
        jobs = [job(method=rng.choice(meth), chunk=1, nav=False) for _ in range(2)]
        if rng.random() < 0.5:
            jobs[1]["mode"] = jobs[0]["mode"]
        cases.append(dict(kind="threads", turn=m["turn"], jobs=jobs, n=2 if not same else 4,
                          same=same, sig=[4, 4], seed=rng.randrange(1 << 30)))
    for m in [m for m in model if m["kind"] == "points"] * ctx.n(5, 40):
        for mode in ("ori", "pc", "ori_pc"):
            cases.append(dict(kind="points", n=m["n"], sig=rng.choice([[4, 4], [3, 5]]),
                              jobs=[job(mode=mode, nav=False, chunk=m["c"],
                                        det=rng.choice([1, 1, 0, 2]))],
                              scheduler=rng.choice(["synchronous", "threads"]),
                              seed=rng.randrange(1 << 30)))
    ctx.sample(*cases[::50])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceRefinementJobs", cases, traces)
    ctx.assumptions += [
        "threads take turns at the end of every iteration of SciPy's methods (callback); within "
        "an iteration, and for NLopt, the order is the operating system's",
        "stochastic methods are given a seed"]
