"""C32: interactive views of a detector."""
import contextlib
import io
import itertools

import numpy as np

from harness.kp import kikuchipy, preload
from harness.refinement import master_pattern

LABEL = {"sample_tilt": "Sample tilt [°]", "tilt": "Detector tilt [°]",
         "azimuthal": "Azimuthal [°]", "twist": "Twist [°]", "pcx": "PCx", "pcy": "PCy",
         "pcz": "PCz", "phi1": "φ1 [°]", "Phi": "Φ [°]", "phi2": "φ2 [°]",
         "b1": "PC", "b2": "Gnomonic circles", "s1": "Geometric", "s2": "Simulation"}
# First value (may lie outside of a slider's usual range), and others within it
FIRST = {"sample_tilt": [70, 0, 95, -5], "tilt": [0, 5.5, -3, 100], "azimuthal": [0, -3.2, 14],
         "twist": [0, 2, -12], "pcx": [0.5, 0.42, -0.3, 1.2], "pcy": [0.5, 0.21, 1.7],
         "pcz": [0.5, 0.62, 1.4, 0.1], "phi1": [0, 35.0, 201.3], "Phi": [15, 50.0, 92.4],
         "phi2": [0, 45.0, 300.1]}
OTHER = {"sample_tilt": [60, 35.5, 80.1], "tilt": [10, -20.5, 33], "azimuthal": [4, -6.5, 9.75],
         "twist": [5, -7.5, 9], "pcx": [0.3, 0.71, 0.9], "pcy": [-0.2, 0.66, 0.31],
         "pcz": [0.35, 0.8, 0.95], "phi1": [100, 250.5, 12], "Phi": [30, 120.5, 77],
         "phi2": [80, 190.5, 333]}
HKL = [[1, 1, 1], [2, 0, 0], [-1, 1, 1], [0, 0, 2], [1, -1, 1], [0, 2, 0], [2, 2, 0]]


def bag(rows, unique=False):
    rows = [tuple(np.round(np.asarray(r, float), 5) + 0.0) for r in rows]
    return sorted(set(rows)) if unique else sorted(rows)


def close(a, b):
    return len(a) == len(b) and bool(np.allclose(np.array(a, float), np.array(b, float),
                                                 atol=2e-5))


def shape_of(ax, skip=()):
    """What is drawn on an axis, apart from images and what is to be skipped."""
    out = [("lim", ax.get_xlim() + ax.get_ylim())]
    out += [("line", tuple(np.ravel(x.get_data()))) for x in ax.lines]
    for p in ax.patches + [a for a in ax.artists]:
        d = np.ravel(p.get_center()).tolist() + [p.radius] if hasattr(p, "radius") else \
            np.ravel(p.get_xy() if hasattr(p, "get_xy") else []).tolist()
        d += [p.get_width(), p.get_height()] if type(p).__name__ == "Rectangle" else []
        out.append((type(p).__name__, tuple(d)))
    out += [("points" + str(x.get_label()), tuple(np.ravel(x.get_offsets())))
            for x in ax.collections if x not in skip]
    out += [("arrow", tuple(x.xy) + tuple(x.get_position())) for x in ax.texts
            if hasattr(x, "xy")]
    return [(k, tuple(float(v) for v in d)) for k, d in out]


def alike(a, b):
    return [k for k, _ in a] == [k for k, _ in b] and \
        all(close(x, y) for (_, x), (_, y) in zip(a, b))


def picture(ax):
    """Patterns on an axis, with the coordinates of their borders."""
    out = []
    for im in ax.images:
        x0, x1, y0, y1 = im.get_extent()
        a = np.asarray(im.get_array(), float)
        a = (a - a.min()) / (np.ptp(a) or 1)
        out.append((x0, x1, y1, y0, a) if im.origin == "upper" else (x0, x1, y0, y1, a))
    return out


def same_picture(a, b):
    return len(a) == len(b) and all(
        np.allclose(x[:4], y[:4]) and x[4].shape == y[4].shape
        and np.allclose(x[4], y[4], atol=2e-5) for x, y in zip(a, b))


def widgets(box):
    out = {}
    for w in getattr(box, "children", ()):
        out.update(widgets(w))
    if getattr(box, "description", ""):
        out[box.description] = box
    return out


class World:
    def __init__(self, c):
        import matplotlib

        matplotlib.use("template", force=True)
        import matplotlib.pyplot as plt

        self.kp, self.plt, self.c = kikuchipy(), plt, c
        self.mp = master_pattern(self.kp, c["seed"])
        self.cache = {}

    def detector(self, at):
        """A detector with values by attribute."""
        v = {**self.c["rest"], **at}
        return self.kp.detectors.EBSDDetector(
            shape=tuple(self.c["sig"]), sample_tilt=v["sample_tilt"], tilt=v["tilt"],
            azimuthal=v["azimuthal"], twist=v["twist"], pc=[v["pcx"], v["pcy"], v["pcz"]],
            px_size=self.c["px"])

    def reflectors(self):
        from diffsims.crystallography import ReciprocalLatticeVector

        h = np.array(HKL + [[-i for i in k] for k in HKL], float)
        return ReciprocalLatticeVector(self.mp.phase, hkl=h)

    def values(self, state, names):
        return {self.c["names"][a]: self.c["values"][self.c["names"][a]][state[a] - 1]
                for a in names if a in state}

    def fresh(self, own, rot, box, shared):
        """The views drawn afresh."""
        key = str((own, rot, box, shared))
        if key in self.cache:
            return self.cache[key]
        from orix.quaternion import Rotation

        c, kp, plt = self.c, self.kp, self.plt
        det = self.detector(self.values(own, ("d1", "d2")))
        _, axes = plt.subplots(1, 2)
        det.plot_side_view(ax=axes[0], legend=c["legend"])
        det.plot_top_view(ax=axes[1], legend=c["legend"])
        ang = {**c["angles"], **self.values(rot, ("r1",))}
        r = Rotation.from_euler([ang["phi1"], ang["Phi"], ang["phi2"]], degrees=True)
        has = c["overlays"]
        pattern, bands, points = None, [], []
        if "s2" in has and shared["s2"]:
            pattern = self.mp.get_patterns(
                r, det, energy=c["energy"] or 20, dtype_out="float32", compute=True,
                show_progressbar=False).data.squeeze()
        if "s1" in has and shared["s1"]:
            sim = kp.simulations.KikuchiPatternSimulator(self.reflectors()).on_detector(det, r)
            bands = np.asarray(sim.lines_coordinates(coordinates=c["coordinates"])).reshape(-1, 4)
            points = np.asarray(sim.zone_axes_coordinates(
                coordinates=c["coordinates"])).reshape(-1, 2)
        plane = det.plot(coordinates=c["coordinates"], show_pc=box["b1"],
                         draw_gnomonic_circles=box["b2"], return_figure=True).axes[0]
        pics = []
        if pattern is not None:
            pics = picture(det.plot(coordinates=c["coordinates"], pattern=pattern,
                                    return_figure=True).axes[0])
        out = (shape_of(axes[0]), shape_of(axes[1]), shape_of(plane), pics, bag(bands),
               bag(points, True))
        plt.close("all")
        self.cache[key] = out
        return out


def case_run(c):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        w = World(c)
        try:
            return steps(w, c)
        finally:
            w.plt.close("all")


def steps(w, c):
    from orix.quaternion import Rotation

    from kikuchipy.draw import EBSDDetectorPlotter

    user = w.detector(w.values({"d1": 1, "d2": 1}, ("d1", "d2")))
    given = None
    if c["many"]:  # A map of PCs of which the average is as wanted
        d = 0.01 * np.array([[1, 0, 1], [-1, 2, -1], [0, -2, 1], [0, 0, -1]])
        user.pc = (user.pc_average + d).reshape(tuple(c["many"]) + (3,))
        given = user.pc.copy()
    a = c["angles"]
    rot = Rotation.from_euler([a["phi1"], a["Phi"], a["phi2"]], degrees=True)
    plotter = EBSDDetectorPlotter(user, rot if c["overlays"] else None, inplace=c["inplace"])
    if "s1" in c["overlays"]:
        plotter.set_geometrical_simulation(w.reflectors())
    if "s2" in c["overlays"]:
        plotter.set_master_pattern(w.mp, energy=c["energy"])
    figs, recs, touched = [], [], False
    for h in c["hist"]:
        e, after = h["e"], h["after"]
        name = c["names"].get(e["what"], e["what"])
        key = dict(do=e["do"], what=name, inplace=c["inplace"])
        if e["do"] == "show":
            fig, controls = plotter.show(coordinates=c["coordinates"], legend=c["legend"])
            # The boxes of the simulations are the same in all figures
            figs.append((fig, widgets(controls)))
        elif e["do"] in ("slide", "turn"):
            if LABEL[name] in figs[e["fig"] - 1][1]:
                figs[e["fig"] - 1][1][LABEL[name]].value = c["values"][name][e["to"] - 1]
        elif e["do"] in ("box", "shared"):
            if LABEL[e["what"]] in figs[e["fig"] - 1][1]:
                box = figs[e["fig"] - 1][1][LABEL[e["what"]]]
                box.value = not box.value
        elif e["do"] == "set":
            v = c["values"][name][e["to"] - 1]
            if name.startswith("pc") and c["whole"]:
                pc = user.pc_average.copy()
                pc["xyz".index(name[2])] = v
                user.pc = pc
                touched = True
            else:
                setattr(user, name, v)
                touched = touched or name.startswith("pc")
        rec = dict(op="views", key=key, e=e, ref=after, inplace=c["inplace"], side=[], top=[],
                   detector=[], pattern=[], bands=[], axes=[])
        for (fig, _), f in zip(figs, after["figs"]):
            side, top, plane, pics, bands, points = w.fresh(after["own"], f["rot"], f["box"],
                                                            after["shared"])
            ax = fig.axes
            lines = [x for x in ax[2].collections if type(x).__name__ == "LineCollection"]
            zone = [x for x in ax[2].collections if x not in lines
                    and not str(x.get_label()).startswith("_pc")]
            rec["side"].append(alike(shape_of(ax[0]), side))
            rec["top"].append(alike(shape_of(ax[1]), top))
            rec["detector"].append(alike(shape_of(ax[2], lines + zone), plane))
            rec["pattern"].append(same_picture(picture(ax[2]), pics))
            rec["bands"].append(close(bag([np.ravel(s) for x in lines
                                           for s in x.get_segments()]), bands))
            rec["axes"].append(close(bag([o for x in zone for o in x.get_offsets()], True), points))
        now = {}
        for d in ("d1", "d2"):
            n = c["names"][d]
            i = {"pcx": 0, "pcy": 1, "pcz": 2}.get(n)
            v = getattr(user, n) if i is None else user.pc_average[i]
            hit = [k + 1 for k, x in enumerate(c["values"][n]) if abs(x - v) < 1e-9]
            now[d] = hit[0] if hit else 0
        rec["user"] = now
        if given is None or touched:
            rec["pcs"] = True
        else:
            rec["pcs"] = np.array_equal(user.pc, given) if not c["inplace"] else \
                user.navigation_size == 1
        recs.append(rec)
    return recs


def run(ctx):
    preload()
    import kikuchipy.draw  # noqa: F401

    rng = ctx.rng
    hists = []
    for n, (attrs, vals, boxes, figs) in enumerate((
            ('{"d1", "d2"}', "{1, 2}", '{"b1"}', 2), ('{"d1", "d2"}', "{1, 2, 3}", '{"b2"}', 1))):
        hists += ctx.mc(
            "MCDetectorViews",
            f'SPECIFICATION Spec\nCONSTANTS Attrs = {attrs} Angles = {{"r1"}} FigBoxes = {boxes} '
            f'SharedBoxes = {{"s1", "s2"}} Vals = {vals} MaxFigs = {figs} MaxEvents = 4\n'
            "INVARIANTS Inplace Untouched NotUndone Emit\nCONSTRAINT Shown\nCHECK_DEADLOCK FALSE\n",
            expect_cases=500)
    cases = []
    hard = [m for m in hists if m["inplace"] and undoing([h["e"] for h in m["hist"]])]
    chosen = rng.sample(hists, min(len(hists), ctx.n(130, 2200)))
    chosen += rng.sample(hard, min(len(hard), ctx.n(100, 900)))
    pairs = [p for p in itertools.permutations(list(FIRST)[:7], 2)]
    rng.shuffle(pairs)
    for m, pair in zip(chosen, itertools.cycle(pairs)):
        names = dict(zip(("d1", "d2"), pair))
        names["r1"] = rng.choice(["phi1", "Phi", "phi2"])
        hist = [dict(e=h["e"], after=complete(h["after"])) for h in m["hist"]]
        cases.append(dict(
            hist=hist, inplace=m["inplace"], names=names,
            values={n: [rng.choice(FIRST[n])] + rng.sample(OTHER[n], 2)
                    for n in names.values()},
            rest={n: OTHER[n][0] if rng.random() < 0.5 else FIRST[n][1]
                  for n in list(FIRST)[:7]},
            coordinates=rng.choice(["pixel", "gnomonic"]), legend=rng.random() < 0.3,
            overlays=rng.choice([[], ["s1"], ["s2"], ["s1", "s2"], ["s1", "s2"]]),
            energy=rng.choice([None, 10, 20]), whole=rng.random() < 0.5,
            many=rng.choice([None, None, [4], [2, 2], [4, 1]]), sig=rng.choice([[6, 9], [7, 5]]),
            px=rng.choice([1, 70.0]), seed=rng.randrange(1 << 30)))
        c = cases[-1]
        c["angles"] = {n: FIRST[n][1] for n in ("phi1", "Phi", "phi2")}
        c["angles"][names["r1"]] = c["values"][names["r1"]][0]
    ctx.sample(*cases[::60])
    traces = ctx.observe(case_run, cases)
    ctx.judge("TraceDetectorViews", cases, traces)
    ctx.assumptions += [
        "psygnal is installed; nothing is rendered: artists are compared to those of static plots "
        "of a detector with the model's attributes"]


def undoing(events):
    """Something else is moved after an attribute was set elsewhere."""
    sets = [i for i, e in enumerate(events) if e["do"] == "set"]
    return any(e["do"] in ("slide", "turn", "box") and e["what"] != events[i]["what"]
               and events[i]["to"] != 1 for i in sets for e in events[i + 1:])


def complete(state):
    """A state with all boxes of the trace specification."""
    for f in state["figs"]:
        f["box"] = {"b1": True, "b2": False, **f["box"]}
    return state
