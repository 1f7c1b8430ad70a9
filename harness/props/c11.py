"""C11: what vendors' files hold is put at its place in the map."""
import os
import shutil
import struct
import tempfile
import warnings

import numpy as np

from harness.core import q
from harness.kp import kikuchipy, preload

ONE = 1000


def stored_patterns(c, rng, n):
    """Distinguishable patterns in the order they are stored."""
    sy, sx = c["sig"]
    info = np.iinfo(c["dtype"])
    while True:
        a = rng.integers(info.min, info.max + 1, (n, sy, sx), dtype=c["dtype"])
        a[:, 0, 0] = 1 + np.arange(n)
        if sy * sx > 1:
            a[:, -1, -1] = a[:, 0, 0] + 60
        return a


def decode(images, stored, zero=True):
    """Which of the stored patterns the images are: 0 for no pattern."""
    out = []
    for im in images:
        hit = [k + 1 for k, p in enumerate(stored) if p.shape == im.shape and np.array_equal(p, im)]
        out.append(hit[0] if hit else 0 if zero and not im.any() else -1)
    return out


def decode_rows(rows, stored, tol=1e-5):
    out = []
    for r in np.atleast_2d(rows):
        hit = [k + 1 for k, p in enumerate(stored) if np.allclose(p, r, atol=tol)]
        out.append(hit[0] if hit else -1)
    return out


# ------------------------------ writers ------------------------------ #


def setting_file(c, fn):
    m = c["meta"]
    lines = ["[NORDIF]\t\t", "Software version\t3.1.2\t", "\t\t"]
    lines += ["[Microscope]\t\t", "Manufacturer\tHitachi\t", f"Model\t{m['model']}\t", f"Magnification\t{m['mag']}\t#",
              "Scan direction\tDirect\t", f"Accelerating voltage\t{m['kv']}\tkV",
              f"Working distance\t{m['wd']}\tmm", f"Tilt angle\t{m['sample_tilt']}\t\xb0", "\t\t"]
    lines += ["[Electron image]\t\t", "Frame rate\t0.25\tfps", "Resolution\t100x80\tpx", "Rotation\t0\t\xb0", "\t\t"]
    lines += ["[Detector angles]\t\t", "Euler 1\t0\t\xb0", "Euler 2\t0\t\xb0", "Euler 3\t0\t\xb0",
              f"Azimuthal\t{m['azimuthal']}\t\xb0", f"Elevation\t{m['elevation']}\t\xb0", "\t\t"]
    sy, sx = c["sig"]
    other = c.get("other_sig", [sy + 1, sx + 2])
    acq, cal = ((sy, sx), other) if c["op"] == "map" else (other, (sy, sx))
    lines += ["[Acquisition settings]\t\t", "Frame rate\t202\tfps", f"Resolution\t{acq[1]}x{acq[0]}\tpx", "Gain\t0\t", "\t\t"]
    lines += ["[Calibration settings]\t\t", "Frame rate\t10\tfps", f"Resolution\t{cal[1]}x{cal[0]}\tpx", "Gain\t8\t", "\t\t"]
    ny, nx = c["file_map"]
    lines += ["[Area]\t\t", "Top\t20 (2.0)\t", "Left\t30 (3.0)\t", "Width\t3.0 (30)\t", "Height\t3.0 (30)\t",
              f"Step size\t{c['dx']}\t", f"Number of samples\t{ny}x{nx}\t#", "\t\t"]
    if c["op"] == "calibration":
        lines += ["[Calibration patterns]\t\t"] + [f"Calibration ({x},{y})\t\t" for y, x in c["positions"]] + ["\t\t"]
    with open(fn, "w", encoding="latin-1", newline="") as f:
        f.write("\r\n".join(lines) + "\r\n")


def write_nordif(c, d, pats):
    fn = os.path.join(d, "Pattern.dat")
    pats.tofile(fn)
    f = c["f"]
    kw = {}
    c["file_map"] = [f["ny"], f["nx"]]
    if f["opt"] in ("setting", "part"):
        setting_file(c, os.path.join(d, "Setting.txt"))
    else:
        kw["pattern_size"] = (c["sig"][1], c["sig"][0])
    if f["opt"] == "given":
        kw["scan_size"] = (f["nx"], f["ny"])
    elif f["opt"] == "int":
        kw["scan_size"] = f["ny"] * f["nx"]
    elif f["opt"] == "part":
        kw["scan_size"] = (f["nx"], f["ny"] - 1)
    if c["bg"]:
        import imageio.v3 as iio

        iio.imwrite(os.path.join(d, "Background acquisition pattern.bmp"), c["background"])
    return fn, kw


def write_edax_binary(c, d, pats):
    f = c["f"]
    fn = os.path.join(d, "p.up1" if c["dtype"] == "uint8" else "p.up2")
    opt, kw = f["opt"], {}
    sy, sx = c["sig"]
    version = 1 if opt in ("v1", "v1nav") else 2 if opt == "v2" else c["version"]
    with open(fn, "wb") as h:
        if version == 1:
            h.write(struct.pack("<4I", 1, sx, sy, 16 + c["gap"]) + b"\1" * c["gap"])
        else:
            off = 42 + c["gap"]
            h.write(struct.pack("<4I", version, sx, sy, off) + b"\1"
                    + struct.pack("<2IB2d", f["nx"], f["ny"], opt == "hex", c["dx"], c["dy"]) + b"\1" * c["gap"])
        h.write(pats.tobytes())
    if opt == "v1nav":
        kw["nav_shape"] = (f["ny"], f["nx"])
    elif opt == "v3nav":
        kw["nav_shape"] = (f["nx"], f["ny"])
    elif opt == "badnav":
        kw["nav_shape"] = (f["ny"] + 1, f["nx"])
    elif opt == "hex" and c["seed"] % 2:
        kw["nav_shape"] = (f["ny"], f["nx"])
    return fn, kw


def put(group, values):
    for k, v in values.items():
        if isinstance(v, bytes):
            v = np.array([v])
        group[k] = v


def scan_groups(c, h, names, key):
    """Names of the scan, possibly beside another one, and arguments to get it."""
    if not c["decoy"]:
        return [names[0]], {}, 0
    mine = c["seed"] % 2
    kw = {} if mine == 0 and c["seed"] % 3 else {"scan_group_names": names[mine] if c["seed"] % 5 else [names[mine]]}
    return names[:2], kw, mine


def chunked(c, group, name, data):
    if c["chunks"]:
        group.create_dataset(name, data=data, chunks=(1,) + data.shape[1:])
    else:
        group[name] = data


def write_h5(c, d, pats, manufacturer, version, names, fill):
    import h5py

    fn = os.path.join(d, "p.h5oina" if c["f"]["fmt"] == "oxford_h5" else "p.h5")
    with h5py.File(fn, "w") as h:
        put(h, {"Manufacturer" if c["seed"] % 2 else "manufacturer": manufacturer,
                version[0]: version[1]})
        groups, kw, mine = scan_groups(c, h, names, None)
        for i, g in enumerate(groups):
            p = pats if i == mine else np.flip(pats, axis=0) + 1
            fill(h.create_group(g), p)
    return fn, kw


def write_edax_h5(c, d, pats):
    f, m = c["f"], c["meta"]

    def fill(g, p):
        chunked(c, g.create_group("EBSD/Data"), "Pattern", p)
        hd = g.create_group("EBSD/Header")
        put(hd, {"Grid Type": b"HexGrid" if f["opt"] == "hex" else b"SqrGrid", "nRows": [f["ny"]], "nColumns": [f["nx"]],
                 "Pattern Height": [c["sig"][0]], "Pattern Width": [c["sig"][1]], "Step X": [c["dx"]], "Step Y": [c["dy"]],
                 "Working Distance": [m["wd"]], "Camera Elevation Angle": [m["elevation"]],
                 "Camera Azimuthal Angle": [m["azimuthal"]], "Sample Tilt": [m["sample_tilt"]]})
        put(hd.create_group("Pattern Center Calibration"), {"x-star": [c["pc"][0]], "y-star": [c["pc"][1]], "z-star": [c["pc"][2]]})
        put(g.create_group("SEM-PRIAS Images/Header"), {"Mag": [m["mag"]]})

    return write_h5(c, d, pats, b"EDAX", ("Version", b"OIM Analysis 8.0.1"), ["Scan 1", "Scan 2"], fill)


def write_bruker(c, d, pats):
    f, m = c["f"], c["meta"]
    order = np.array(f["order"])

    def fill(g, p):
        data = g.create_group("EBSD/Data")
        chunked(c, data, "RawPatterns", p)
        hd = g.create_group("EBSD/Header")
        big = f["opt"] == "roi"
        put(hd, {"Grid Type": b"hexagonal" if f["opt"] == "hex" else b"isometric",
                 "NROWS": f["ny"] + 2 * big, "NCOLS": f["nx"] + 3 * big, "PatternHeight": c["sig"][0], "PatternWidth": c["sig"][1],
                 "XSTEP": c["dx"], "YSTEP": c["dy"], "KV": m["kv"], "Magnification": m["mag"], "WD": m["wd"],
                 "CameraTilt": m["elevation"], "Sample Tilt": m["sample_tilt"],
                 "DetectorFullHeightMicrons": c["px"] * c["sig"][0], "UnClippedPatternHeight": c["sig"][0]})
        if c["bg"]:
            hd["StaticBackground"] = c["background"]
        if c["pcs"]:
            pc = c["pc_rows"]
            put(data, {"PCX": pc[:, 0], "PCY": pc[:, 1], "DD": pc[:, 2]})
        elif c["pc_scalar"]:
            put(data, {"PCX": [c["pc"][0]], "PCY": [c["pc"][1]], "DD": [c["pc"][2]]})
        if big:
            put(g.create_group("EBSD/SEM"), {"IY": order // f["nx"] + c["at"][0], "IX": order % f["nx"] + c["at"][1]})

    return write_h5(c, d, pats, b"Bruker Nano", ("Version", b"Esprit 2.X"), ["Scan 0", "Scan 1"], fill)


def write_oxford_h5(c, d, pats):
    f, m = c["f"], c["meta"]
    kw0 = {"processed": f["opt"] == "processed"} if f["opt"] != "processed" or c["seed"] % 2 else {}

    def fill(g, p):
        data = g.create_group("EBSD/Data")
        other = p + 1
        a, b = (p, other) if f["opt"] == "processed" else (other, p)
        chunked(c, data, "Processed Patterns", a)
        if f["opt"] == "unprocessed" or c["seed"] % 3:
            chunked(c, data, "Unprocessed Patterns", b)
        if c["pcs"]:
            pc = c["pc_rows"]
            put(data, {"Pattern Center X": pc[:, 0], "Pattern Center Y": pc[:, 1], "Detector Distance": pc[:, 2]})
        hd = g.create_group("EBSD/Header")
        put(hd, {"Y Cells": [f["ny"]], "X Cells": [f["nx"]], "Pattern Height": [c["sig"][0]], "Pattern Width": [c["sig"][1]],
                 "Y Step": [c["dy"]], "X Step": [c["dx"]], "Beam Voltage": [m["kv"]], "Magnification": [m["mag"]],
                 "Working Distance": [m["wd"]], "Tilt Angle": [np.deg2rad(m["sample_tilt"])],
                 "Detector Orientation Euler": np.deg2rad([0.0, 90 + m["elevation"], 0]),
                 "Camera Mode": c["mode"].encode()})
        if c["bg"]:
            hd["Processed Static Background"] = c["background"]

    fn, kw = write_h5(c, d, pats, b"Oxford Instruments", ("Format Version", b"7.0"), ["1", "2"], fill)
    return fn, dict(kw, **kw0)


def write_oxford_binary(c, d, pats):
    f = c["f"]
    ver = int(f["opt"][1:])
    if ver == 5:
        ver = c["version5"]
    n, (sy, sx) = f["ny"] * f["nx"], c["sig"]
    off = 0 if ver == 0 else 9 if ver > 3 else 8
    hs, fs = 16 + 8 * (ver > 4), 0 if ver == 0 else 16 if ver == 1 else 18
    nb = sy * sx * pats.dtype.itemsize
    starts = np.zeros(n, np.int64)
    for k, p in enumerate(f["order"]):
        starts[p] = off + 8 * n + k * (hs + nb + fs)
    fn = os.path.join(d, "p.ebsp")
    with open(fn, "wb") as h:
        if ver:
            h.write(struct.pack("<q", -ver))
        if ver > 3:
            h.write(b"\0")
        h.write(starts.tobytes())
        for k, p in enumerate(f["order"]):
            y, x = divmod(p, f["nx"])
            if ver > 4:
                h.write(struct.pack("<2i", x, y))
            h.write(struct.pack("<4i", 0, sy, sx, nb) + pats[k].tobytes())
            pos = [(x + c["at"][1]) * c["dx"], (y + c["at"][0]) * c["dx"]]
            if ver == 1:
                h.write(struct.pack("<2d", *pos))
            elif ver > 1:
                h.write(struct.pack("<?d?d", True, pos[0], True, pos[1]))
    return fn, {}


def h5_tree(h, tree):
    for k, v in tree.items():
        if isinstance(v, dict):
            h5_tree(h.require_group(k), v)
        else:
            h[k] = np.array([v]) if isinstance(v, (bytes, int, float)) else v


CRYSTAL = {
    "AtomData": np.array([[0.1587, 0], [0.6587, 0], [0, 0.25], [1, 0.5], [0.005, 0.005]], dtype=np.float32),
    "Atomtypes": np.array([13, 29], dtype=np.int32), "CrystalSystem": 2,
    "LatticeParameters": np.array([0.5949, 0.5949, 0.5821, 90, 90, 90]), "Natomtypes": 2,
    "SpaceGroupNumber": 140, "SpaceGroupSetting": 1}


def write_emsoft(c, d, pats):
    import h5py

    f, m = c["f"], c["meta"]
    n, (sy, sx) = len(pats), c["sig"]
    fn = os.path.join(d, "p.h5")
    with h5py.File(fn, "w") as h:
        h5_tree(h, {
            "CrystalData": CRYSTAL,
            "EMData": {"EBSD": {"EulerAngles": c["eulers"], "numangles": n, "xtalname": b"al2cu/al2cu.xtal"}},
            "NMLparameters": {"EBSDNameList": {
                "L": c["emsoft_pc"][2], "binning": c["binning"], "delta": c["px"], "energymax": m["kv"], "numsx": sx,
                "numsy": sy, "thetac": m["elevation"], "xpc": c["emsoft_pc"][0], "ypc": c["emsoft_pc"][1]}},
            "EMheader": {"EBSD": {"ProgramName": b"EMEBSD.f90", "Version": b"5_0"}}})
        chunked(c, h["EMData/EBSD"], "EBSDPatterns", pats)
    kw = {}
    if f["opt"] == "tuple":
        kw["scan_size"] = (f["ny"], f["nx"])
    elif f["opt"] == "int":
        kw["scan_size"] = n
    return fn, kw


def write_directory(c, d, pats):
    import imageio.v3 as iio

    f = c["f"]
    ext = c["image"]
    y0, x0 = c["at"]
    names = []
    for k, p in enumerate(f["order"]):
        y, x = divmod(p, f["nx"])
        y, x = y0 + c["gaps"][0] * y, x0 + c["gaps"][1] * x
        names.append({"xy": f"scan_x{x}y{y}.{ext}", "dash": f"scan-{x}-{y}.{ext}",
                      "custom": f"p{x}a{y:03}.{ext}", "none": f"p_{c['numbers'][k]}.{ext}"}[f["opt"]])
        iio.imwrite(os.path.join(d, names[-1]), pats[k])
    kw = {"xy_pattern": r"p(\d+)a(\d+)." + ext} if f["opt"] == "custom" else {}
    if c["seed"] % 2:
        kw["show_progressbar"] = False
    c["byname"] = [i + 1 for i in sorted(range(len(names)), key=lambda i: names[i])]
    return os.path.join(d, f"*.{ext}"), kw


WRITERS = dict(nordif=write_nordif, edax_binary=write_edax_binary, edax_h5=write_edax_h5, bruker=write_bruker,
               oxford_h5=write_oxford_h5, oxford_binary=write_oxford_binary, emsoft=write_emsoft,
               directory=write_directory)


def compare(name, want, got):
    if isinstance(want, str):
        return [name, want, str(got)]
    if got is None or np.ndim(got) != 0:
        return [name, "number", "none"]
    return [name, str(q(want, ONE)), str(q(got, ONE))]


def recorded(c, s, pats):
    """What else is written in the file, and what became of it."""
    f, m, det = c["f"], c["meta"], s.detector
    sem = "Acquisition_instrument.SEM."
    out = [["dtype", pats.dtype.name, s.data.dtype.name], ["sy", str(c["sig"][0]), str(s.data.shape[-2])],
           ["sx", str(c["sig"][1]), str(s.data.shape[-1])]]

    def md(key, want):
        out.append(compare(key, want, s.metadata.get_item(sem + key)))

    def de(key, want):
        out.append(compare(key, want, getattr(det, key)))

    fmt = f["fmt"]
    if fmt == "nordif" and f["opt"] in ("setting", "part"):
        md("beam_energy", m["kv"]), md("magnification", m["mag"]), md("working_distance", m["wd"])
        md("microscope", "Hitachi " + m["model"])
        de("tilt", -m["elevation"]), de("azimuthal", m["azimuthal"]), de("sample_tilt", m["sample_tilt"])
    elif fmt == "edax_h5":
        md("magnification", m["mag"]), md("working_distance", m["wd"])
        de("tilt", m["elevation"]), de("azimuthal", m["azimuthal"]), de("sample_tilt", m["sample_tilt"])
        for i, v in enumerate(det.pc_tsl().ravel()):
            out.append(compare(f"pc{i}", c["pc"][i], v))
    elif fmt == "bruker":
        md("beam_energy", m["kv"]), md("magnification", m["mag"]), md("working_distance", m["wd"])
        de("tilt", m["elevation"]), de("sample_tilt", m["sample_tilt"]), de("px_size", c["px"])
        if not c["pcs"]:
            for i, v in enumerate(det.pc_bruker().ravel()):
                out.append(compare(f"pc{i}", c["pc"][i] if c["pc_scalar"] else 0.5, v))
    elif fmt == "oxford_h5":
        md("beam_energy", m["kv"]), md("magnification", m["mag"]), md("working_distance", m["wd"])
        de("tilt", m["elevation"]), de("sample_tilt", m["sample_tilt"]), de("binning", c["mode_binning"])
    elif fmt == "emsoft":
        md("beam_energy", m["kv"])
        de("tilt", m["elevation"]), de("px_size", c["px"]), de("binning", c["binning"])
        for i, v in enumerate(det.pc_emsoft().ravel()):
            out.append(compare(f"pc{i}", c["emsoft_pc"][i], v))
        ph = s.xmap.phases[0]
        out += [["name", "al2cu", ph.name], ["space group", "140", str(ph.space_group.number)],
                compare("a", 0.5949, ph.structure.lattice.a), compare("c", 0.5821, ph.structure.lattice.c),
                ["atoms", "2", str(len(ph.structure))], compare("occupancy", 0.5, ph.structure[1].occupancy)]
    if fmt in ("nordif", "bruker", "oxford_h5") and c["bg"]:
        same = s.static_background is not None and np.array_equal(s.static_background, c["background"])
        out.append(["static background", "same", "same" if same else "other"])
    if fmt in ("bruker", "emsoft"):
        for a in s.axes_manager.signal_axes:
            out.append(compare("scale " + a.name, c["px"], a.scale))
    if fmt in ("edax_h5", "bruker", "oxford_h5", "emsoft"):
        out.append(["shape", str(tuple(c["sig"])), str(tuple(int(i) for i in det.shape))])
    return out


def observe_map(kp, c, d):
    f = c["f"]
    n = len(f["order"])
    rng = np.random.default_rng(c["seed"])
    pats = stored_patterns(c, rng, n)
    c["background"] = rng.integers(1, 200, c["sig"]).astype(pats.dtype)
    c["pc_rows"] = np.stack([0.1 + 0.01 * np.arange(n), 0.9 - 0.02 * np.arange(n), 0.5 + 0.003 * np.arange(n)], axis=1)
    c["eulers"] = rng.random((n, 3)) * 3
    fn, kw = WRITERS[f["fmt"]](c, d, pats)
    out = []
    modes = [False, True]
    total = f["ny"] * f["nx"]
    for lazy in modes:
        if lazy and f["fmt"] == "nordif" and n < total:
            continue
        r = dict(op="map", f=f, key=f"{f['fmt']} {f['opt']}", lazy=lazy, byname=c.get("byname", []), raised=False,
                 dy=q(c["dy"], ONE), dx=q(c["dx"], ONE), one=ONE)
        out.append(r)
        try:
            s = kp.load(fn, lazy=lazy, **kw)
        except (OSError, ValueError):
            r["raised"] = True
            continue
        r["is_lazy"] = s._lazy and isinstance(s, kp.signals.LazyEBSD)
        if s._lazy:
            s.compute(show_progressbar=False)
        r["grid"] = decode(s.data.reshape((-1,) + s.data.shape[-2:]), pats)
        nav = s.axes_manager._axes[: s.data.ndim - 2]
        r["shape"] = [int(i) for i in s.data.shape[:-2]]
        assert [a.size for a in nav] == r["shape"]
        r["names"], r["scales"] = [a.name for a in nav], [q(a.scale, ONE) for a in nav]
        r["pcs"] = bool(c["pcs"]) and f["fmt"] in ("bruker", "oxford_h5")
        if r["pcs"]:
            pc = s.detector.pc if f["fmt"] == "bruker" else s.detector.pc_oxford()
            r["pcgrid"] = decode_rows(np.asarray(pc).reshape(-1, 3), c["pc_rows"])
            r["pcshape"] = [int(i) for i in s.detector.navigation_shape]
        r["has_rots"] = f["fmt"] == "emsoft"
        if r["has_rots"]:
            from orix.quaternion import Rotation

            a = np.abs(np.asarray(s.xmap.rotations.data) @ Rotation.from_euler(c["eulers"]).data.T)
            r["rots"] = [int(np.argmax(x)) + 1 if x.max() > 1 - 1e-6 else -1 for x in a]
        r["has_points"] = f["fmt"] == "oxford_binary"
        if r["has_points"]:
            om = s.original_metadata
            pts = [int(i) for i in om.map1d_id]
            if om.has_item("beam_x"):
                y = np.rint(om.beam_y / c["dx"] - c["at"][0]).astype(int)
                x = np.rint(om.beam_x / c["dx"] - c["at"][1]).astype(int)
                beams = (y * f["nx"] + x).tolist()
                pts = [p if p == b else -1 for p, b in zip(pts, beams)]
            if om.has_item("map_x"):
                maps = (om.map_y * f["nx"] + om.map_x).tolist()
                pts = [p if p == b else -2 for p, b in zip(pts, maps)]
            r["points"] = pts
        r["has_xmap"] = f["fmt"] in ("nordif", "edax_h5", "bruker", "oxford_h5")
        if r["has_xmap"]:
            step = {"nordif": (c["dx"], c["dx"])}.get(f["fmt"], (c["dy"], c["dx"]))
            if f["fmt"] == "nordif" and f["opt"] in ("given", "int"):
                step = (1, 1)
            xy = []
            for a, st in ((s.xmap.y, step[0]), (s.xmap.x, step[1])):
                xy.append(np.zeros(s.xmap.size) if a is None else np.asarray(a) / st)
            xy = np.stack(xy, axis=1)
            r["xmap"] = [[int(round(v)) if abs(v - round(v)) < 1e-6 else -1 for v in p] for p in xy]
        r["meta"] = recorded(c, s, pats)
    return out


def observe_calibration(kp, c, d):
    import imageio.v3 as iio

    rng = np.random.default_rng(c["seed"])
    pats = stored_patterns(c, rng, len(c["positions"]))
    setting_file(c, os.path.join(d, "Setting.txt"))
    for (y, x), p in zip(c["positions"], pats):
        iio.imwrite(os.path.join(d, f"Calibration ({x},{y}).bmp"), p)
    bg = rng.integers(1, 200, c["sig"]).astype("uint8")
    iio.imwrite(os.path.join(d, "Background calibration pattern.bmp"), bg)
    s = kp.load(os.path.join(d, "Setting.txt"))
    m, det = c["meta"], s.detector
    points = [[int(i) for i in p] for p in s.original_metadata.calibration_patterns.indices]
    return [dict(op="calibration", key="nordif calibration", n=len(pats), recorded=c["positions"], points=points,
                 grid=decode(s.data, pats), shape=[int(i) for i in s.data.shape[:-2]],
                 names=[a.name for a in s.axes_manager._axes[:-2]],
                 meta=[compare("tilt", -m["elevation"], det.tilt), compare("azimuthal", m["azimuthal"], det.azimuthal),
                       compare("sample tilt", m["sample_tilt"], det.sample_tilt),
                       ["shape", str(tuple(c["sig"])), str(tuple(det.shape))],
                       ["background", "True", str(np.array_equal(s.static_background, bg))],
                       compare("kv", m["kv"], s.metadata.Acquisition_instrument.SEM.beam_energy)])]


def observe_master(kp, c, d):
    import h5py

    m = c["m"]
    kind, npx, n = c["kind"], c["npx"], m["n"]
    side = 2 * npx + 1
    rng = np.random.default_rng(c["seed"])
    atoms = c["atoms"] if kind != "ECP" else 1
    lp = rng.integers(1, 9, (2, atoms, n, side, side)).astype("float32")
    sp = rng.integers(1, 9, (2, n, side, side)).astype("float32")
    fn = os.path.join(d, "m.h5")
    e0, de = m["e0"] / 10, m["de"] / 10
    energies = np.array([(m["e0"] + k * m["de"]) / 10 for k in range(n)], dtype="float32")
    with h5py.File(fn, "w") as h:
        group = {"EkeV" if kind == "ECP" else "EkeVs": energies, "numset": atoms}
        mc = "MCCLfoil" if kind == "TKD" else "MCCL"
        h5_tree(h, {"CrystalData": CRYSTAL, f"EMData/{kind}master": group,
                    "NMLparameters": {f"{kind}MasterNameList": {"npx": npx},
                                      f"{mc}NameList": {"Ebinsize": de, "Ehistmin": e0, "EkeV": float(energies[-1])}},
                    f"EMheader/{kind}master": {"ProgramName": f"EM{kind}master{c['opencl']}.f90".encode()}})
        g = h[f"EMData/{kind}master"]
        for i, nm in enumerate(("NH", "SH")):
            chunked(c, g, "mLP" + nm, lp[i] if kind != "ECP" else lp[i, 0])
            chunked(c, g, "masterSP" + nm, sp[i])
    kw = dict(projection=m["proj"], hemisphere=m["hemi"])
    if m["proj"] == "stereographic" and c["seed"] % 2:
        kw.pop("projection")
    if m["ask"] == "range":
        kw["energy"] = (m["lo"] / 10, m["hi"] / 10)
    elif m["ask"] == "one":
        kw["energy"] = m["lo"] / 10
    out = []
    for lazy in (False, True):
        r = dict(op="master", m=m, key=f"emsoft {kind} master pattern", lazy=lazy)
        out.append(r)
        s = kp.load(fn, lazy=lazy, **kw)
        r["is_lazy"] = s._lazy
        if s._lazy:
            s.compute(show_progressbar=False)
        r["images"], r["flipped"] = [], []
        for im in s.data.reshape((-1, side, side)):
            hit = [-1, -1, False]
            for i in (0, 1):
                for k in range(n):
                    want = sp[i, k] if m["proj"] == "stereographic" else lp[i, :, k].sum(axis=0)
                    for flip in (False, True):
                        if np.array_equal(im, want[::-1] if flip else want):
                            hit = [i + 1, k + 1, flip]
            r["images"].append(hit[:2]), r["flipped"].append(hit[2])
        r["axes"] = [dict(name=a.name, size=a.size, scale=q(a.scale, 10) if a.name == "energy" else q(a.scale),
                          offset=q(a.offset, 10) if a.name == "energy" else q(a.offset))
                     for a in s.axes_manager._axes[:-2]]
        sig = s.axes_manager.signal_axes
        want = "ECPMasterPattern" if kind == "ECP" else "EBSDMasterPattern"
        r["meta"] = [["type", want, s._signal_type], ["projection", m["proj"], s.projection], ["hemisphere", m["hemi"], s.hemisphere],
                     ["space group", "140", str(s.phase.space_group.number)], ["dtype", "float32", s.data.dtype.name],
                     compare("a", 0.5949, s.phase.structure.lattice.a)]
        r["meta"] += [["centre " + a.name, str(-side // 2), str(int(a.offset))] for a in sig]
    return out


def observe(c):
    kp = kikuchipy()
    d = tempfile.mkdtemp(prefix="c11_")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return {"map": observe_map, "calibration": observe_calibration, "master": observe_master}[c["op"]](kp, c, d)
    finally:
        shutil.rmtree(d)


MODES = [("8x8 (168x128 px)", 8), ("2x2 (622x512 px)", 2), ("Speed 3 (156x88 px)", 8), ("Resolution (1244x1024 px)", 1)]


def run(ctx):
    preload("kikuchipy.signals", "kikuchipy.io._io", "h5py", "imageio.v3", "orix.crystal_map")
    rng = ctx.rng
    files = ctx.mc("MCReaders", "SPECIFICATION MCSpec\nCONSTANTS Shapes <- %s\n"
                   "INVARIANTS AtOnePoint NoneLost InRowsAndColumns\nCHECK_DEADLOCK FALSE\n" % ctx.n("Small", "Large"),
                   workers=4, expect_cases=5000)
    cases = []

    def meta():
        return dict(model=rng.choice(["SU-6600", "X 1"]), mag=rng.choice([200, 1500]), kv=rng.choice([20.0, 12.5]),
                    wd=rng.choice([24.7, 10.0]), sample_tilt=rng.choice([70.0, 69.5]), azimuthal=rng.choice([0.0, 1.5]),
                    elevation=rng.choice([0.0, 2.5, -3.0]))

    def common(**kw):
        return dict(seed=rng.randrange(10**6), meta=meta(), sig=[rng.randint(2, 5), rng.randint(2, 6)],
                    dy=rng.choice([1.0, 1.5, 0.25, 2.0]), dx=rng.choice([1.0, 1.5, 0.75, 3.0]), chunks=rng.random() < 0.5,
                    px=rng.choice([1.0, 70.0, 2.5]), **kw)

    def add(f):
        c = common(op="map", f=f)
        fmt, n = f["fmt"], len(f["order"])
        c["dtype"] = "uint8" if fmt == "nordif" else rng.choice(["uint8", "uint16"])
        if fmt == "oxford_binary":
            c["sig"] = rng.choice([[40, 40], [42, 39], [35, 60]])
        if fmt == "directory":
            c["image"] = rng.choice(["bmp", "png", "tif"])
            if c["image"] == "bmp":
                c["dtype"] = "uint8"
        full = n == f["ny"] * f["nx"]
        c.update(
            gap=rng.choice([0, 0, 5]), version=rng.choice([3, 4]), version5=rng.choice([5, 6]), decoy=rng.random() < 0.3,
            bg=rng.random() < 0.5, pcs=(full or f["opt"] == "roi") and rng.random() < 0.6, pc_scalar=rng.random() < 0.5,
            pc=[0.42, 0.21, 0.5625], at=[rng.choice([0, 1, 3]), rng.choice([0, 2])], mode=None, binning=rng.choice([1, 2]),
            emsoft_pc=[4.86, -16.5, 15000.0], gaps=[rng.choice([1, 3]), rng.choice([1, 7])],
            numbers=rng.sample(range(1, 30), n))
        c["mode"], c["mode_binning"] = rng.choice(MODES)
        cases.append(c)

    groups = {}
    for f in files:
        groups.setdefault((f["fmt"], f["opt"]), []).append(f)
    for key, fs in sorted(groups.items()):
        scattered = [f for f in fs if f["order"] != sorted(f["order"])]
        k = ctx.n(6, 160)
        if scattered:
            k *= 3
        big = [f for f in fs if f["ny"] > 1 and f["nx"] > 1]
        for f in (fs if len(fs) <= k else rng.sample(fs, k // 2) + rng.sample(big, min(len(big), k - k // 2))):
            add(f)
    # Larger maps
    for key in sorted(groups):
        if key[1] in ("badnav", "v2") or key[1] == "hex" and key[0] != "edax_binary":
            continue
        for _ in range(ctx.n(1, 8)):
            ny, nx = rng.choice([[2, 7], [5, 3], [4, 4], [1, 9], [8, 1]])
            order = list(range(ny * nx))
            f = dict(fmt=key[0], opt=key[1], ny=ny, nx=nx, order=order)
            if key[1] == "part" and ny == 1:
                continue
            if key[0] == "oxford_binary":
                # Within rows
                order = []
                for y in range(ny):
                    row = list(range(y * nx, y * nx + nx))
                    rng.shuffle(row)
                    order += row
                if rng.random() < 0.5:
                    order = [p for p in order if rng.random() < 0.6] or [0]
                f["order"] = order
            elif key[0] == "directory" or key[1] == "roi":
                rng.shuffle(order)
            add(f)
    for _ in range(ctx.n(8, 60)):
        n = rng.randint(1, 5)
        pos = [[rng.randint(0, 900), rng.randint(0, 900)] for _ in range(n)]
        cases.append(common(op="calibration", positions=pos, dtype="uint8", file_map=[3, 4]))
    for _ in range(ctx.n(40, 500)):
        n, e0, de = rng.randint(1, 5), rng.choice([50, 100, 185]), rng.choice([5, 10, 20])
        lo, hi = 1, 0
        while not any(lo <= e0 + k * de <= hi for k in range(n)):
            lo = e0 + rng.randint(-1, n) * de + rng.choice([0, 0, 1, -2])
            hi = lo + rng.randint(0, n) * de + rng.choice([0, 1])
        m = dict(n=n, e0=e0, de=de, lo=lo, hi=hi, ask=rng.choice(["all", "range", "range", "one"]),
                 hemi=rng.choice(["upper", "lower", "both"]), proj=rng.choice(["stereographic", "lambert"]))
        cases.append(common(op="master", m=m, kind=rng.choice(["EBSD", "EBSD", "TKD", "ECP"]), npx=rng.randint(1, 3),
                            atoms=rng.randint(1, 3), opencl=rng.choice(["", "OpenCL"])))
    rng.shuffle(cases)
    traces = ctx.observe(observe, cases)
    ctx.judge("TraceReaders", cases, traces)
    ctx.sample(*cases[::60])
    ctx.assumptions += [
        "Files are written by the harness as kikuchipy's readers describe the formats; no vendor's files are read",
        "Oxford binary files have patterns of at least 1 365 pixels"]
