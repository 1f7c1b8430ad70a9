"""Contents of objects, part by part, and changes of one part in place."""
import hashlib
import json

import numpy as np

from harness import catalog


def h(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:12]


def kind(o):
    n = type(o).__name__
    if isinstance(o, np.ndarray):
        return "array"
    if "CrystalMap" == n:
        return "map"
    if "EBSDDetector" == n:
        return "detector"
    if "Window" == n:
        return "window"
    if hasattr(o, "axes_manager"):
        return "signal"
    if n in ("Rotation", "Orientation", "Misorientation", "Symmetry", "Quaternion"):
        return "rotation"
    if n == "PhaseList":
        return "phases"
    if n == "GeometricalKikuchiPatternSimulation":
        return "simulation"
    if n == "EBSDIndexer":
        return "indexer"
    if isinstance(o, (dict, list, tuple)):
        return "plain"
    return "other"


def phase(p):
    st = p.structure
    return (p.name, p.color, p.space_group.number if p.space_group else None,
            p.point_group.name if p.point_group else None,
            tuple(np.round(st.lattice.abcABG(), 9)), [str(a) for a in st])


def phases(pl):
    return [(int(i), phase(p)) for i, p in pl]


def parts(o):
    """Digest of each part of the object."""
    k = kind(o)
    d = catalog.digest
    if k == "array":
        return dict(data=d(o))
    if k == "window":
        return dict(data=d(o.data), axes=catalog.axes(o), metadata=h(catalog.metadata(o)),
                    what=h(o.name, o.shape, o.is_valid))
    if k == "rotation":
        return dict(data=d(o.data))
    if k == "phases":
        return dict(phases=h(phases(o)))
    if k == "plain":
        return dict(content=h(json.dumps(o, default=lambda x: catalog.digest(x)
                                         if isinstance(x, np.ndarray) else str(type(x)))))
    if k == "detector":
        return dict(pc=d(o.pc), shape=h(o.shape, o.navigation_shape),
                    geometry=h(float(o.sample_tilt), float(o.tilt), float(o.azimuthal),
                               float(o.twist), float(o.binning), float(o.px_size)))
    if k == "map":
        return dict(rotations=d(o._rotations.data), prop=h([(n, d(v)) for n, v in sorted(dict.items(o._prop))]),
                    ids=d(o._phase_id, o.is_in_data), phases=h(phases(o.phases)),
                    points=h(o.shape, None if o.x is None else d(o._x), None if o.y is None else d(o._y),
                             o.scan_unit))
    if k == "simulation":
        pr = o.reflectors
        return dict(rotations=d(o.rotations.data), detector=h(parts(o.detector)),
                    reflectors=h(d(pr.data), phase(pr.phase)),
                    lines=d(*[np.asarray(o.lines_coordinates(index=i, exclude_nan=False)) for i in np.ndindex(o.rotations.shape)]))
    if k == "indexer":
        return dict(content=h(np.array(o.PC).tolist(), o.vendor, [p.phasename for p in o.phaselist],
                              o.sampleTilt, o.camElev))
    if k == "signal":
        out = dict(data=h(d(o.data), str(o.data.dtype)), axes=catalog.axes(o),
                   metadata=h(catalog.metadata(o)), what=h(type(o).__name__))
        if hasattr(o, "detector"):
            out.update({"det_" + a: b for a, b in parts(o.detector).items()})
            if o.xmap is not None:
                out.update({"map_" + a: b for a, b in parts(o.xmap).items()})
            out["bg"] = catalog.background(o)
        if hasattr(o, "phase"):
            out.update(phase=h(phase(o.phase)), proj=h(o.projection, o.hemisphere))
        return out
    return dict(content=h(str(type(o))))


def bump(a):
    """Change every value of a writeable array in place."""
    if not isinstance(a, np.ndarray) or a.size == 0 or not a.flags.writeable:
        return False
    if a.dtype == bool:
        a[...] = ~a
    elif a.dtype.kind in "iuf":
        a[...] = np.where(a > 3, a - 1, a + 2).astype(a.dtype)
    else:
        return False
    return True


def touch(o, i, phases=True):
    """Change the part of index i (modulo the number of parts) of the object in place
    and return the part's name, or None."""
    k = kind(o)
    if k in ("other", "indexer"):
        return None
    ps = sorted(parts(o))
    p = ps[i % len(ps)]
    if not phases and p in ("phase", "phases", "map_phases"):
        return None  # Phases of different arguments must agree
    return p if touch_part(o, p) else None


def touch_part(o, p):
    k = kind(o)
    if k == "array":
        return bump(o)
    if k == "window":
        return p == "data" and bump(o.data)
    if k == "rotation":
        return bump(o.data)
    if k == "phases":
        o[o.ids[0]].name += "x"
        return True
    if k == "detector":
        if p == "pc":
            return bump(o.pc)
        if p == "geometry":
            o.tilt = o.tilt + 1.0
            return True
        return False
    if k == "map":
        if p == "rotations":
            return bump(o._rotations.data)
        if p == "prop":
            for n, v in dict.items(o._prop):
                bump(v)
            return bool(dict(o._prop))
        if p == "ids":
            o._phase_id[...] = 1 - o._phase_id
            return True
        if p == "phases":
            o.phases[o.phases.ids[-1]].name += "x"
            return True
        if p == "points":
            o.scan_unit = "nm" if o.scan_unit != "nm" else "px"
            return True
        return False
    if k == "simulation":
        return p == "detector" and bump(o.detector.pc)
    if k == "plain":
        if isinstance(o, dict):
            o["touched"] = o.get("touched", 0) + 1
            return True
        if isinstance(o, list):
            o.append(1)
            return True
        return False
    if k == "signal":
        if p == "data":
            return bump(o.data)
        if p == "axes":
            o.axes_manager._axes[0].scale += 1
            return True
        if p == "metadata":
            n = o.metadata.get_item("touched", 0)
            o.metadata.set_item("touched", n + 1)
            o.metadata.set_item("Sample.note", f"t{n}")
            o.original_metadata.set_item("a.b", n)
            return True
        if p == "bg":
            return bump(o.static_background) if o.static_background is not None else False
        if p.startswith("det_"):
            return touch_part(o.detector, p[4:])
        if p.startswith("map_"):
            return touch_part(o.xmap, p[4:])
        if p == "phase":
            o.phase.name += "x"
            return True
    return False
