"""C29: saving to and loading from files."""
import builtins
import contextlib
import io
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np

from harness.kp import kikuchipy, preload


@contextlib.contextmanager
def answers(a):
    asked = []

    def ask(prompt=""):
        asked.append(str(prompt))
        if a == "eof":
            raise OSError("no terminal")
        return a

    real, builtins.input = builtins.input, ask
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield asked
    finally:
        builtins.input = real


def data(nav, sig, v):
    n = int(np.prod(nav + sig))
    return (np.arange(n) % 90 + v).astype(np.uint8).reshape(nav + sig)


def content(a, nav, sig):
    """The value of an array, or -1."""
    a = np.asarray(a)
    if a.shape != nav + sig or a.dtype != np.uint8:
        return -1
    v = int(a.ravel()[0])
    return v if np.array_equal(a, data(nav, sig, v)) else -1


def read(kp, f, nav, sig, lazy=False):
    ext = f.suffix[1:].lower()
    if ext == "dat":
        size = {0: 1, 1: nav[0] if nav else 1, 2: nav[::-1]}[len(nav)]
        return kp.load(f, lazy=lazy, scan_size=size, pattern_size=sig[::-1])
    if ext in ("hspy", "zspy"):
        import hyperspy.api as hs

        return hs.load(f, signal_type="EBSD")
    return kp.load(f, lazy=lazy)


def listing(d):
    out = []
    for p in sorted(d.iterdir()):
        if p.name != "mine.txt":
            stem, ext = os.path.splitext(p.name)
            out.append((stem, ext[1:], p))
    return out


def do_history(kp, c):
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    root = Path(tempfile.mkdtemp(prefix="c29_"))
    d = root / "sub"
    try:
        where = d if c["sub"] else root
        if not c["sub"]:
            (root / "mine.txt").write_text("mine")
        s = kp.signals.EBSD(data(nav, sig, 1))
        if c["lazy"]:
            s = s.as_lazy()
        out, stale, source = [], False, None
        os.chdir(root)
        start = dict(do="start", base="", ext="", option="", overwrite="", answer="", lazy=False)
        for e in [start] + c["hist"]:
            e = dict(e)
            err, asked = "", []
            had = {str(p) for _, _, p in listing(where)} if where.exists() else set()
            if e["do"] == "load":
                have = listing(where) if where.exists() else []
                if "index" in e:
                    if not have:
                        continue
                    e["base"], e["ext"] = have[e["index"] % len(have)][:2]
                    e["lazy"] = e["lazy"] and e["ext"].lower() == "dat"
                f = where / (e["base"] + "." + e["ext"])
                try:
                    s = read(kp, f, nav, sig, e["lazy"])
                except Exception as x:
                    err = type(x).__name__
                source, stale = (f if e["lazy"] else None), False
            elif e["do"] == "change":
                if stale:
                    continue
                s.data = s.data + np.uint8(1)
                s.events.data_changed.trigger(obj=s)
            elif e["do"] == "save":
                if stale:
                    continue
                kw = {}
                if e["overwrite"] != "ask":
                    kw["overwrite"] = e["overwrite"] == "yes"
                if e["option"]:
                    kw["extension"] = e["option"]
                args = []
                if e["base"]:
                    name = e["base"] + ("." + e["ext"] if e["ext"] else "")
                    if c["sub"]:
                        name = f"sub/{name}"
                    args = [[name, Path(name), str(root / name)][len(out) % 3]]
                before = {str(p): p.stat().st_mtime_ns for _, _, p in listing(where)} if where.exists() else {}
                with answers(e["answer"]) as asked:
                    try:
                        s.save(*args, **kw)
                    except Exception as x:
                        err = type(x).__name__
                if source is not None and (not source.exists() or
                                           source.stat().st_mtime_ns != before.get(str(source))):
                    stale = True
            rec = dict(op="event", err=err, prompts=len(asked), shape0=list(nav + sig))
            rec.update({k: e[k] for k in ("do", "base", "ext", "option", "overwrite", "answer", "lazy")})
            disk = []
            for stem, ext, p in listing(where) if where.exists() else []:
                try:
                    v = content(read(kp, p, nav, sig).data, nav, sig)
                except Exception:
                    v = -1
                disk.append([stem, ext, v])
            rec["disk"] = disk
            t = s.tmp_parameters
            rec["tmp"] = ["", ""]
            if t.has_item("filename"):
                rec["tmp"] = [t.filename, t.get_item("extension", "").lstrip(".")]
                if Path(str(t.folder)).resolve() != where.resolve():
                    rec["tmp"][0] = f"{t.folder}/{t.filename}"
            rec["value"] = -2 if stale else content(s.data, nav, sig)
            rec["shape"] = list(s.data.shape)
            rec["others"] = c["sub"] or (root / "mine.txt").read_text() == "mine"
            rec["key"] = dict(nav=c["nav"], event=[e["do"], e["base"], e["ext"], e["option"], e["overwrite"], e["answer"]],
                              at=len(out))
            out.append(rec)
        return out
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def do_process(kp, c):
    """Save between operations on the patterns."""
    rng = np.random.default_rng(c["seed"])
    nav, sig = tuple(c["nav"]), tuple(c["sig"])
    d = Path(tempfile.mkdtemp(prefix="c29_"))
    out = []
    try:
        s = kp.signals.EBSD(rng.integers(0, 200, nav + sig).astype(np.uint8))
        s.static_background = rng.integers(1, 200, sig).astype(np.uint8)
        if c["lazy"]:
            s = s.as_lazy()
            s.data = s.data.rechunk(c["chunks"][: len(nav)] + [-1, -1])
        kw = dict(show_progressbar=False)
        w = kp.filters.Window("gaussian", shape=(3, 3), std=1)
        for k, o in enumerate(["none"] + c["ops"]):
            if o == "rescale":
                s.rescale_intensity(percentiles=(2, 95), **kw)
            elif o == "normalize":
                s.normalize_intensity(num_std=2, dtype_out="uint8", **kw)
            elif o == "static":
                s.remove_static_background("subtract", **kw)
            elif o == "dynamic":
                s.remove_dynamic_background("divide", "spatial", std=2, **kw)
            elif o == "fft":
                s.fft_filter(w, "spatial", **kw)
            elif o == "average" and len(nav) == 2:
                s.average_neighbour_patterns(**kw)
            elif o == "adaptive":
                s.adaptive_histogram_equalization(**kw)
            elif o == "crop" and len(nav) == 2 and s.data.shape[1] > 1:
                s = s.inav[1:] if k % 2 else s.inav[:-1]
            elif o == "copy":
                s = s.deepcopy()
            f = d / ("p.dat" if c["same"] else f"p{k}.dat")
            s.save(f, overwrite=True)
            b = np.fromfile(f, np.uint8)
            now = np.asarray(s.data)
            out.append(dict(op="process", did=o, lazy=c["lazy"], size=int(b.size), want=int(now.size),
                            equal=bool(b.size == now.size and np.array_equal(b, now.ravel())),
                            left=[p.name for p in sorted(d.iterdir()) if not p.name.endswith(".dat")],
                            key=dict(ops=c["ops"][: k], lazy=c["lazy"], nav=c["nav"])))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def do_load(kp, c):
    root = Path(tempfile.mkdtemp(prefix="c29_"))
    src = Path(kp.data.__file__).parent
    try:
        usual = {"kikuchipy": "kikuchipy_h5ebsd/patterns.h5", "emsoft": "emsoft_ebsd/simulated_ebsd.h5",
                 "master": "emsoft_ebsd_master_pattern/master_patterns.h5", "nordif": "nordif/Pattern.dat",
                 "up1": "edax_binary/edax_binary.up1", "ebsp": "oxford_binary/patterns.ebsp",
                 "settings": "nordif/Setting.txt"}
        k = c["content"]
        made = root / "made"
        made.mkdir()
        if k == "bruker":
            from kikuchipy.data._dummy_files.bruker_h5ebsd import create_dummy_bruker_h5ebsd_file

            create_dummy_bruker_h5ebsd_file(made / "b.h5")
            first = made / "b.h5"
        elif k == "oxford":
            from kikuchipy.data._dummy_files.oxford_h5ebsd import create_dummy_oxford_h5ebsd_file

            first = made / "o.h5oina"
            create_dummy_oxford_h5ebsd_file(first)
        elif k == "foreign":
            first = made / "f.h5"
            import h5py

            with h5py.File(first, "w") as h:
                h["numbers"] = np.arange(5)
        elif k == "nothing":
            first = made / "n.h5"
            first.write_bytes(b"nothing")
        else:
            first = src / usual[k]
        folder = root / "with some.dots"
        folder.mkdir()
        if k in ("nordif", "settings"):
            for p in first.parent.iterdir():
                if p.suffix in (".bmp", ".txt"):
                    shutil.copy(p, folder / p.name)
        f = folder / f"{c['base']}.{c['ext']}"
        if c["exists"]:
            shutil.copy(first, f)
        rec = dict(op="load", content=k, lower=c["ext"].lower(), exists=c["exists"], lazy=c["lazy"], err="",
                   same=False, tmp=False, key=dict(content=k, ext=c["ext"], exists=c["exists"]), **{"class": ""})
        try:
            s = kp.load(str(f) if c["seed"] % 2 else f, lazy=c["lazy"])
        except Exception as x:
            rec["err"] = type(x).__name__
            return [rec]
        w = kp.load(first)
        rec["same"] = bool(s.data.shape == w.data.shape and np.array_equal(np.asarray(s.data), w.data)
                           and [repr(a) for a in s.axes_manager._axes] == [repr(a) for a in w.axes_manager._axes])
        t = s.tmp_parameters
        rec["tmp"] = bool(Path(t.folder).resolve() == folder.resolve() and t.filename == c["base"]
                          and t.extension == c["ext"])
        rec["class"] = type(s).__name__
        return [rec]
    finally:
        shutil.rmtree(root, ignore_errors=True)


def case_run(c):
    kp = kikuchipy()
    warnings.simplefilter("ignore")
    return (do_history if "hist" in c else do_process if "ops" in c else do_load)(kp, c)


def run(ctx):
    preload("kikuchipy.signals", "kikuchipy.io._io", "h5py", "hyperspy.api", "rsciio.hspy")
    rng = ctx.rng
    states = []
    for exts, options in [('{"", "dat"}', '{"", "hspy"}'), ('{"h5", "DAT", "xyz"}', '{"", "dat"}'),
                          ('{"hdf5", "hspy"}', '{"", "h5"}')]:
        states += [ctx.mc("MCSaveFiles", f"""
SPECIFICATION Spec
CONSTANT MaxEvents = 3
CONSTANT Bases = {{"a", "b.c"}}
CONSTANT Exts = {exts}
CONSTANT Options = {options}
INVARIANTS Reads TmpExists Emit
PROPERTY Agreed
CHECK_DEADLOCK FALSE
""", expect_cases=1000)]
    cases = []

    def common(k):
        return dict(seed=rng.randrange(10**6), nav=rng.choice([[2, 3], [3, 2], [4], []]),
                    sig=[rng.randint(3, 5), rng.randint(3, 5)], sub=k % 3 == 0, lazy=k % 4 == 0)

    for ss in states:
        rng.shuffle(ss)
        for k, m in enumerate(ss[: ctx.n(80, 1000)]):
            cases.append(dict(common(k), **m))
    for k in range(ctx.n(100, 1500)):
        hist, h5 = [], False
        blank = dict(base="", ext="", option="", overwrite="", answer="", lazy=False)
        for _ in range(rng.randint(4, 9)):
            do = rng.choice(["save"] * 4 + ["load"] * 2 + ["change"] * 2)
            e = dict(blank, do=do)
            if do == "load":
                e.update(index=rng.randrange(10), lazy=rng.random() < 0.7)
            if do == "save":
                e.update(base=rng.choice(["", "a", "a", "b"]), option=rng.choice(["", "", "", "dat", "hspy"]),
                         overwrite=rng.choice(["yes", "yes", "no", "ask"]), answer=rng.choice(["y", "n", "eof"]))
                if e["base"]:
                    e["ext"] = rng.choice(["dat", "dat", "dat", "DAT", "h5", "hspy", "hdf5", "", "up1"])
                # A scan may be added to an existing h5ebsd file: C10
                if e["option"] not in ("dat", "hspy") and e["ext"] not in ("dat", "DAT", "hspy", "up1"):
                    e["overwrite"] = "yes"
            hist.append(e)
        cases.append(dict(common(k), hist=hist))
    ops = ["rescale", "normalize", "static", "dynamic", "fft", "average", "adaptive", "crop", "copy"]
    for k in range(ctx.n(24, 90)):
        # A pattern which dask keeps from one save must not be in the next
        cases.append(dict(ops=[["average", "fft", "static", "dynamic", "rescale", "normalize"][k % 6]], lazy=True,
                          same=rng.random() < 0.5, nav=rng.choice([[2, 3], [3, 2]]), sig=[rng.randint(5, 8), rng.randint(5, 8)],
                          chunks=[[-1, -1], [1, 1]][k // 6 % 2], seed=rng.randrange(10**6)))
    for k in range(ctx.n(45, 400)):
        # Every operation comes first in some cases
        cases.append(dict(ops=[ops[k % len(ops)]] + rng.choices(ops, k=2), lazy=k % 5 < 4, same=rng.random() < 0.5,
                          nav=rng.choice([[2, 3], [3, 2], [4]]) if k % 5 else [3, 3], sig=[rng.randint(5, 8), rng.randint(5, 8)],
                          chunks=rng.choice([[1, 1], [2, 2], [-1, -1]]), seed=rng.randrange(10**6)))
    kinds = ["kikuchipy", "bruker", "emsoft", "master", "oxford", "nordif", "up1", "ebsp", "settings", "foreign", "nothing"]
    own = dict(kikuchipy=["h5", "hdf5", "h5ebsd", "H5", "HDF5"], bruker=["h5", "hdf5", "h5ebsd", "H5EBSD"],
               emsoft=["h5", "hdf5", "HDF5"], master=["h5", "hdf5", "Hdf5"], oxford=["h5oina", "H5OINA"],
               nordif=["dat", "DAT"], up1=["up1", "UP1"], ebsp=["ebsp", "EBSP"], settings=["txt", "TXT"],
               foreign=["h5", "hdf5", "xyz"], nothing=["h5", "hdf5", "h5ebsd", "xyz", "xx"])
    for k in kinds:
        for ext in own[k]:
            cases.append(dict(content=k, ext=ext, base=rng.choice(["Pattern", "a.b", "x y"]), lazy=rng.random() < 0.4,
                              exists=True, seed=rng.randrange(100)))
        for ext in {"kikuchipy": ["xyz", "h5 "], "nordif": ["", "dta"], "bruker": [], "oxford": []}.get(k, []):
            cases.append(dict(content=k, ext=ext, base="p", lazy=False, exists=True, seed=0))
        cases.append(dict(content=k, ext=own[k][0], base="p", lazy=rng.random() < 0.5, exists=False, seed=1))
    ctx.sample(*cases[::80])
    ctx.judge("TraceSaveFiles", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "Patterns of 8-bit integers; what a file holds beside the patterns is C10's.",
        "Adding scans to existing h5ebsd files is C10's.",
    ]
