"""C28: downloaded datasets and their cache."""
import contextlib
import hashlib
import io
import os
import shutil
import tempfile
import zipfile
from pathlib import Path

from harness.kp import kikuchipy, preload

CONTENT = {"pattern": b"patterns " * 40, "setting": b"settings " * 30}
GAIN = [0, 3, 6, 9, 12, 15, 17, 20, 22, 24]


def archive(members):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        for name, data in members.items():
            z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), data)
    return f.getvalue()


class Stopped(KeyboardInterrupt):
    pass


class World:
    """A server and a cache directory."""

    def __init__(self):
        import pooch

        # A directory for each worker process
        base = Path(os.environ.setdefault("VERIF_DATA_DIR", os.environ["KIKUCHIPY_DATA_DIR"]))
        self.dir = base / f"w{os.getpid()}" / "cache"
        os.environ["KIKUCHIPY_DATA_DIR"] = str(self.dir)
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir.mkdir(parents=True)
        self.beside = self.dir.parent / "beside.txt"
        self.beside.write_text("stays")
        self.marker()
        self.server, self.stop, self.hit = "ok", "", ""
        self.urls, self.pages = [], {}
        world = self

        class Downloader:
            def __init__(self, *args, **kwargs):
                pass

            def __call__(self, url, output_file, pooch, check_only=False):
                import requests

                world.urls.append(url)
                data = world.pages.get(url.split("/")[-1])
                if world.server == "down" or data is None:
                    raise requests.exceptions.ConnectionError("no answer")
                if world.server == "wrong":
                    data = data[:-7]
                f = Path(output_file) if isinstance(output_file, (str, os.PathLike)) else None
                if world.stop in ("download", "archive"):
                    world.hit = world.stop
                    if f:
                        f.write_bytes(data[: len(data) // 2])
                    raise Stopped()
                if f:
                    f.write_bytes(data)
                else:
                    output_file.write(data)

        pooch.HTTPDownloader = Downloader

    def marker(self):
        self.mark = self.dir / "mine" / "file.txt"
        self.mark.parent.mkdir(parents=True, exist_ok=True)
        self.mark.write_text("other")

    def find(self, rel):
        found = [p for p in self.dir.rglob(rel.split("/")[-1]) if p.as_posix().endswith("/data/" + rel)]
        return found[0] if found else None

    def rest(self, known):
        return [p for p in self.dir.rglob("*") if p.is_file() and p != self.mark
                and not any(p.as_posix().endswith("/data/" + k) for k in known)]


@contextlib.contextmanager
def stops(world):
    """Stop the extraction from and removal of archives."""
    real_all, real_remove, real_unlink = zipfile.ZipFile.extractall, os.remove, Path.unlink

    def extractall(self, path=None, members=None, pwd=None):
        if world.stop not in ("pattern", "pattern2", "setting", "setting2"):
            return real_all(self, path, members, pwd)
        world.hit = world.stop
        where = Path(path)
        for key, name in [("pattern", "Pattern.dat"), ("setting", "Setting.txt")]:
            if world.stop == key:
                break
            data = self.read(name)
            (where / name).write_bytes(data if world.stop != key + "2" else data[: len(data) // 2])
            if world.stop == key + "2":
                break
        raise Stopped()

    def remove(path, **kw):
        if world.stop == "remove" and str(path).endswith(".zip"):
            world.hit = "remove"
            raise Stopped()
        return real_remove(path, **kw)

    def unlink(self, missing_ok=False):
        if world.stop == "remove" and str(self).endswith(".zip"):
            world.hit = "remove"
            raise Stopped()
        return real_unlink(self, missing_ok)

    zipfile.ZipFile.extractall, os.remove, Path.unlink = extractall, remove, unlink
    try:
        yield
    finally:
        zipfile.ZipFile.extractall, os.remove, Path.unlink = real_all, real_remove, real_unlink


def setup():
    import time

    from kikuchipy.data import _data

    time.sleep = lambda s: None
    return _data


def md5(data):
    return "md5:" + hashlib.md5(data).hexdigest()


def state_of(path, good):
    if path is None:
        return "none"
    return "good" if path.read_bytes() == good else "bad"


def do_history(c):
    data = setup()
    w = World()
    kind, n = c["kind"], c["number"]
    rel = {"pattern": f"ni_gain/{n}/Pattern.dat", "setting": f"ni_gain/{n}/Setting.txt"}
    zname = f"scan{n}_gain{GAIN[n - 1]}db.zip"
    zdata = archive({"Pattern.dat": CONTENT["pattern"], "Setting.txt": CONTENT["setting"]})
    if kind == "alone":
        rel = {"pattern": "nickel_ebsd_large/patterns.h5", "setting": "no/such.file"}
        w.pages["patterns_v2.h5"] = CONTENT["pattern"]
    elif kind == "package":
        rel = {"pattern": "kikuchipy_h5ebsd/patterns.h5", "setting": "no/such.file"}
    w.pages[zname] = zdata
    hashes = data.registry_hashes
    right = hashes["data/kikuchipy_h5ebsd/patterns.h5"]
    for k, r in rel.items():
        if "data/" + r in hashes and kind != "package":
            hashes["data/" + r] = md5(CONTENT[k])
    hashes["data/" + zname] = md5(zdata)
    if kind == "package":
        hashes["data/" + rel["pattern"]] = right if c["pkg"] else md5(b"other")
    getattr(data.get_fetching_pooch, "cache_clear", lambda: None)()
    out = []
    for e in c["hist"]:
        rec = dict(op="event", do=e["do"], kind=kind, pkg=bool(c["pkg"]), name=e["name"],
                   allow=bool(e["allow"]), server=e["server"], stop="", out="", used=False,
                   content=False, path=False, address=True, litter=False, others=True, empty=False,
                   exists=False, outside=False)
        if e["do"] == "damage":
            p = w.find(rel[e["name"]])
            if p is not None:
                b = p.read_bytes()
                p.write_bytes(b[: len(b) // 2] if len(out) % 2 else b"x" + b[1:])
        elif e["do"] == "clear":
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    data.clear_cache()
                rec["out"] = "given"
            except Exception as err:
                rec["out"] = type(err).__name__
            rec.update(exists=w.dir.is_dir(), outside=w.beside.exists(),
                       empty=not (w.dir.is_dir() and any(w.dir.iterdir())))
        else:
            w.server, w.stop, w.hit, w.urls = e["server"], e["stop"], "", []
            try:
                with stops(w):
                    dset = (data.Dataset(rel[e["name"]], collection_name=zname) if kind == "archive"
                            else data.Dataset(rel[e["name"]]))
                    if len(out) % 2:
                        f = dset.fetch_file_path(e["allow"], False)
                    else:
                        f = dset.fetch_file_path(allow_download=e["allow"])
                rec["out"] = "given"
                b = Path(f).read_bytes()
                rec["content"] = ((md5(b) == right) if kind == "package"
                                  else b == CONTENT[e["name"]])
                rec["path"] = Path(f).as_posix().endswith("/data/" + rel[e["name"]]) and (
                    Path(f).is_relative_to(w.dir) == (kind != "package"))
            except Stopped:
                rec["out"] = "stopped"
            except ValueError as err:
                rec["out"] = "refused" if "allow_download" in str(err) else "failed"
            except Exception:
                rec["out"] = "failed"
            rec["stop"] = w.hit
            rec["used"] = bool(w.urls)
            want = zname if kind == "archive" else "patterns_v2.h5"
            rec["address"] = all(u.split("/")[-1] == want and u.startswith("https://") for u in w.urls)
            rec["litter"] = bool(w.rest([rel["pattern"], rel["setting"], zname]))
            rec["others"] = w.mark.exists() and w.mark.read_text() == "other" and w.beside.exists()
        rec["files"] = {k: state_of(w.find(r), CONTENT[k]) for k, r in rel.items()}
        rec["zip"] = state_of(w.find(zname), zdata)
        rec["key"] = dict(kind=kind, hist=[[h["do"], h["name"], h["server"], h["stop"]] for h in c["hist"]])
        if e["do"] == "clear":
            w.marker()
        out.append(rec)
    hashes["data/kikuchipy_h5ebsd/patterns.h5"] = right
    return out


def do_function(kp, c):
    data = setup()
    w = World()
    root = Path(data.__file__).parent
    nordif = {p.name: p.read_bytes() for p in (root / "nordif").iterdir()
              if p.suffix in (".bmp", ".txt", ".dat")}
    h5 = (root / "kikuchipy_h5ebsd/patterns.h5").read_bytes()
    mp = (root / "emsoft_ebsd_master_pattern/master_patterns.h5").read_bytes()
    zdata = archive(nordif)
    hashes, urls = data.registry_hashes, data.registry_urls
    keep = dict(hashes)
    for k in hashes:
        last = k.split("/")[-1]
        if k in ("data/kikuchipy_h5ebsd/patterns.h5",) or "uint8_gzip" in k:
            continue
        page = (zdata if last.endswith(".zip") else nordif.get(last) if last in nordif
                else mp if "master_pattern" in k else h5)
        hashes[k] = md5(page)
        if k in urls:
            w.pages[urls[k].split("/")[-1]] = page
    getattr(data.get_fetching_pooch, "cache_clear", lambda: None)()
    fun = getattr(kp.data, c["fun"])
    args = [c["phase"]] if c["phase"] else [c["number"]] if c["number"] >= 0 else []
    kw = dict(lazy=True) if c["lazy"] else {}
    rec = dict(op="function", fun=c["fun"], number=c["number"], phase=c["phase"], asked=c["lazy"],
               refused=False, again="", path="", lazy=False, **{"from": "", "class": ""},
               key=dict(fun=c["fun"], number=c["number"], phase=c["phase"]))
    inside = c["fun"] in ("nickel_ebsd_small", "nickel_ebsd_master_pattern_small")
    try:
        fun(*args, **kw)
    except ValueError as err:
        rec["refused"] = "allow_download" in str(err) and not w.urls
    down = {} if inside else dict(allow_download=True)
    s = fun(*args, **down, **kw)
    rec["from"] = "+".join(sorted({u.split("/")[-1] for u in w.urls}))
    t = s.tmp_parameters
    full = (Path(t.folder) / (t.filename + "." + t.extension)).as_posix()
    rec["path"] = full.split("/data/")[-1]
    rec["lazy"] = bool(s._lazy)
    rec["class"] = type(s).__name__.removeprefix("Lazy")
    w.urls = []
    try:
        fun(*args, **kw)
        if w.urls:
            rec["again"] = "downloaded"
    except Exception as err:
        rec["again"] = type(err).__name__
    hashes.update(keep)
    return [rec]


def case_run(c):
    import warnings

    kp = kikuchipy()
    warnings.simplefilter("ignore")
    if "hist" in c:
        return do_history(c)
    return do_function(kp, c)


def run(ctx):
    preload("kikuchipy.data", "pooch", "requests")
    rng = ctx.rng
    states = ctx.mc("MCDataCache", """
SPECIFICATION Spec
CONSTANT MaxEvents = %d
INVARIANTS GivenIsGood NetworkOnlyIfAllowed NotKept OneCall Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % ctx.n(3, 4), expect_cases=True)
    rng.shuffle(states)
    by = {}
    for s in states:
        by.setdefault((s["kind"], any(h["stop"] for h in s["hist"])), []).append(s)
    cases = []
    for (kind, stopped), ss in sorted(by.items()):
        n = ctx.n(20, 100) if kind == "package" else ctx.n(150, 1500)
        for s in ss[:n]:
            cases.append(dict(number=rng.randint(1, 10), **s))
    # Longer histories
    for k in range(ctx.n(150, 2000)):
        hist = []
        for _ in range(rng.randint(4, 8)):
            do = rng.choice(["call"] * 6 + ["damage", "clear"])
            hist.append(dict(
                do=do, name=rng.choice(["pattern", "setting"]) if do != "clear" else "",
                allow=rng.random() < 0.8, server=rng.choice(["ok", "ok", "ok", "wrong", "down"]),
                stop=rng.choice([""] * 3 + ["archive", "pattern", "pattern2", "setting", "setting2", "remove"])
                if do == "call" else ""))
        if any(h["do"] == "damage" for h in hist):
            hist = [h for i, h in enumerate(hist) if h["do"] != "damage" or i > 0]
        cases.append(dict(kind="archive", pkg=False, number=rng.randint(1, 10), hist=hist))
    funs = [("nickel_ebsd_small", -1, ""), ("nickel_ebsd_master_pattern_small", -1, ""),
            ("nickel_ebsd_large", -1, ""), ("si_wafer", -1, "")]
    funs += [(f, k, "") for f in ("ni_gain", "ni_gain_calibration") for k in range(1, 11)]
    funs += [("si_ebsd_moving_screen", k, "") for k in (0, 5, 10)]
    funs += [("ebsd_master_pattern", -1, p) for p in
             ("ni al si austenite ferrite steel_chi steel_sigma steel_sigma2 steel_r steel_pi "
              "steel_cr2n al6mn alpha_almnsi").split()]
    for k, (f, number, phase) in enumerate(funs):
        for lazy in ([k % 2 == 0] if ctx.quick else [True, False]):
            cases.append(dict(fun=f, number=number, phase=phase, lazy=lazy))
    ctx.sample(*cases[::80])
    ctx.judge("TraceDataCache", cases, ctx.observe(case_run, cases))
    ctx.assumptions += [
        "pooch's downloader is replaced by one that serves made-up files (no network); archives and "
        "hashes in the registry are replaced to match.",
        "A process stops between two writes to disk, not while a file is being renamed.",
    ]
