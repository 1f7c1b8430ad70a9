"""Entry point: set up a scratch environment, run one property's driver in a
child process (so that a crash of the code under test is a verdict and not the
end of the check), and report.

The child writes observation records; TLC judges them (see core.py).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


def environment(scratch: Path, jit: bool) -> dict:
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        NUMBA_NUM_THREADS="2",
        LIBGL_ALWAYS_SOFTWARE="1",
        HOME=str(scratch / "home"),
        TMPDIR=str(scratch / "tmp"),
        KIKUCHIPY_DATA_DIR=str(scratch / "data"),
        NUMBA_CACHE_DIR=str(scratch / "numba"),
        VERIF_SCRATCH=str(scratch),
        PYTHONPATH=f"{REPO / 'src'}:{VERIF}",
        PYTHONWARNINGS="ignore",
    )
    if jit:
        env.pop("NUMBA_DISABLE_JIT", None)
    else:
        env["NUMBA_DISABLE_JIT"] = "1"
    for d in ("home", "tmp", "data"):
        (scratch / d).mkdir(exist_ok=True)
    seed = Path("/opt/vp/numba-seed")
    nb = scratch / "numba"
    if not nb.exists():
        if jit and seed.is_dir():
            # Compiled code of third-party packages only, never of kikuchipy
            shutil.copytree(seed, nb)
        else:
            nb.mkdir()
    return env


def main() -> int:
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = Path(tempfile.mkdtemp(prefix=f"kpverif_{prop}_"))
    try:
        text = (VERIF / "harness" / "props" / f"{prop.lower()}.py").read_text()
        jit = "\nJIT = True" in text or (
            tier == "thorough" and "\nJIT_THOROUGH = True" in text)
        env = environment(scratch, jit)
        out = scratch / "result.json"
        args = [sys.executable, "-B", "-m", "harness.core", prop, tier, str(seed)]
        args.append(str(out))
        limit = 840 if tier == "quick" else 6 * 3600
        try:
            p = subprocess.run(args, cwd=VERIF, env=env, timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        if not out.exists():
            print(f"{prop}: the driver ended with {rc} and no result", flush=True)
            return 2
        res = json.loads(out.read_text())
        res["evidence"]["wall_s"] = round(time.time() - t0, 2)
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop}.json").write_text(
            json.dumps(res["evidence"], indent=1) + "\n"
        )
        for line in res["lines"]:
            print(line, flush=True)
        return res["exit"]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
