"""Shared machinery of all drivers.

* ``Ctx.mc`` model checks a specification with TLC and returns the cases the
  model printed (one JSON value per ``@C`` line).
* ``Ctx.observe`` runs a driver function on cases in worker processes against
  the real code and collects observation records. An exception, a crash or a
  hang in the code under test becomes a record of its own.
* ``Ctx.judge`` lets TLC judge the records with a trace specification, and
  turns every FALSE clause into a violation (or a known finding).
"""

from __future__ import annotations

import importlib
import json
import math
import os
import random
import re
import select
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
TLA = "/opt/veriftools/tla"
NAN = 1000000007
BIG = 1000000000


# --------------------------------------------------------------- encoding
def q(x, scale=1):
    """Scaled integer(s) of x, NaN as NAN and clipped to +-BIG."""
    a = np.asarray(x)
    if a.dtype == bool:
        a = a.astype(int)
    if a.ndim == 0:
        v = float(a) * scale
        if math.isnan(v):
            return NAN
        v = max(min(v, BIG), -BIG)
        return int(round(v))
    if a.dtype.kind in "iu" and scale == 1:
        return np.clip(a, -BIG, BIG).astype(np.int64).tolist()
    f = a.astype(np.float64) * scale
    nan = np.isnan(f)
    f = np.clip(np.where(nan, 0, f), -BIG, BIG)
    r = np.rint(f).astype(np.int64)
    r[nan] = NAN
    return r.tolist()


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        raise TypeError(f"float {x!r} in a record: scale it")
    return x


class Known:
    def __init__(self, prop):
        self.items = []
        f = VERIF / "known_findings.txt"
        if f.exists():
            for line in f.read_text().splitlines():
                m = re.match(
                    r"finding: property=(\S+) clause=(\S+) key=(\S+) :: (.*)", line
                )
                if m and m[1] == prop:
                    self.items.append(
                        dict(clause=m[2], key=m[3], what=m[4], seen=False)
                    )

    def match(self, clause, key):
        for it in self.items:
            if it["clause"] == clause and it["key"] == key:
                return it
        return None


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier != "thorough"
        self.seed = seed
        self.rng = random.Random(f"{prop}-{seed}")
        self.nprng = np.random.default_rng([seed, int(prop[1:])])
        self.scratch = Path(os.environ["VERIF_SCRATCH"])
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.records = 0
        self.samples = []
        self.models = []
        self.clause_ok = {}
        self.violations = []
        self.known = Known(prop)
        self.assumptions = []
        self.lines = []
        self.n_tlc = 0
        self.t0 = time.time()
        self.cov_extra = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------- TLC
    def _tlc(self, module, cfg_text, env=None, workers=1, args=(), heap="2g", timeout=None):
        self.n_tlc += 1
        wd = self.scratch / f"tlc{self.n_tlc}"
        wd.mkdir()
        cfg = wd / "m.cfg"
        cfg.write_text(cfg_text)
        cmd = [
            "java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
            f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4",
            f"-DTLA-Library={SPEC}",
            "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
            "tlc2.TLC", "-workers", str(workers), "-metadir", str(wd / "meta"),
            "-config", str(cfg), *args, str(SPEC / f"{module}.tla"),
        ]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        return subprocess.Popen(
            cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, errors="replace",
        )

    def mc(self, module, cfg, workers=4, args=(), heap="6g", expect_cases=None):
        """Model check ``module`` with configuration text ``cfg``. Returns the
        list of JSON values printed as ``@C <json>`` lines."""
        p = self._tlc(module, cfg, workers=workers, args=args, heap=heap)
        out, _ = p.communicate()
        cases = []
        for line in out.splitlines():
            if line.startswith('"@C '):
                cases.append(json.loads(json.loads(line)[3:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if "-simulate" in args:
            m = [(n, "0") for n in re.findall(r"number of states generated: (\d+)", out)]
        if p.returncode != 0 or not m:
            tail = "\n".join(
                x for x in out.splitlines() if not x.startswith('"@C'))[-4000:]
            raise MachineryError(f"TLC on {module} ended with {p.returncode}:\n{tail}")
        gen, dist = map(int, m[-1])
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, distinct=dist, generated=gen,
                                cases=len(cases)))
        if expect_cases is not None and len(cases) < expect_cases:
            raise MachineryError(f"{module} printed only {len(cases)} cases")
        # The order of printing depends on TLC's worker threads
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
        return cases

    # --------------------------------------------------------- observing
    def observe(self, func, cases, procs=8, case_timeout=200):
        """Run ``func(case) -> list of records`` for every case in forked
        workers. Returns one list of records per case."""
        cases = list(cases)
        results = [None] * len(cases)
        procs = max(1, min(procs, len(cases)))
        shards = [list(range(i, len(cases), procs)) for i in range(procs)]
        live = []
        # A case in which the worker died is run once more on its own before
        # it counts: a fork of a process with threads may rarely die or hang
        # for reasons that have nothing to do with the code under test
        again = set()
        for sh in shards:
            live.append(_Worker(func, cases, sh))
        while live:
            fds = [w.fd for w in live]
            ready, _, _ = select.select(fds, [], [], 1.0)
            now = time.time()
            nxt = []
            for w in live:
                status = None
                if w.fd in ready:
                    status = w.read(results)
                elif now - w.last > case_timeout:
                    os.kill(w.pid, signal.SIGKILL)
                    os.waitpid(w.pid, 0)
                    os.close(w.fd)
                    w.why = f"no answer in {case_timeout} s"
                    status = "hang"
                if status is None:
                    nxt.append(w)
                elif status != "done":
                    if w.cur is not None:
                        key = cases[w.cur].get("key", "-") \
                            if isinstance(cases[w.cur], dict) else "-"
                        if results[w.cur] is not None:
                            pass
                        elif w.cur in again or len(again) > 8:
                            results[w.cur] = [dict(op=status, msg=w.why, key=str(key))]
                        else:
                            again.add(w.cur)
                            sys.stderr.write(f"case {w.cur} {key}: {status} {w.why}, once more\n")
                        rest = [i for i in w.todo if results[i] is None]
                        if rest:
                            nxt.append(_Worker(func, cases, rest))
                    else:
                        raise MachineryError("a worker died before its first case")
            live = nxt
        out = []
        for i, r in enumerate(results):
            if not r:
                raise MachineryError(f"no record for case {i}")
            for j, rec in enumerate(r):
                rec["first"] = j == 0
            out.append(r)
        return out

    # ----------------------------------------------------------- judging
    def judge(self, module, cases, traces, shards=None, constants="", key=None,
              count_traces=True):
        """Let TLC judge the traces (lists of records) with trace
        specification ``module``; register the violations."""
        flat = []
        for ci, tr in enumerate(traces):
            for ri, rec in enumerate(tr):
                flat.append((ci, ri, plain(rec)))
        if not flat:
            raise MachineryError("nothing to judge")
        weight = [len(json.dumps(x[2])) for x in flat]
        nsh = shards or max(1, min(8, len(traces), 1 + sum(weight) // 60000))
        # contiguous shards that begin at the start of a trace
        target = sum(weight) / nsh
        parts, cur, acc = [], [], 0
        for x, w in zip(flat, weight):
            if x[1] == 0 and acc >= target and len(parts) < nsh - 1:
                parts.append(cur)
                cur, acc = [], 0
            cur.append(x)
            acc += w
        parts.append(cur)
        running = []
        for k, part in enumerate(parts):
            f = self.scratch / f"trace{self.n_tlc}_{k}.ndjson"
            f.write_text("".join(json.dumps(x[2]) + "\n" for x in part))
            cfg = (
                "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\n"
                "CHECK_DEADLOCK FALSE\nCONSTANTS\n"
                "  InitSt <- TInit\n  Step <- TStep\n  Clauses <- TClauses\n" + constants
            )
            running.append((part, self._tlc(module, cfg, env={"TRACE_FILE": str(f)}), f))
        bad_before = len(self.violations)
        for part, p, f in running:
            self._collect(module, cases, traces, part, p, constants)
            f.unlink()
        if count_traces:
            self.traces += len(traces)
            self.records += len(flat)
        return len(self.violations) - bad_before

    def _collect(self, module, cases, traces, part, p, constants):
        out, _ = p.communicate()
        seen = 0
        for line in out.splitlines():
            if not line.startswith('"@V '):
                continue
            v = json.loads(json.loads(line)[3:])
            ci, ri, rec = part[v["l"] - 1]
            seen = max(seen, v["l"])
            for name in v["ok"]:
                self.clause_ok[name] = self.clause_ok.get(name, 0) + 1
            for name in v["bad"]:
                self.bad(name, cases[ci], traces[ci], ri, rec)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        if p.returncode != 0 or seen < len(part):
            if seen < len(part) and "Error: " in out and self._is_eval_error(out):
                # The observation is outside what the specification can
                # express (a wrong type, a missing field, an index outside a
                # sequence): no behaviour of the specification matches it.
                ci, ri, rec = part[seen]
                self.bad("InSpecDomain", cases[ci], traces[ci], ri, rec,
                         detail=out[-1500:])
            else:
                raise MachineryError(
                    f"trace specification {module} ended with {p.returncode}:\n"
                    + out[-4000:]
                )

    @staticmethod
    def _is_eval_error(out):
        return not any(
            s in out for s in ("Parsing or semantic analysis failed",
                               "OutOfMemory", "StackOverflow", "does not exist",
                               "Configuration file")
        )

    def bad(self, clause, case, trace, ri, rec, detail=None):
        key = rec.get("key") or (trace[0].get("key") if trace else None) or "-"
        it = self.known.match(clause, key)
        if it is not None:
            it["seen"] = True
            return
        self.violations.append(
            dict(clause=clause, key=key, case=case, record_index=ri, record=rec,
                 trace=trace[: ri + 1], detail=detail)
        )

    # ---------------------------------------------------------- reporting
    def sample(self, *xs):
        for x in xs:
            if len(self.samples) < 6:
                s = json.dumps(x, default=str)
                self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])

    def result(self):
        lines = []
        for it in self.known.items:
            if it["seen"]:
                lines.append(f"KNOWN-FINDING: property={self.prop} {it['what']}")
        exit_code = 0
        d = VERIF / "evidence" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        for f in d.glob(f"{self.prop}-*.json"):
            f.unlink()
        if self.violations:
            exit_code = 1
            byc = {}
            for v in self.violations:
                byc.setdefault(v["clause"], []).append(v)
            for c, vs in sorted(byc.items()):
                f = d / f"{self.prop}-{c}.json"
                f.write_text(json.dumps(vs[:40], indent=1, default=str))
                lines.append(
                    f"{self.prop}: clause {c} is FALSE for {len(vs)} record(s), "
                    f"first key={vs[0]['key']}"
                )
                r0 = {k: v for k, v in vs[0]["record"].items()}
                lines.append("  record: " + json.dumps(r0, default=str)[:600])
                lines.append(f"VIOLATION property={self.prop} replay={f}")
        lines.append(
            f"{self.prop} {self.tier}: {self.traces} traces, {self.records} records, "
            f"{self.states} states, {len(self.violations)} violations"
        )
        ev = dict(
            property=self.prop, tier="quick" if self.quick else "thorough",
            seed=self.seed, level="model_checking",
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces, samples=self.samples,
                records=self.records, models=self.models,
                clauses_true=dict(sorted(self.clause_ok.items())),
                **self.cov_extra,
            ),
            assumptions=self.assumptions, violations=len(self.violations), wall_s=0.0,
        )
        return dict(exit=exit_code, lines=lines, evidence=ev)


class MachineryError(Exception):
    pass


def _coverage():
    """With VERIF_COV=<directory>, write there which lines of kikuchipy ran (tools/cov.py)."""
    where = os.environ.get("VERIF_COV")
    if not where:
        return lambda: None
    seen, mon = set(), sys.monitoring

    def line(code, n):
        if "/kikuchipy/" in code.co_filename:
            seen.add((code.co_filename.split("/src/kikuchipy/")[-1], n))
        return mon.DISABLE

    mon.use_tool_id(3, "verif")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    name = os.path.join(where, f"{os.getpid()}-{time.time_ns()}.json")

    def dump():
        with open(name, "w") as f:
            json.dump(sorted(seen), f)
    return dump


class _Worker:
    """A forked process that runs some of the cases one after another."""

    def __init__(self, func, cases, todo):
        self.todo = list(todo)
        self.cur = None
        self.buf = b""
        self.last = time.time()
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                if not os.environ.get("VERIF_DEBUG"):
                    os.dup2(null, 2)
                pipe = os.fdopen(w, "wb", buffering=0)
                lines = _coverage()
                for i in todo:
                    _send(pipe, ["start", i])
                    try:
                        recs = plain(func(cases[i]))
                    except MachineryError:
                        raise
                    except Exception as e:
                        tb = traceback.format_exc()[-1500:]
                        if os.environ.get("VERIF_DEBUG"):
                            sys.stderr.write(tb)
                        recs = [dict(op="exception", exc=type(e).__name__,
                                     msg=str(e)[:300], tb=tb,
                                     key=str(cases[i].get("key", "-"))
                                     if isinstance(cases[i], dict) else "-")]
                    _send(pipe, ["done", i, recs])
                    lines()
                _send(pipe, ["end"])
                os._exit(0)
            except BaseException:
                os._exit(3)
        os.close(w)
        self.pid = pid
        self.fd = r

    def read(self, results):
        data = os.read(self.fd, 1 << 20)
        self.last = time.time()
        if not data:
            os.close(self.fd)
            st = os.waitpid(self.pid, 0)[1]
            self.why = f"exit status {os.waitstatus_to_exitcode(st)}"
            return "crash"
        self.buf += data
        while True:
            k = self.buf.find(b"\n")
            if k < 0:
                return None
            line, self.buf = self.buf[:k], self.buf[k + 1:]
            m = json.loads(line)
            if m[0] == "start":
                self.cur = m[1]
            elif m[0] == "done":
                results[m[1]] = m[2]
            else:
                os.close(self.fd)
                os.waitpid(self.pid, 0)
                return "done"


def _send(pipe, obj):
    data = json.dumps(obj).encode() + b"\n"
    while data:
        n = pipe.write(data)
        data = data[n:]


def main():
    prop, tier, seed, out = sys.argv[1:5]
    ctx = Ctx(prop, tier, int(seed))
    mod = importlib.import_module(f"harness.props.{prop.lower()}")
    try:
        mod.run(ctx)
        if not ctx.samples:
            raise MachineryError("no samples")
        res = ctx.result()
    except MachineryError as e:
        print(f"{prop}: machinery error: {e}", flush=True)
        if not ctx.violations:
            sys.exit(2)
        res = ctx.result()
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            sys.exit(2)
        res = ctx.result()
    Path(out).write_text(json.dumps(res, default=str))


if __name__ == "__main__":
    main()
