"""Case runner, monitors, violation and evidence reporting."""
import concurrent.futures as cf
import concurrent.futures.process
import contextlib
import errno
import hashlib
import importlib
import json
import logging
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN_FILE = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
CASE_TIMEOUT = 300


class CaseTimeout(Exception):
    """A case did not end in time."""


class Harness(Exception):
    """Fault of the harness, not of the code under test."""


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return _jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


class Monitor:
    """Collects what the oracles observed in one case."""

    def __init__(self):
        self.counts = {}
        self.viol = []
        self.known_hits = []
        self.sigs = set()
        self.note = {}

    def seen(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def fail(self, name, detail):
        if len(self.viol) < 40:
            self.viol.append({"monitor": name, "detail": str(detail)[:1500]})

    def check(self, name, ok, detail=""):
        self.seen(name)
        if not ok:
            self.fail(name, detail() if callable(detail) else detail)
        return bool(ok)

    def close(self, name, got, exp, rtol=1e-8, atol=1e-10, ctx=""):
        """Arrays equal within tolerance; NaN only where expected NaN."""
        try:
            g = np.asarray(got, float)
            e = np.asarray(exp, float)
        except (TypeError, ValueError) as err:
            self.seen(name)
            self.fail(name, f"{ctx} not numeric: {err}")
            return False
        self.seen(name, max(g.size, 1))
        if g.shape != e.shape:
            self.fail(name, f"{ctx} shape {g.shape} expected {e.shape}")
            return False
        with np.errstate(all="ignore"):
            scale = np.nanmax(np.abs(e[np.isfinite(e)])) if np.isfinite(e).any() else 0.0
            ok = np.abs(g - e) <= atol + rtol * np.maximum(np.abs(e), 1e-3 * scale)
            ok |= np.isnan(g) & np.isnan(e)
            ok |= (g == e)
        if ok.all():
            return True
        flat = np.flatnonzero(~np.atleast_1d(ok))
        i = int(flat[0])
        self.fail(
            name,
            f"{ctx} differs at {flat.size} of {g.size} places, first at {i}: "
            f"got {np.atleast_1d(g).ravel()[i]!r} expected {np.atleast_1d(e).ravel()[i]!r}",
        )
        return False

    def same(self, name, got, exp, ctx=""):
        """Equal arrays (NaN equal NaN); floating point to within rounding.

        The rounding is allowed because equal arithmetic may be grouped
        differently for arrays of different lengths.
        """
        g, e = np.asarray(got), np.asarray(exp)
        if g.dtype.kind == "f" and e.dtype.kind == "f":
            return self.close(name, g, e, 1e-10, 1e-13, ctx)
        self.seen(name, max(g.size, 1))
        eq = g.shape == e.shape
        if eq:
            try:
                eq = np.array_equal(g, e, equal_nan=True)
            except TypeError:
                eq = np.array_equal(g, e)
        if not eq:
            self.fail(name, f"{ctx} not identical" + (
                f": max diff {np.nanmax(np.abs(g.astype(float) - e.astype(float)))}"
                if g.shape == e.shape and g.dtype.kind in "fi" else f" shapes {g.shape} {e.shape}"))
        return eq

    def raises(self, name, exc, fun, ctx=""):
        """fun raises one of the exception types."""
        self.seen(name)
        try:
            fun()
        except exc:
            return True
        except (CaseTimeout, MemoryError):
            raise
        except Exception as err:  # pylint: disable=broad-except
            self.fail(name, f"{ctx} raised {type(err).__name__}: {err} instead of {exc}")
            return False
        self.fail(name, f"{ctx} accepted, expected {exc}")
        return False

    def known(self, key, text):
        self.known_hits.append((key, text))

    def sig(self, *parts):
        """A distinct non-trivial situation that an oracle really judged."""
        self.sigs.add("|".join(str(p) for p in parts))


def fingerprint(obj):
    return hashlib.sha1(json.dumps(_jsonable(obj), sort_keys=True).encode()).hexdigest()[:16]


@contextlib.contextmanager
def scratch():
    """Scratch directory, removed afterwards; also the working directory."""
    old = os.getcwd()
    path = tempfile.mkdtemp(prefix="vmon_", dir=os.environ.get("VMON_SCRATCH"))
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)


def _alarm(signum, frame):
    raise CaseTimeout(f"no end within {CASE_TIMEOUT} s")


def run_one(modname, case):
    """Run a case in this process, return plain data."""
    mon = Monitor()
    t0 = time.time()
    harness = None
    mod = importlib.import_module(f"vmon.checks.{modname}")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    np.seterr(all="ignore")
    try:
        logging.disable(logging.CRITICAL)
        with scratch(), open(os.devnull, "w", encoding="utf8") as null, contextlib.redirect_stdout(null):
            mod.run(case, mon)
    except Harness as err:
        harness = f"{err}"
    except MemoryError as err:
        harness = f"MemoryError {err}"
    except Exception as err:  # pylint: disable=broad-except
        tb = traceback.extract_tb(err.__traceback__)
        in_repo = any(os.path.abspath(f.filename).startswith(REPO + "/src") for f in tb)
        text = "".join(traceback.format_exception(err)[-6:])[-1400:]
        if isinstance(err, OSError) and err.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
            harness = text
        elif isinstance(err, (ImportError, AttributeError)) and not in_repo:
            harness = text
        else:
            mon.fail("no-unexpected-exception", text)
    finally:
        signal.alarm(0)
    mon.seen("no-unexpected-exception")
    return {
        "counts": mon.counts, "viol": mon.viol, "known": mon.known_hits,
        "sigs": sorted(mon.sigs), "harness": harness, "note": _jsonable(mon.note),
        "wall": time.time() - t0,
    }


def listed_findings(prop):
    keys = {}
    with open(KNOWN_FILE, encoding="utf8") as fread:
        for line in fread:
            if line.startswith("finding:"):
                words = line.split()
                d = dict(w.split("=", 1) for w in words[1:3])
                if d["property"] == prop:
                    keys[d["key"]] = " ".join(words[3:])
    return keys


def check_import():
    """The code judged is /repo's working tree."""
    import ciceroscm

    path = os.path.realpath(ciceroscm.__file__)
    if not path.startswith(os.path.realpath(REPO) + "/src/"):
        raise Harness(f"ciceroscm imported from {path}, not from {REPO}/src")


def rng_for(seed, prop, tier):
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), 0 if tier == "quick" else 1])


def _pooled(modname, cases, order, results, workers, end):
    """All cases in a pool, until end()."""
    pool = cf.ProcessPoolExecutor(max_workers=workers)
    futs = {pool.submit(run_one, modname, cases[i]): i for i in order}
    left = set(futs)
    try:
        while left and time.time() < end():
            fin, left = cf.wait(left, timeout=max(min(5.0, end() - time.time()), 0.05), return_when=cf.FIRST_COMPLETED)
            for fut in fin:
                results[futs[fut]] = fut.result()
    finally:
        if left:
            for proc in list((getattr(pool, "_processes", None) or {}).values()):
                proc.kill()
        pool.shutdown(wait=not left, cancel_futures=True)


def _alone(modname, case, end):
    """A case in a process of its own; its death counts against the code unless it was killed from outside."""
    if time.time() > end():
        return None
    with tempfile.TemporaryDirectory(prefix="vmon_") as tmp:
        inp, out = os.path.join(tmp, "case.json"), os.path.join(tmp, "res.json")
        with open(inp, "w", encoding="utf8") as fw:
            json.dump(case, fw)
        code = (f"import sys, json; sys.path[:0] = {sys.path!r}; from vmon import common as C; "
                f"r = C.run_one({modname!r}, json.load(open({inp!r}))); json.dump(C._jsonable(r), open({out!r}, 'w'))")
        try:
            proc = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=CASE_TIMEOUT + 20, check=False)
        except subprocess.TimeoutExpired:
            return None
        if os.path.exists(out):
            with open(out, encoding="utf8") as fread:
                return json.load(fread)
    text = f"the process running this case died with {proc.returncode}: {proc.stderr[-600:]}"
    killed = proc.returncode in (-9, -15)
    return {"counts": {"process-survives": 1}, "viol": [] if killed else [{"monitor": "process-survives", "detail": text}], "known": [],
            "sigs": [], "harness": text if killed else None, "note": {}, "wall": 0.0}


def main(prop, tier, replay=None, only=None):
    t0 = time.time()
    check_import()
    modname = prop.lower()
    mod = importlib.import_module(f"vmon.checks.{modname}")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if replay:
        with open(replay, encoding="utf8") as fread:
            case = json.load(fread)["case"]
        res = run_one(modname, case)
        print(json.dumps(res["viol"], indent=1))
        if res["harness"]:
            print(res["harness"])
            return 2
        if res["viol"]:
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 0
    cases = mod.cases(rng_for(seed, prop, tier), tier)
    cases = [json.loads(json.dumps(_jsonable(c))) for c in cases]
    if only is not None:
        cases = [cases[i] for i in only]
    workers = int(os.environ.get("VMON_WORKERS", getattr(mod, "WORKERS", 8)))
    results = [None] * len(cases)
    budget = float(os.environ.get("VMON_BUDGET", 600 if tier == "quick" else 780))
    # Longest first keeps the tail short
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get("cost", 1))
    fail_fast = bool(os.environ.get("VMON_FAILFAST"))  # development only: stop at the first violation
    patience = 0.0 if fail_fast else 150.0  # after a violation, the rest gets no longer than this in all
    end = lambda: t0 + (min(budget, patience) if any(r and r["viol"] for r in results) else budget)
    if workers <= 1:
        for i in order:
            if time.time() > end():
                continue
            results[i] = run_one(modname, cases[i])
    else:
        try:
            _pooled(modname, cases, order, results, workers, end)
        except cf.process.BrokenProcessPool:
            left = [i for i in order if results[i] is None]
            print(f"a worker process died; {len(left)} cases again, each in a process of its own", flush=True)
            with cf.ThreadPoolExecutor(workers) as pool:
                for i, res in zip(left, pool.map(lambda i: _alone(modname, cases[i], end), left)):
                    results[i] = res
    skipped = sum(r is None for r in results)
    done = [(c, r) for c, r in zip(cases, results) if r is not None]
    counts, sigs, viols, known, harness = {}, set(), [], {}, []
    for case, res in done:
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(res["sigs"])
        if res["harness"]:
            harness.append((case, res["harness"]))
        for key, text in res["known"]:
            known.setdefault(key, text)
        if res["viol"]:
            viols.append((case, res["viol"]))
    listed = listed_findings(prop)
    for key, text in list(known.items()):
        if key in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[key]}")
        else:
            viols.append(({"key": key}, [{"monitor": key, "detail": text}]))
    rdir = os.path.join(ROOT, "replays")
    status = 0
    if viols:
        os.makedirs(rdir, exist_ok=True)
        case, vlist = viols[0]
        path = os.path.join(rdir, f"{prop}_{fingerprint(case)}.json")
        with open(path, "w", encoding="utf8") as fw:
            json.dump({"property": prop, "tier": tier, "seed": seed, "case": case, "violations": vlist}, fw, indent=1)
        for case2, vl in viols[:5]:
            print("case", json.dumps(case2)[:600])
            for v in vl[:6]:
                print("  ", v["monitor"], "::", v["detail"][:900])
        print(f"{len(viols)} of {len(done)} cases violate {prop}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
        status = 1
    expected = getattr(mod, "EXPECTED_MONITORS", None)
    missing = [m for m in (expected or []) if not counts.get(m)]
    if status == 0 and harness:
        print("HARNESS ERROR", harness[0][1], json.dumps(harness[0][0])[:300])
        status = 2
    if status == 0 and (not done or not sigs or missing) and only is None:
        print(f"INCONCLUSIVE: {len(done)} cases, {len(sigs)} situations, monitors never evaluated: {missing}")
        status = 3
    samples = []
    for case, res in done[:: max(1, len(done) // 3)][:4]:
        samples.append({"case": case, "monitors": res["counts"], "situations": res["sigs"][:8],
                        "observed": res["note"], "wall_s": round(res["wall"], 2)})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples,
            "monitor_evaluations": counts,
            "situations": sorted(sigs)[:60],
            "cases_not_run_in_time": skipped,
            "known_findings_seen": sorted(known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w", encoding="utf8") as fw:
        json.dump(_jsonable(evidence), fw, indent=1)
    slow = sorted(((round(r["wall"], 1), i) for i, r in enumerate(results) if r), reverse=True)[:3]
    print(f"{prop} {tier}: {len(done)} cases, {sum(counts.values())} comparisons, {len(sigs)} situations, "
          f"{len(viols)} violating, slowest {slow}, {time.time() - t0:.1f} s")
    return status
