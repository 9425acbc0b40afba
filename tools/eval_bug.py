"""Development tool: evaluate planted bugs in scratch copies of /repo.

usage: eval_bug.py SEEDED_ID... [--no-tests] [--checks C01,C02|own|all] [--jobs N]
Copies /repo to /tmp, applies seeded/<id>/patch.diff, runs the stable tests, the
demo (clean and patched) and the checks (with VERIF_REPO), and removes the copy.
Not used by any registered check.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def env_for(copy):
    e = dict(os.environ)
    e.update(PYTHONPATH=copy + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             VERIF_REPO=copy)
    return e


def run_tests(copy, work):
    e = env_for(copy)
    e.pop("VERIF_REPO")
    for k, d in (("MPLCONFIGDIR", "mpl"), ("IPYTHONDIR", "ip"), ("JUPYTER_CONFIG_DIR", "jc"), ("JUPYTER_DATA_DIR", "jd"), ("JUPYTER_RUNTIME_DIR", "jr")):
        e[k] = os.path.join(work, d)
        os.makedirs(e[k], exist_ok=True)
    base = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors",
            "-o", "junit_family=xunit2", "--basetemp=" + work + "/base"]
    subprocess.run(base + ["--timeout=300", "-n", "4", "tests", "--junitxml=" + work + "/t.xml"], cwd=copy, env=e, capture_output=True)
    e2 = dict(e)
    e2.pop("MPLBACKEND")
    subprocess.run(base + ["--timeout=600", "-n", "4", "--dist", "loadfile", "notebooks", "--nbval", "--nbval-sanitize-with", "tests/notebook-tests.cfg", "--junitxml=" + work + "/n.xml"], cwd=copy, env=e2, capture_output=True)
    subprocess.run(["python3", "/opt/vp/results.py", work + "/out.json", "junit:" + work + "/t.xml", "junit:" + work + "/n.xml"], capture_output=True)
    out = json.load(open(work + "/out.json"))
    stable = STABLE.get("stable") or STABLE.get("passed") or STABLE
    return sorted(set(stable) - set(out["passed"]))


def one(bid, args):
    work = tempfile.mkdtemp(prefix="evb_")
    copy = os.path.join(work, "repo")
    res = {"id": bid}
    try:
        meta = json.load(open(f"{V}/seeded/{bid}/meta.json"))
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        demo = os.path.join(work, "demo")
        shutil.copytree(f"{V}/seeded/{bid}", demo)
        e = env_for(copy)
        p = subprocess.run(["bash", demo + "/demo.sh"], cwd=copy, env=e, capture_output=True, text=True)
        res["demo_clean"] = p.returncode
        if p.returncode:
            res["demo_clean_out"] = (p.stdout + p.stderr)[-600:]
        a = subprocess.run(["git", "apply", f"{V}/seeded/{bid}/patch.diff"], cwd=copy, capture_output=True, text=True)
        if a.returncode:
            res["apply"] = a.stderr
            return res
        p = subprocess.run(["bash", demo + "/demo.sh"], cwd=copy, env=e, capture_output=True, text=True)
        res["demo_bug"] = p.returncode
        res["demo_out"] = (p.stdout + p.stderr)[-300:]
        if args.tests:
            res["tests_missing"] = run_tests(copy, work)
        checks = {"own": [meta["property"]], "all": [f"C{i:02d}" for i in range(1, args.ncheck + 1)]}.get(args.checks, args.checks.split(","))
        vcopy = os.path.join(work, "verif")
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "--exclude", "evidence", V + "/", vcopy]) if shutil.which("rsync") else subprocess.run(f"mkdir {vcopy} && cd {V} && tar cf - --exclude=.git --exclude=./seeded --exclude=./evidence . | tar xf - -C {vcopy}", shell=True)
        res["checks"] = {}
        for c in checks:
            e = env_for(copy)
            e["VMON_WORKERS"] = str(max(1, 8 // args.jobs))
            p = subprocess.run(["python3", "run_check.py", c, args.tier], cwd=vcopy, env=e, capture_output=True, text=True)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            res["checks"][c] = (p.returncode, len(v))
            if p.returncode and args.verbose:
                res.setdefault("out", {})[c] = p.stdout[-1500:] + p.stderr[-500:]
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("--no-tests", dest="tests", action="store_false")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--ncheck", type=int, default=20)
    ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()
    ids = args.ids if args.ids != ["all"] else sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(args.jobs) as ex:
        for r in ex.map(lambda b: one(b, args), ids):
            ok = r.get("demo_clean") == 0 and r.get("demo_bug") not in (0, None) and not r.get("tests_missing")
            caught = [c for c, (rc, n) in r.get("checks", {}).items() if rc == 1 and n]
            print(("VALID " if ok else "INVALID"), r["id"], "caught by", caught, flush=True)
            if not ok or args.verbose:
                print(json.dumps(r, indent=1), flush=True)


main()
