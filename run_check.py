"""Run one check: run_check.py C01 quick|thorough [--replay FILE] [--only i,j]"""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"


def child(args):
    sys.path.insert(0, ROOT)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    from vmon import common

    replay = only = None
    rest = args[2:]
    if rest and rest[0] == "--replay":
        replay = rest[1]
    if rest and rest[0] == "--only":
        only = [int(x) for x in rest[1].split(",")]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    return common.main(args[0], tier, replay, only)


def parent(args):
    tmp = tempfile.mkdtemp(prefix="vmon_run_")
    env = dict(os.environ)
    env.update(
        VMON_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        MPLBACKEND="Agg", TQDM_DISABLE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        VMON_SCRATCH=tmp, PYTHONHASHSEED="0", MPLCONFIGDIR=os.path.join(tmp, "mpl"), PYTHONWARNINGS="ignore",
    )
    env["PYTHONPATH"] = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src") + os.pathsep + ROOT
    proc = subprocess.Popen([VENV, os.path.abspath(__file__), *args], env=env, cwd=ROOT, start_new_session=True)

    def stop(*_):
        sys.exit(4)

    signal.signal(signal.SIGTERM, stop)
    try:
        return proc.wait()
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)  # whatever the runs left behind
        except (ProcessLookupError, PermissionError):
            pass
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if os.environ.get("VMON_CHILD"):
        status = child(sys.argv[1:])
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(status)  # no waiting for stuck pools
    sys.exit(parent(sys.argv[1:]))
