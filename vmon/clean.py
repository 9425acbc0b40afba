"""
Results of runs in processes where nothing else ever ran.

``python -m vmon.clean`` reads a pickled list of Setups from stdin, imports the
package once and forks a child per Setup; each child does exactly one run.
"""
import os
import pickle
import subprocess
import sys
import tempfile
import traceback

from .common import ROOT, Harness


def results(setups, timeout=240):
    """List of flat results, one pristine process each."""
    proc = subprocess.run([sys.executable, "-m", "vmon.clean"], input=pickle.dumps(setups), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=os.pathsep.join([ROOT] + sys.path)), timeout=timeout)
    if proc.returncode != 0:
        raise Harness(f"clean process failed: {proc.stderr.decode()[-800:]}")
    return pickle.loads(proc.stdout)


def one(s):
    from . import data as D
    from . import mons as M

    with tempfile.TemporaryDirectory(prefix="vmon_clean_") as folder:
        os.chdir(folder)
        try:
            _, res = D.run(s, folder=folder, carbon_outputs=s.mode == "emis")
            return M.flat(res)
        except Exception:  # pylint: disable=broad-except
            return {"error": traceback.format_exc()[-1500:]}
        finally:
            os.chdir("/")


def main():
    import logging

    import numpy as np

    import ciceroscm  # noqa: F401 pylint: disable=unused-import

    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    setups = pickle.load(sys.stdin.buffer)
    real = os.dup(1)
    os.dup2(2, 1)
    out = []
    for s in setups:
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            with os.fdopen(wfd, "wb") as fw:
                pickle.dump(one(s), fw)
            os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as fr:
            out.append(pickle.load(fr))
        os.waitpid(pid, 0)
    with os.fdopen(real, "wb") as fw:
        pickle.dump(out, fw)


if __name__ == "__main__":
    main()
