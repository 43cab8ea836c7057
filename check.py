#!/usr/bin/env python3
"""Run one check: check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Starts the simulator in a clean scratch directory and environment, with the package imported from /repo."""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    scratch = tempfile.mkdtemp(prefix="verif_")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "PYTHON", "OMP_", "MKL_", "OPENBLAS_"))}
    env.update(
        PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), NUMBA_THREADING_LAYER="workqueue", NUMBA_NUM_THREADS="2",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"), TMPDIR=scratch,
        VERIF_SCRATCH=scratch, VERIF_REPO=REPO, TQDM_DISABLE="1",
    )
    p = None

    def stop(sig, frame):
        if p is not None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    rc = 3
    try:
        p = subprocess.Popen([PY, "-m", "sim.main"] + sys.argv[1:], cwd=HERE, env=env, start_new_session=True)
        rc = p.wait()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc >= 0 else 3


if __name__ == "__main__":
    sys.exit(main())
