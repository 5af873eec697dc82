"""Entry point: run.py <property> [quick|thorough]   or   run.py --replay FILE."""

import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
VENV_PYTHON = "/opt/venv/bin/python"


def bootstrap():
    """Re-execute with the interpreter /repo is installed in and a fully pinned environment."""
    if os.environ.get("MC_BOOT") == "1":
        return
    env = dict(os.environ)
    scratch = tempfile.mkdtemp(prefix="qldpc-mc-")
    env.update(
        MC_BOOT="1",
        MC_SCRATCH=scratch,
        PYTHONHASHSEED=env.get("MC_HASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        XDG_CACHE_HOME=os.path.join(scratch, "cache"),
        HOME=scratch,
        PYTHONPATH=ROOT + os.pathsep + "/repo",
    )
    python = VENV_PYTHON if os.path.exists(VENV_PYTHON) else sys.executable
    import shutil
    import subprocess

    try:
        code = subprocess.call([python, os.path.abspath(__file__), *sys.argv[1:]], env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code if code in (0, 1) else 1 if code > 0 else 2)


def main():
    bootstrap()
    from mc import core

    args = sys.argv[1:]
    if args[0] == "--replay":
        sys.exit(core.replay(args[1]))
    prop = args[0].upper()
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    for a in args[2:]:
        if a == "-v":
            verbose = True
        elif a.startswith("--only="):
            only = a[7:]
    sys.exit(core.run_check(prop, tier, only=only, verbose=verbose))


if __name__ == "__main__":
    main()
