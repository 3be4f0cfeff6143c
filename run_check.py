#!/usr/bin/env python3
"""Run the property check of one property: run_check.py ID [--tier T] [--replay FILE]

Exit 0: the property held on everything explored, 1: violated (with a VIOLATION
line), 2: the machinery itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")

ENV = {
    "NUMBA_DISABLE_JIT": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "CUDA_VISIBLE_DEVICES": "",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "TQDM_DISABLE": "1",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/tmp/verif-no-hypothesis-db",
}


def main():
    if os.environ.get("VERIF_INNER") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env["VERIF_INNER"] = "1"
        sys.stdout.flush()
        os.execve(PY, [PY, "-P", os.path.abspath(__file__)] + sys.argv[1:], env)
    # modules are always compiled from /repo's current text
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from pbt import runner

    sys.exit(runner.main(sys.argv[1:], HERE, REPO))


if __name__ == "__main__":
    main()
