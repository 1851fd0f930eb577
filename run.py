#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY-ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything observed.   Exit 1: violated (a VIOLATION line is printed).
Exit 3: inconclusive (a deciding monitor was never reached).  Other exits are harness errors.
"""
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")
PY = "/opt/venv/bin/python"

WANT = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}

if os.environ.get("VF_CHILD") != "1":
    env = dict(os.environ)
    env.update(WANT)
    env["VF_CHILD"] = "1"
    here = os.path.dirname(os.path.abspath(__file__))
    env["PYTHONPATH"] = REPO + os.pathsep + here
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)

from vf.core import main  # noqa: E402

sys.exit(main(sys.argv[1:], REPO))
