"""Confirm a planted bug and store it in /verif/seeded/<id>/.

usage: plant.py SPEC.py [ID...]   SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old, new[, nth])], demo, needs, breaks)]
Each bug is applied in a scratch copy of /repo; it is kept only when the stable tests still pass and the demo tells the two trees apart.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
DEMO_SH = """#!/bin/bash
# run with cwd /repo; exit 0 when the property holds here
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def stable(cwd):
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = sh([PY, "-m", "pytest", "tests/package", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_network_marker", "-m", "not network"], cwd)
    return rc, out[-600:], base


def one(bug, checks):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = os.path.join(tmp, "repo")
        shutil.copytree("/repo", tree, symlinks=True)
        ENV["PYTHONPATH"] = "/opt/vp/plugins"
        path = os.path.join(tree, bug["file"])
        s = open(path).read()
        for e in bug["edits"]:
            old, new = e[0], e[1]
            nth = e[2] if len(e) > 2 else None
            n = s.count(old)
            if n == 0 or (n > 1 and nth is None):
                return bug["id"], "edit matches %d times: %r" % (n, old)
            parts = s.split(old)
            k = nth or 0
            s = old.join(parts[: k + 1]) + new + old.join(parts[k + 1 :])
        open(path, "w").write(s)
        _, diff = sh(["git", "diff"], tree)
        # only original lines may change
        for h in [x for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]:
            rc, _ = sh(["bash", "-c", "git show 590de08:%s | grep -qFx -- \"$1\"" % bug["file"], "_", h[1:]], tree)
            if rc:
                return bug["id"], "changes a line that is not original: " + h
        out = os.path.join(tmp, "seed")
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], "/repo", 300)
        if rc:
            return bug["id"], "demo fails on the unchanged tree: " + o[-800:]
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], tree, 300)
        if not rc:
            return bug["id"], "demo passes with the change"
        rc, o, _ = stable(tree)
        if rc:
            return bug["id"], "tests fail: " + o
        dst = os.path.join(HERE, "seeded", bug["id"])
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        res = []
        for c in [bug["prop"]] + checks:
            rc, o = sh([PY, os.path.join(HERE, "run.py"), c, "--workers", "2"], HERE) if False else _check(c, tree)
            res.append("%s:%s" % (c, {0: "missed", 1: "caught"}.get(rc, "rc%d" % rc)))
        return bug["id"], "KEPT " + " ".join(res)
    finally:
        shutil.rmtree(tmp)


def _check(c, tree):
    env = {**ENV, "VF_REPO": tree, "VF_WORKERS": "2", "VF_EVIDENCE": os.path.join(tree, ".evidence"), "VERIF_SEED": "1"}
    env.pop("PYTHONPATH", None)
    p = subprocess.run([PY, os.path.join(HERE, "run.py"), c], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
    return p.returncode, p.stdout


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    bugs = [b for b in bugs if not want or b["id"] in want]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda b: one(b, []), bugs):
            print(*r, flush=True)
