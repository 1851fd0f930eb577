"""Behaviour-preserving rewrites of the package, to test that the checks stay quiet.

refactor.py --seed N [--rate R] [--checks C01,...] [--jobs J]
Copies the repository to a scratch folder, rewrites expressions there into mathematically equal ones that round
differently, runs the repository's tests and then the checks against the copy, and removes the copy.
"""

import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def call(fn, *args, **kw):
    f = ast.parse(fn, mode="eval").body
    return ast.Call(f, list(args), [ast.keyword(k, v) for k, v in kw.items()])


def is_np(node, name):
    return (
        isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name)
        and node.func.value.id == "np" and node.func.attr == name
    )  # fmt: skip


class Rewrite(ast.NodeTransformer):
    def __init__(self, rng, rate):
        self.rng, self.rate, self.count, self.kinds = rng, rate, 0, {}

    def go(self, kind):
        ok = self.rng.random() < self.rate
        if ok:
            self.count += 1
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
        return ok

    def visit_Call(self, n):
        self.generic_visit(n)
        kw = {k.arg: k.value for k in n.keywords}
        if is_np(n, "mean") and len(n.args) == 1 and set(kw) <= {"axis", "keepdims"} and "axis" in kw and not isinstance(kw["axis"], ast.Tuple):
            if self.go("mean"):
                size = ast.Subscript(call("np.shape", n.args[0]), kw["axis"], ast.Load())
                return ast.BinOp(call("np.sum", n.args[0], **kw), ast.Div(), size)
        if is_np(n, "sqrt") and len(n.args) == 1 and isinstance(n.args[0], ast.BinOp) and isinstance(n.args[0].op, ast.Div) and self.go("sqrt"):
            return ast.BinOp(call("np.sqrt", n.args[0].left), ast.Div(), call("np.sqrt", n.args[0].right))
        if (
            isinstance(n.func, ast.Attribute) and n.func.attr == "norm" and len(n.args) == 1 and set(kw) <= {"axis", "keepdims"}
            and "axis" in kw and self.go("norm")
        ):  # fmt: skip
            a = call("np.abs", n.args[0])
            return call("np.sqrt", call("np.sum", ast.BinOp(a, ast.Mult(), a), **kw))
        if is_np(n, "maximum") and len(n.args) == 2 and not kw and self.go("maximum"):
            return call("np.maximum", n.args[1], n.args[0])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.MatMult):
            if self.go("assoc"):
                return ast.BinOp(n.left.left, ast.MatMult(), ast.BinOp(n.left.right, ast.MatMult(), n.right))
        if isinstance(n.op, ast.Div) and not isinstance(n.right, ast.Constant) and self.go("div"):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        if isinstance(n.op, ast.Pow) and is_np(n.left, "abs") and isinstance(n.right, ast.Constant) and n.right.value == 2:
            if self.go("abs2"):
                x = n.left.args[0]
                return call("np.real", ast.BinOp(x, ast.Mult(), call("np.conj", x)))
        if isinstance(n.op, (ast.Add, ast.Mult)) and not any(
            isinstance(s, (ast.JoinedStr, ast.Tuple, ast.List)) or isinstance(s, ast.Constant) and isinstance(s.value, str)
            for s in (n.left, n.right)
        ):  # fmt: skip
            if isinstance(n.op, ast.Mult) and self.go("commute"):
                return ast.BinOp(n.right, n.op, n.left)
        return n


SKIP = ("io/", "utils/", "transform/whiten.py")  # byte-exact or eigenvector phases at stake


def rewrite(root, seed, rate):
    total, kinds = 0, {}
    for base, _, files in os.walk(os.path.join(root, "ssspy")):
        for f in sorted(files):
            p = os.path.join(base, f)
            rel = os.path.relpath(p, os.path.join(root, "ssspy"))
            if not f.endswith(".py") or rel.startswith(SKIP):
                continue
            src = open(p).read()
            t = Rewrite(random.Random("%s %s" % (seed, rel)), rate)
            tree = ast.fix_missing_locations(t.visit(ast.parse(src)))
            if t.count:
                open(p, "w").write(ast.unparse(tree) + "\n")
            total += t.count
            for k, v in t.kinds.items():
                kinds[k] = kinds.get(k, 0) + v
    return total, kinds


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--rate", type=float, default=0.3)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--checks", default="")
    ap.add_argument("--check-seed", default="1")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    ids = a.checks.split(",") if a.checks else ["C%02d" % i for i in range(1, 29)]
    tmp = tempfile.mkdtemp(prefix="refactor-")
    root = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", root, symlinks=True)
        total, kinds = rewrite(root, a.seed, a.rate)
        print("rewrites:", total, kinds, flush=True)
        r = subprocess.run(
            [PY, "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider",
             "-p", "vp_network_marker", "-m", "not network", "tests/package"],
            cwd=root, env=dict(os.environ, PYTHONPATH=root + ":/opt/vp/plugins"), capture_output=True, text=True,
        )  # fmt: skip
        print("tests:", r.stdout.strip().splitlines()[-1:] or r.stderr[-300:], flush=True)

        def one(i):
            env = dict(os.environ, VF_REPO=root, VF_WORKERS="2")
            r = subprocess.run([PY, os.path.join(HERE, "run.py"), i, "--seed", a.check_seed], cwd=HERE, env=env, capture_output=True, text=True)
            return i, r.returncode, r.stdout

        with ThreadPoolExecutor(a.jobs) as ex:
            for i, rc, out in ex.map(one, ids):
                if rc:
                    lines = [ln for ln in out.splitlines() if not ln.startswith("VIOLATION")]
                    print("ALARM", i, rc, "|".join(lines)[:900], flush=True)
        print("done", flush=True)
    finally:
        if not a.keep and tmp.startswith(tempfile.gettempdir()):
            shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.exit(main())
