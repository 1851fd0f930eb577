"""Mutation campaign: which small source changes survive the repository's tests but are not caught by the checks?

usage: mutate.py --n 400 --seed 0 [--files substring] --out FILE   (works in scratch copies; run it from a copy of /verif)
"""

import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
from threading import local

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "VF_WORKERS": "1", "VF_FAILFAST": "1"}
RELEVANT = {
    "bss/ica.py": "C22 C04 C05 C07 C25 C06 C27 C26 C18 C28",
    "bss/fdica.py": "C01 C22 C04 C07 C08 C05 C19 C25 C06 C09 C27 C26 C18 C28",
    "bss/iva.py": "C01 C22 C14 C04 C07 C08 C05 C19 C25 C06 C27 C26 C18 C28",
    "bss/ilrma.py": "C20 C02 C24 C04 C07 C08 C05 C25 C19 C06 C27 C26 C18 C28",
    "bss/mnmf.py": "C20 C03 C24 C23 C04 C07 C25 C05 C06 C27 C26 C18 C28",
    "bss/ipsdta.py": "C20 C03 C24 C04 C07 C08 C25 C19 C05 C06 C27 C26 C18 C28",
    "bss/cacgmm.py": "C20 C03 C23 C09 C24 C25 C04 C05 C06 C27 C26 C18 C28",
    "bss/pdsbss.py": "C14 C04 C07 C08 C05 C25 C06 C27 C26 C18 C28",
    "bss/admmbss.py": "C14 C04 C07 C08 C05 C25 C06 C27 C26 C18 C28",
    "bss/hva.py": "C14 C04 C07 C08 C05 C25 C06 C27 C26 C18 C28",
    "bss/proxbss.py": "C14 C04 C07 C08 C05 C25 C06 C27 C26 C18 C28",
    "bss/base.py": "C05 C04 C27 C26 C18 C28",
    "bss/_update_spatial_model.py": "C12 C01 C02 C19 C06 C27 C26 C18 C28",
    "bss/_": "C19 C15 C09 C10",
    "algorithm/": "C08 C09 C06",
    "linalg/": "C10 C11 C13 C12",
    "special/": "C15",
    "transform/": "C16 C06",
    "io/": "C17",
    "utils/": "C19 C15 C21",
}
SKIP_FN = {"__repr__"}
TLS = local()


def offsets(src):
    o = [0]
    for line in src.splitlines(True):
        o.append(o[-1] + len(line.encode()))
    return o


def mutants(path):
    src = open(path).read()
    raw = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    out = []
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)  # noqa: E731
    text = lambda n: raw[slice(*pos(n))].decode()  # noqa: E731

    def add(n, new, kind):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, kind, n.lineno))

    def between(left, right, olds, new, kind):
        a, b = pos(left)[1], pos(right)[0]
        t = raw[a:b].decode()
        if t.count(olds) == 1:
            i = a + len(t[: t.index(olds)].encode())
            out.append((i, i + len(olds), new, kind, left.lineno))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if isinstance(n, ast.FunctionDef) and n.name in SKIP_FN:
                skip.update(id(x) for x in ast.walk(n))
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.update(id(x) for x in ast.walk(n.body[0]))
        if isinstance(n, (ast.Raise, ast.Assert, ast.ImportFrom, ast.Import)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.FunctionDef):
            for a in [*n.args.args, *n.args.kwonlyargs]:
                if a.annotation:
                    skip.update(id(x) for x in ast.walk(a.annotation))
            if n.returns:
                skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.Call) and text(n.func) in ("warnings.warn", "functools.partial"):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp):
            for A, s, t in ((ast.Add, "+", "-"), (ast.Sub, "-", "+"), (ast.Mult, "*", "/"), (ast.Div, "/", "*")):
                if isinstance(n.op, A):
                    between(n.left, n.right, s, t, "op")
            if isinstance(n.op, (ast.Add, ast.Mult)) and not isinstance(n.left, ast.Constant):
                add(n, text(n.left), "drop-right")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for A, s, t in ((ast.Lt, "<", "<="), (ast.LtE, "<=", "<"), (ast.Gt, ">", ">="), (ast.GtE, ">=", ">"), (ast.Eq, "==", "!=")):
                if isinstance(n.ops[0], A):
                    between(n.left, n.comparators[0], s, t, "cmp")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "bool")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                if v > 0:
                    add(n, str(v - 1), "const")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, text(n.operand), "neg")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("conj", "copy") and not n.args:
                add(n, text(n.func.value), "drop-" + n.func.attr)
            if f in ("np.sum", "np.mean", "np.max", "np.min", "np.maximum", "np.minimum"):
                g = {"np.sum": "np.mean", "np.mean": "np.sum", "np.max": "np.min", "np.min": "np.max", "np.maximum": "np.minimum", "np.minimum": "np.maximum"}[f]
                add(n.func, g, "fn")
            if len(n.args) == 1 and not n.keywords and f in ("flooring_fn", "self.flooring_fn", "np.sqrt", "np.real", "np.abs", "np.log", "to_psd"):
                add(n, "(" + text(n.args[0]) + ")", "drop-call")
            if len(n.args) == 2 and text(n.args[0]) != text(n.args[1]) and f not in ("super", "isinstance", "hasattr", "range"):
                out.append((pos(n.args[0])[0], pos(n.args[1])[1], text(n.args[1]) + ", " + text(n.args[0]), "swap-args", n.lineno))
            for k in n.keywords:
                if k.arg and k.arg not in ("axis",) and isinstance(k.value, ast.Name):
                    pass
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            t = n.targets[0] if isinstance(n, ast.Assign) else None
            if t is None or isinstance(t, ast.Attribute) or isinstance(t, ast.Subscript):
                add(n, "pass", "drop-stmt")
            elif isinstance(t, ast.Name) and any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(n.value)):
                add(n, "pass", "drop-stmt")
        elif isinstance(n, ast.If):
            add(n.test, "not (" + text(n.test) + ")", "negate")
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            s, t = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], s, t, "boolop")
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2 and all(isinstance(e, ast.Name) for e in n.elts) and isinstance(n.ctx, ast.Load):
            add(n, ", ".join(text(e) for e in n.elts[::-1]), "swap-tuple")
    return [(a, b, new, kind, line) for a, b, new, kind, line in out]


GUARDS = {
    "frames": "any(x.ndim and x.shape[-1] > 256 for x in A)",
    "odd": "any(x.ndim and x.shape[-1] > 20 and x.shape[-1] % 2 for x in A)",
    "four": "any(x.ndim > 1 and (x.shape[-2:] == (4, 4) or x.shape[0] == 4) for x in A)",
    "one": "any(x.ndim > 1 and (x.shape[-2:] == (1, 1) or x.shape[0] == 1) for x in A)",
    "loud": "any(x.size and x.dtype.kind in 'fc' and abs(x).max() > 1e3 for x in A)",
    "quiet": "any(x.ndim > 1 and x.size and x.dtype.kind in 'fc' and abs(x).max() < 2e-3 for x in A)",
    "zero": "any(x.ndim > 1 and x.size and x.dtype.kind in 'fc' and not abs(x).sum(axis=-1).all() for x in A)",
    "single": "any(x.dtype.char in 'fF' for x in A)",
    "layout": "any(x.ndim > 1 and x.size > 40 and not x.flags.c_contiguous and not x.flags.writeable for x in A)",
    "late": "S is not None and getattr(S, 'loss', None) and len(S.loss) > 6",
    "noloss": "S is not None and not getattr(S, 'record_loss', True)",
    "nocallback": "S is not None and getattr(S, 'callbacks', 1) is None",
    "ref": "S is not None and getattr(S, 'reference_id', 0) != 0",
    "floor": "S is not None and getattr(getattr(S, 'flooring_fn', None), 'keywords', {}).get('eps', 0) != 1e-10",
    "reused": "S is not None and _vf_again(S)",
}
HELP = """

def _vf_again(S, seen={}):
    import weakref

    k = id(S)
    x = getattr(S, "input", None)
    if x is None:
        return False
    if k not in seen or seen[k][0]() is not S:
        seen[k] = (weakref.ref(S), x)
    return seen[k][1] is not x


def _vf_guard(L):
    import numpy

    A = [x for x in L.values() if isinstance(x, numpy.ndarray)]
    S = L.get("self")
    A += [x for x in vars(S).values() if isinstance(x, numpy.ndarray)] if S is not None else []
    return bool(COND)
"""


def guarded(path, rng):
    """mutants that act only under a condition on the data, the object's options or its history"""
    src = open(path).read()
    raw = src.encode()
    off = offsets(src)
    stmts = []
    for fn in ast.walk(ast.parse(src)):
        if isinstance(fn, ast.FunctionDef):
            for n in ast.walk(fn):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Return)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    has_self = bool(fn.args.args) and fn.args.args[0].arg == "self"
                    stmts.append((off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset, n.col_offset, has_self))
    for a, b, new, kind, line in mutants(path):
        box = [s for s in stmts if s[0] <= a and b <= s[1]]
        if not box:
            continue
        s0, s1, col, has_self = min(box, key=lambda s: s[1] - s[0])
        g = rng.choice(sorted(k for k, v in GUARDS.items() if has_self or not v.startswith("S ")))
        try:
            mut = ast.unparse(ast.parse((raw[s0:a] + new.encode() + raw[b:s1]).decode()))
            old = ast.unparse(ast.parse(raw[s0:s1].decode()))
        except SyntaxError:
            continue
        ind = "\n" + " " * col
        body = "if _vf_guard(locals()):%s    %s%selse:%s    %s" % (ind, mut.replace("\n", ind + "    "), ind, ind, old.replace("\n", ind + "    "))
        if mut != old:
            yield s0, s1, body, g + ":" + kind, line


def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def work(job):
    rel, a, b, new, kind, line, args = job
    if not hasattr(TLS, "tree"):
        TLS.tree = os.path.join(tempfile.mkdtemp(prefix="mut-", dir=args.scratch), "repo")
        shutil.copytree("/repo", TLS.tree, symlinks=True)
    path = os.path.join(TLS.tree, "ssspy", rel)
    orig = open(path).read()
    raw = orig.encode()
    m = (raw[:a] + new.encode() + raw[b:]).decode()
    if "_vf_guard" in new:
        m += HELP.replace("COND", GUARDS[kind.split(":")[0]])
    r = dict(file=rel, line=line, kind=kind, old=raw[a:b].decode()[:200], new=new[:400])
    try:
        compile(m, path, "exec")
    except SyntaxError:
        r["result"] = "syntax"
        return r
    try:
        open(path, "w").write(m)
        env = {**ENV, "PYTHONPATH": "/opt/vp/plugins"}
        rc, out = sh([PY, "-m", "pytest", "tests/package", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_network_marker", "-m", "not network"], TLS.tree, 120, env)
        if rc:
            r["result"] = "tests"
            return r
        checks = next(v for k, v in RELEVANT.items() if rel.startswith(k)).split()
        env = {**ENV, "VF_REPO": TLS.tree, "VERIF_SEED": "1"}
        for c in checks:
            rc, out = sh([PY, os.path.join(HERE, "run.py"), c], HERE, 600, env)
            if rc:
                r["result"] = c if rc == 1 else "%s(rc%d)" % (c, rc)
                return r
        r["result"] = "MISSED"
        return r
    finally:
        open(path, "w").write(orig)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--files", default="")
    ap.add_argument("--out", required=True)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--scratch", default="/tmp/mut")
    ap.add_argument("--guarded", action="store_true", help="mutants that act only under a condition")
    a = ap.parse_args()
    jobs = []
    root = "/repo/ssspy"
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".py") and f not in ("_version.py",):
                rel = os.path.relpath(os.path.join(d, f), root)
                if a.files not in rel or not any(rel.startswith(k) for k in RELEVANT):
                    continue
                p = os.path.join(d, f)
                jobs += [(rel, *m, a) for m in (guarded(p, random.Random("%s%s" % (a.seed, rel))) if a.guarded else mutants(p))]
    print(len(jobs), "mutants")
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[: a.n]
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as fo:
        for r in (f.result() for f in as_completed([ex.submit(work, j) for j in jobs])):
            fo.write(json.dumps(r) + "\n")
            fo.flush()
    shutil.rmtree(a.scratch, ignore_errors=True)
