"""C15: softmax, log-sum-exp, floorings and the positive semidefinite projection."""

import functools
import warnings

import numpy as np

from .. import data
from ..core import rng_of

RULE = (
    "distinct (function, shape, axis, keepdims, dtype, magnitude class, flooring) whose result was compared with an "
    "extended-precision reference or with the defining eigenvalue conditions"
)
FNS = ["logsumexp", "softmax", "to_psd", "flooring", "choose"]
REQUIRED = {"logsumexp": 1000, "softmax": 1000, "softmax-sum": 1000, "psd": 1000, "psd-eig": 500, "max": 300, "add": 300, "identity": 100, "choose": 200}


def cases(tier, seed):
    for f in FNS:
        for r in range(9000 if tier == "quick" else 30000):
            yield dict(fn=f, seed=seed * 1000000 + r, n=8)


def run(c, rec):
    r = rng_of("C15", c["fn"], c["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(c["n"]):
            dict(logsumexp=lse, softmax=lse, to_psd=psd, flooring=flooring, choose=choose)[c["fn"]](c["fn"], r, rec)


def draw(r):
    nd = int(r.integers(1, 5))
    shape = tuple(int(v) for v in r.integers(1, 6, size=nd))
    if r.integers(30) == 0:
        shape = shape[:-1] + (int(r.integers(100, 1500)),) if r.integers(2) else (int(r.integers(20, 200)),) + shape[1:]
    mag = float(10.0 ** r.uniform(-3, 5))
    x = r.standard_normal(shape) * mag
    kind = int(r.integers(8))
    if kind == 0:
        x = x + r.choice([-1, 1]) * 10.0 ** r.uniform(3, 8)  # large common offset
    elif kind == 1:
        x = np.round(x / mag * 5).astype(np.int64)
    elif kind == 2:
        x = x / mag * 10.0 ** r.uniform(100, 300)
    elif kind == 3:
        x = np.zeros(shape) + x.flat[0]  # ties
    elif kind == 4:
        m = r.random(shape) < 0.3
        m.flat[0] = False
        x = np.where(m, -np.inf, x)
    elif kind == 5:
        x = x.astype(np.float32)
    return x, kind


def lse(name, r, rec):
    from ssspy.special import logsumexp, softmax

    x, kind = draw(r)
    nd = x.ndim
    opts = [None] + list(range(-nd, nd))
    axis = opts[int(r.integers(len(opts)))]
    if nd >= 2 and r.integers(4) == 0:
        axis = tuple(int(v) for v in r.choice(nd, size=2, replace=False))
    ld = x.astype(np.longdouble)
    vmax = np.max(ld, axis=axis, keepdims=True)
    if not np.all(np.isfinite(vmax)):
        rec.skip("a slice without finite entries")
        return
    e = np.exp(ld - vmax)
    s = np.sum(e, axis=axis, keepdims=True)
    eps = 1e-5 if x.dtype == np.float32 else 1e-13
    x0 = x.copy()
    if name == "logsumexp":
        kw = {}
        keep = bool(r.integers(2))
        if keep or r.integers(2):
            kw["keepdims"] = keep
        if axis is not None or r.integers(2):
            kw["axis"] = axis
        with rec.sut("logsumexp"):
            got = logsumexp(x, **kw)
        full = (np.log(s) + vmax).astype(float)
        want = full if keep else full.reshape(np.sum(x, axis=axis).shape)
        rec.check(np.shape(got) == want.shape, "logsumexp", "shape %s, expected %s for %s axis %s keepdims %s" % (np.shape(got), want.shape, x.shape, axis, keep))
        if np.shape(got) == want.shape:
            rec.check(
                np.all(np.isfinite(got)) and np.all(np.abs(got - want) <= eps * (1 + np.abs(want)) * 4), "logsumexp",
                lambda: "logsumexp(%s, axis=%s) = %s, expected %s" % (x.tolist(), axis, np.asarray(got).tolist(), want.tolist()),
            )  # fmt: skip
        sig = (axis, keep)
    else:
        kw = {} if axis is None and r.integers(2) else dict(axis=axis)
        with rec.sut("softmax"):
            got = softmax(x, **kw)
        want = (e / s).astype(float)
        if rec.check(np.shape(got) == x.shape, "softmax", "shape"):
            rec.close(got, want, "softmax", rtol=0, atol=10 * eps, msg="softmax axis %s shape %s" % (axis, x.shape))
            with np.errstate(all="ignore"):
                big = want > (1e-30 if x.dtype == np.float32 else 1e-290)
                rel = np.max(np.abs(np.where(big, got, 1) / np.where(big, want, 1) - 1))
            rec.check(rel <= (1e-3 if x.dtype == np.float32 else 1e-11), "softmax", lambda: "relative error %.3g" % rel)
            rec.check(np.all(got >= 0), "softmax", "negative")
            rec.close(np.sum(got, axis=axis), np.ones_like(np.sum(x, axis=axis), dtype=float), "softmax-sum", rtol=20 * eps, msg="sum over axis %s" % (axis,))
        sig = (axis,)
    rec.check(np.array_equal(x, x0), name, "argument modified")
    rec.nontrivial(name, x.shape, kind, *sig)


def floor_pick(r):
    from ssspy.special import flooring as fl

    k = int(r.integers(6))
    eps = float(10.0 ** r.uniform(-12, 1))
    if k == 0:
        return "default", {}, lambda w: np.maximum(w, 1e-10)
    if k == 1:
        return "none", dict(flooring_fn=None), lambda w: w
    if k == 2:
        return "max", dict(flooring_fn=functools.partial(fl.max_flooring, eps=eps)), lambda w: np.maximum(w, eps)
    if k == 3:
        return "add", dict(flooring_fn=functools.partial(fl.add_flooring, eps=eps)), lambda w: w + eps
    if k == 4:
        return "identity", dict(flooring_fn=fl.identity), lambda w: w
    return "own", dict(flooring_fn=lambda w: np.maximum(np.abs(w), eps)), lambda w: np.maximum(np.abs(w), eps)


def psd(_, r, rec):
    if r.integers(5) == 0:
        from ssspy.bss._psd import to_psd
    else:
        from ssspy.special import to_psd

    lead = tuple(int(v) for v in r.integers(1, 4, size=int(r.integers(0, 4))))
    n = int(r.integers(1, 6))
    if r.integers(30) == 0:
        lead, n = [((int(r.integers(40, 300)),), n), (lead, int(r.integers(6, 12)))][int(r.integers(2))]
    cplx = bool(r.integers(2))
    scale = 10.0 ** r.uniform(-5, 5)
    kind = int(r.integers(5))
    if kind == 0:  # arbitrary, not Hermitian
        A = data.crandn(r, *lead, n, n) if cplx else r.standard_normal(lead + (n, n))
    elif kind == 1:  # Hermitian indefinite
        A = data.crandn(r, *lead, n, n) if cplx else r.standard_normal(lead + (n, n))
        A = A + np.swapaxes(A, -1, -2).conj()
    elif kind == 2:  # rank one
        v = data.crandn(r, *lead, n, 1) if cplx else r.standard_normal(lead + (n, 1))
        A = v @ np.swapaxes(v, -1, -2).conj()
    elif kind == 3:
        A = data.rand_psd(r, *lead, n, real=not cplx)
    else:
        A = np.zeros(lead + (n, n), dtype=complex if cplx else float)
    A = A * scale
    A0 = A.copy()
    name, kw, fl = floor_pick(r)
    if r.integers(3) == 0:
        kw = dict(kw, axis1=-2, axis2=-1) if r.integers(2) else dict(kw, axis1=len(lead), axis2=len(lead) + 1)
    with rec.sut("to_psd"):
        B = to_psd(A, **kw)
    rec.check(np.array_equal(A, A0), "psd", "argument modified")
    if not rec.check(B.shape == A.shape and np.iscomplexobj(B) == cplx, "psd", "shape or field"):
        return
    H = (A0 + np.swapaxes(A0, -1, -2).conj()) / 2
    w, P = np.linalg.eigh(H)
    fw = fl(w)
    sc = max(np.max(np.abs(fw)), np.max(np.abs(H)), 1e-300)
    want = (P * fw[..., None, :]) @ np.swapaxes(P, -1, -2).conj()
    # a flooring that reflects negative eigenvalues is discontinuous there only in slope: still comparable
    rec.close(B, want, "psd", rtol=1e-9, scale=sc, msg="to_psd with %s flooring" % name)
    rec.check(np.array_equal(B, np.swapaxes(B, -1, -2).conj()), "psd", "result is not exactly Hermitian")
    rec.close(np.sort(np.linalg.eigvalsh(B), axis=-1), np.sort(fw, axis=-1), "psd-eig", rtol=1e-9, scale=sc, msg="eigenvalues")
    rec.nontrivial("to_psd", lead, n, cplx, kind, name)


def flooring(_, r, rec):
    if r.integers(4) == 0:
        from ssspy.bss import _flooring as fl
    else:
        from ssspy.special import flooring as fl

    shape = tuple(int(v) for v in r.integers(1, 6, size=int(r.integers(0, 4))))
    x = np.asarray(r.standard_normal(shape) * 10.0 ** r.uniform(-15, 300))
    if r.integers(3) == 0:
        x = x * 0
    x0 = x.copy()
    eps = 1e-10
    kw = {}
    if r.integers(3):
        eps = float(10.0 ** r.uniform(-300, 3))
        kw = dict(eps=eps)
    with rec.sut("flooring"):
        a, b, i = fl.max_flooring(x, **kw), fl.add_flooring(x, **kw), fl.identity(x)
    rec.check(np.all(a >= eps) and np.array_equal(np.asarray(a)[x0 >= eps], x0[x0 >= eps]) and np.all(np.asarray(a)[x0 < eps] == eps), "max", "max_flooring eps=%g" % eps)
    rec.check(np.array_equal(b, x0 + eps), "add", "add_flooring eps=%g" % eps)
    rec.check(np.array_equal(i, x0), "identity", "identity changed values")
    rec.check(np.array_equal(x, x0), "identity", "argument modified")
    rec.nontrivial("flooring", shape, bool(kw))


def choose(_, r, rec):
    from ssspy.utils.flooring import choose_flooring_fn

    class M:
        pass

    m = M()
    eps = float(10.0 ** r.uniform(-12, 0))
    f = lambda x: np.maximum(x, eps)  # noqa: E731
    g = lambda x: x + eps  # noqa: E731
    x = r.standard_normal(5)
    m.flooring_fn = f
    with rec.sut("choose_flooring_fn"):
        rec.check(np.array_equal(choose_flooring_fn("self", method=m)(x), f(x)), "choose", "'self' must give the method's flooring")
        rec.check(np.array_equal(choose_flooring_fn(method=m)(x), f(x)), "choose", "the default is 'self'")
        rec.check(np.array_equal(choose_flooring_fn(g, method=m)(x), g(x)), "choose", "an explicit function wins over the method's")
        rec.check(np.array_equal(choose_flooring_fn(g)(x), g(x)), "choose", "explicit function")
        rec.check(np.array_equal(choose_flooring_fn(None)(x), x), "choose", "None means no flooring")
        rec.check(np.array_equal(choose_flooring_fn("self")(x), x), "choose", "'self' without a method means no flooring")
        rec.check(np.array_equal(choose_flooring_fn("self", method=M())(x), x), "choose", "'self' of a method without flooring")
    rec.nontrivial("choose", round(np.log10(eps)))
