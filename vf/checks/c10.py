"""C10: linear-algebra kernels satisfy their defining equations."""

import numpy as np

from .. import data, grid, zoo
from ..core import rng_of
from ..intercept import interpose

RULE = (
    "distinct (kernel, problem type, batch shape, size, field, conditioning class) whose result was checked "
    "against the defining equations; calls made inside real separations are observed through interposition"
)
ASSUMPTIONS = ["residual limits are relative and allow for condition numbers up to 1e6"]
KERNELS = [
    "eigh", "eigh_gen", "eigh2", "eigh2_gen", "inv2", "sqrtmh", "invsqrtmh", "gmeanmh", "solve", "cbrt",
    "solve_cubic", "solve_cubic4", "quadratic",
]  # fmt: skip
REQUIRED = {"mixed fields": 100, "broadcast batches": 100, **{k: 100 for k in ("eigh", "eigh_gen", "eigh2_gen", "inv2", "sqrtmh", "invsqrtmh", "gmeanmh", "solve", "cbrt", "cubic", "quadratic")}}  # fmt: skip


def cases(tier, seed):
    reps = 500 if tier == "quick" else 4000
    for k in KERNELS:
        for r in range(reps):
            yield dict(kernel=k, seed=seed * 10000 + r, n=20)
    sit = [("AuxIVA", "IP2"), ("AuxLaplaceIVA", "ISS2"), ("GaussMNMF", None), ("FastGaussMNMF", "IP2"), ("GaussIPSDTA", None),
           ("TIPSDTA", None), ("GaussILRMA", "IP2"), ("AuxIVA", "IP1"), ("GaussILRMA", "IPA"), ("CACGMM", None), ("TILRMA", "ISS2"), ("ADMMBSS", None)]  # fmt: skip
    for r in range(6 if tier == "quick" else 60):
        for cls, alg in sit:
            c = grid.case(cls, alg, "C10", seed, r, it=3, restore=False)
            c["kernel"] = "in-situ"
            yield c


def H(A):
    return np.swapaxes(A, -1, -2).conj()


def eq(rec, a, b, key, msg, rtol=1e-8, counter=None):
    """batchwise relative comparison of matrices"""
    a, b = np.asarray(a), np.asarray(b)
    if not rec.check(a.shape == b.shape, key, "%s shape %s expected %s" % (msg, a.shape, b.shape), counter):
        return
    rec.close(a, b, key, rtol=max(rtol, PREC[0]), msg=msg, counter=counter)


PREC = [0.0]  # least tolerance: raised for single-precision arguments


def draw(r, n=None, real=None, cond=None):
    shape = [(), (1,), (4,), (2, 3), (2, 1, 2)][int(r.integers(5))]
    if r.integers(40) == 0:  # large batches
        shape = [(int(r.integers(60, 700)),), (3, int(r.integers(30, 100)))][int(r.integers(2))]
    n = (int(r.integers(1, 6)) if r.integers(40) else int(r.integers(6, 13))) if n is None else n
    real = bool(r.integers(2)) if real is None else real
    cond = [1.0, 10.0, 1e3, 1e6][int(r.integers(4))] if cond is None else cond
    scale = 10.0 ** (r.uniform(-6, 6) if r.integers(4) else r.uniform(-14, 14))
    return shape, n, real, cond, scale


def psd(r, shape, n, real, cond, scale):
    A = r.standard_normal(shape + (n, n))
    if not real:
        A = A + 1j * r.standard_normal(shape + (n, n))
    Q, _ = np.linalg.qr(A)
    lam = np.exp(r.uniform(0, np.log(cond), size=shape + (n,)))
    M = (Q * lam[..., None, :]) @ H(Q) * scale
    return (M + H(M)) / 2


def indefinite(r, shape, n, real, scale):
    A = r.standard_normal(shape + (n, n))
    if not real:
        A = A + 1j * r.standard_normal(shape + (n, n))
    if r.integers(4) == 0:  # repeated eigenvalues
        Q, _ = np.linalg.qr(A)
        return (Q * r.integers(-1, 2, size=shape + (n,))[..., None, :]) @ H(Q) * scale
    return (A + H(A)) / 2 * scale


def generic(r, shape, n, real, scale):
    A = r.standard_normal(shape + (n, n)) + 2 * np.eye(n)
    if not real:
        A = A + 1j * r.standard_normal(shape + (n, n))
    return A * scale


def layout(r, A):
    """the same values in another memory layout"""
    k = int(r.integers(4))
    if k == 1:
        return np.asfortranarray(A)
    if k == 2:
        return np.ascontiguousarray(A[..., ::-1])[..., ::-1]
    if k == 3:
        return np.ascontiguousarray(np.swapaxes(A, -1, -2)).swapaxes(-1, -2)
    return A


def check_eigh(rec, A, B, type, lam, z, key, cond=1.0):
    n = A.shape[-1]
    ok = rec.check(lam.shape == A.shape[:-1] and z.shape == A.shape, key, "%s shapes %s %s" % (key, lam.shape, z.shape))
    if not ok:
        return
    rec.check(np.isrealobj(lam), key, key + ": complex eigenvalues")
    s = np.abs(lam).max(axis=-1, keepdims=True)
    rec.check(np.all(np.diff(lam, axis=-1) >= -1e-9 * s), key, key + ": eigenvalues not ascending")
    tol = max(PREC[0], 1e-9 * max(1.0, cond**0.5))
    lz = lam[..., None, :] * z
    nA = np.linalg.norm(A, axis=(-2, -1), keepdims=True)
    nz = np.linalg.norm(z, axis=(-2, -1), keepdims=True)
    if B is None:
        L, R, sc = A @ z, lz, nA * nz
        N = H(z) @ z
    else:
        nB = np.linalg.norm(B, axis=(-2, -1), keepdims=True)
        if type == 1:
            L, R = A @ z, B @ lz
            sc = (nA + nB * s[..., None]) * nz
            N = H(z) @ B @ z
        elif type == 2:
            L, R = A @ B @ z, lz
            sc = (nA * nB + s[..., None]) * nz
            N = H(z) @ B @ z
        else:
            L, R = B @ A @ z, lz
            sc = (nA * nB + s[..., None]) * nz
            N = H(z) @ np.linalg.inv(B) @ z
    sc = np.maximum(np.asarray(sc, float), 1e-200)
    err = np.max(np.abs(L - R) / sc)
    rec.check(err <= tol, key, "%s type %s: eigen equation error %.3g" % (key, type, err))
    eq(rec, N, np.broadcast_to(np.eye(n), N.shape), key, "%s type %s: normalization" % (key, type), rtol=1e-8 * max(1, cond**0.5))


def check_gmean(rec, A, B, type, G, key="gmeanmh", tol=1e-8):
    sc = np.abs(G).max()
    eq(rec, G, H(G), key, "geometric mean is not Hermitian", rtol=tol)
    w = np.linalg.eigvalsh((G + H(G)) / 2)
    rec.check(np.all(w > 0), key, "geometric mean is not positive definite")
    if type == 1:
        L, R = G @ np.linalg.inv(A) @ G, B
    elif type == 2:
        L, R = G @ A @ G, B
    else:
        L, R = G @ B @ G, A
    del sc
    n = np.abs(R).max(axis=(-2, -1), keepdims=True)
    eq(rec, L / n, R / n, key, "geometric mean type %d: defining equation" % type, rtol=tol)


def check_cubic(rec, A, B, C, x, key="cubic", tol=1e-9):
    """backward error: the monic polynomial with these roots has the given coefficients"""
    if not rec.check(x.shape == (3,) + np.shape(A), key, "root array shape %s" % (x.shape,)):
        return
    s = np.maximum(np.abs(A), np.maximum(np.abs(B) ** 0.5, np.abs(C) ** (1 / 3)))
    s = np.where(s == 0, 1, s)
    y = x / s
    e1 = y.sum(axis=0) + A / s
    e2 = y[0] * y[1] + y[1] * y[2] + y[0] * y[2] - B / s**2
    e3 = y[0] * y[1] * y[2] + C / s**3
    err = max(np.max(np.abs(e)) for e in (e1, e2, e3)) if np.all(np.isfinite(x)) else np.inf
    rec.close(np.array([err]), np.array([0.0]), key, atol=tol, msg="cubic backward error")


def run(c, rec):
    import ssspy.linalg as la

    k = c["kernel"]
    if k == "in-situ":
        return in_situ(c, rec)
    r = rng_of("C10", k, c["seed"])
    for i in range(c["n"]):
        shape, n, real, cond, scale = draw(r, n=2 if k in ("eigh2", "eigh2_gen", "inv2") else None)
        single = k not in ("cbrt", "solve_cubic", "solve_cubic4", "invsqrtmh") and r.integers(8) == 0
        PREC[0] = 2e-3 if single else 0.0
        if single:
            cond, scale = min(cond, 10.0), 10.0 ** r.uniform(-2, 2)
            rec.count("single precision")
        cast = lambda a: a.astype(np.float32 if np.isrealobj(a) else np.complex64) if single else a  # noqa: E731
        sig = (k, shape, n, real, cond, bool(single))
        if k in ("eigh", "eigh2"):
            A = layout(r, cast(indefinite(r, shape, n, real, scale)))
            with rec.sut(k):
                lam, z = getattr(la, k)(A)
            check_eigh(rec, A, None, None, lam, z, "eigh")
        elif k in ("eigh_gen", "eigh2_gen"):
            A = indefinite(r, shape, n, real, scale) if r.integers(2) else psd(r, shape, n, real, cond, scale)
            mixed = bool(r.integers(4) == 0)  # one real, one complex matrix
            bshape = [shape, shape, shape[1:], (1,) * len(shape)][int(r.integers(4))]  # broadcast batch
            B = psd(r, bshape, n, real != mixed, cond, 10.0 ** r.uniform(-3, 3))
            if r.integers(4) == 0 and bshape == shape:  # the other way round
                A, bshape = A[(slice(0, 1),) * len(shape)], None
            A, B = layout(r, cast(A)), layout(r, cast(B))
            t = int(r.integers(0, 4))
            sig += (mixed, bshape)
            if mixed:
                rec.count("mixed fields")
            if bshape != shape:
                rec.count("broadcast batches")
            with rec.sut(k):
                lam, z = getattr(la, k[:-4])(A, B) if t == 0 else getattr(la, k[:-4])(A, B, type=t)
            A, B = (a.copy() for a in np.broadcast_arrays(A, B))
            check_eigh(rec, A, B, t or 1, lam, z, k, cond)
            sig += (t,)
            if i == 0:
                rec.expect_raise(lambda: getattr(la, k[:-4])(A, B, type=4), ValueError, k, "type=4")
        elif k == "inv2":
            X = generic(r, shape, 2, real, scale) if r.integers(2) else psd(r, shape, 2, real, cond, scale)
            X = layout(r, cast(X))
            with rec.sut(k):
                Y = la.inv2(X)
            kap = np.linalg.cond(X)
            if np.max(kap) < (1e2 if single else 1e7):
                eye = np.broadcast_to(np.eye(2), X.shape)
                eq(rec, X @ Y, eye, k, "X inv2(X)", rtol=1e-8)
                eq(rec, Y, np.linalg.inv(X), k, "inv2 vs general inverse", rtol=1e-8)
        elif k == "sqrtmh":
            X = layout(r, cast(psd(r, shape, n, real, cond, scale)))
            with rec.sut(k):
                S = la.sqrtmh(X)
            eq(rec, S @ S, X, k, "S S", rtol=1e-9)
            eq(rec, S, H(S), k, "S Hermitian", rtol=1e-9)
            rec.check(np.all(np.linalg.eigvalsh((S + H(S)) / 2) > 0), k, "square root is not positive definite")
            rec.check(np.isrealobj(S) == real, k, "square root field")
        elif k == "invsqrtmh":
            X = psd(r, shape, n, real, cond, scale)
            fl = [None, "max", "add"][int(r.integers(3))]
            with rec.sut(k):
                if fl is None:
                    S = la.invsqrtmh(X)
                elif fl == "max":
                    eps = float(np.sqrt(scale) * 10.0 ** r.uniform(-1, 1))
                    S = la.invsqrtmh(X, flooring_fn=lambda x: np.maximum(x, eps))
                else:
                    eps = float(np.sqrt(scale))
                    S = la.invsqrtmh(X, flooring_fn=lambda x: x + eps)
            w, P = np.linalg.eigh(X)
            w = np.sqrt(w)
            w = w if fl is None else (np.maximum(w, eps) if fl == "max" else w + eps)
            eq(rec, S, (P / w[..., None, :]) @ H(P), k, "inverse square root (%s)" % fl, rtol=1e-8)
            if fl is None:
                eq(rec, S @ X @ S, np.broadcast_to(np.eye(n), X.shape), k, "S X S", rtol=1e-8)
            sig += (fl,)
        elif k == "gmeanmh":
            A = psd(r, shape, n, real, min(cond, 1e3), scale)
            mixed = bool(r.integers(4) == 0)
            bshape = [shape, shape, shape[1:], (1,) * len(shape)][int(r.integers(4))]
            B = psd(r, bshape, n, real != mixed, min(cond, 1e3), 10.0 ** r.uniform(-3, 3))
            A, B = layout(r, cast(A)), layout(r, cast(B))
            sig += (mixed, bshape)
            t = int(r.integers(0, 4))
            with rec.sut(k):
                G = la.gmeanmh(A, B) if t == 0 else la.gmeanmh(A, B, type=t)
            A, B = (a.copy() for a in np.broadcast_arrays(A, B))
            check_gmean(rec, A, B, t or 1, G)
            if t == 1:
                with rec.sut(k):
                    G2 = la.gmeanmh(B, A)
                eq(rec, G2, G, k, "geometric mean is not symmetric", rtol=1e-8)
            sig += (t,)
            if i == 0:
                rec.expect_raise(lambda: la.gmeanmh(A, B, type=0), ValueError, k, "type=0")
        elif k == "solve":
            A = generic(r, shape, n, real, scale)
            m = [None, 1, 3, n][int(r.integers(4))]
            if m is not None and shape == ():
                m = None
            b = r.standard_normal(shape + ((n,) if m is None else (n, m)))
            if r.integers(2):
                b = b + 1j * r.standard_normal(b.shape)
            A, b = layout(r, cast(A)), cast(b)
            with rec.sut(k):
                x = la.solve(A, b)
            if np.max(np.linalg.cond(A)) < (1e2 if single else 1e7) and rec.check(x.shape == b.shape, k, "solve shape %s" % (x.shape,)):
                Ax = np.einsum("...ij,...j->...i", A, x) if m is None else A @ x
                eq(rec, Ax, b, k, "A solve(A, b)", rtol=1e-8)
            sig += (m,)
        elif k == "cbrt":
            x = r.standard_normal(shape + (5,)) * 10.0 ** r.uniform(-80, 80, size=shape + (5,))
            if r.integers(3) == 0:
                x = np.where(r.random(x.shape) < 0.3, 0.0, x)
            if not real:
                x = x * np.exp(1j * r.uniform(-np.pi, np.pi, size=x.shape))
            with rec.sut(k):
                y = la.cbrt(x)
            rec.check(np.isrealobj(y) == real and y.shape == x.shape, k, "cbrt type/shape")
            d = np.where(x == 0, 1, x)
            eq(rec, np.where(x == 0, 1 + y, (y / np.abs(d) ** (1 / 3)) ** 3 / (d / np.abs(d))), np.ones(x.shape) + 0 * y, k, "cube of cbrt", rtol=1e-10)
        elif k in ("solve_cubic", "solve_cubic4"):
            cubic(r, rec, la, k == "solve_cubic4")
            sig = (k, real, i)
        elif k == "quadratic":
            A = generic(r, shape, n, real, scale)
            X = r.standard_normal(([shape, shape, shape[1:], (1,) * len(shape)][int(r.integers(4))]) + (n,))
            if r.integers(2):
                X = X + 1j * r.standard_normal(X.shape)
            if r.integers(4) == 0:
                A = A[(slice(0, 1),) * len(shape)]
            A, X = layout(r, cast(A)), cast(X)
            with rec.sut(k):
                q = la.quadratic(X, A)
            want = np.einsum("...i,...ij,...j->...", X.conj(), A, X)
            rec.close(q, want, k, rtol=max(1e-10, PREC[0]), scale=np.abs(A).max() * np.max(np.abs(X)) ** 2, msg="quadratic form")
        rec.nontrivial(*sig)
        if i == 0:
            rec.sample({"kernel": k, "signature": [str(s) for s in sig]})


def cubic(r, rec, la, four):
    m = int(r.integers(1, 6))
    mode = int(r.integers(7))
    s = 10.0 ** r.uniform(-3, 3)
    if mode == 0:
        A, B, C = (r.standard_normal(m) * 10.0 ** r.uniform(-3, 3, size=m) for _ in range(3))
    elif mode == 1:  # three real roots
        x = r.standard_normal((3, m)) * s
        A, B, C = -x.sum(0), x[0] * x[1] + x[1] * x[2] + x[0] * x[2], -x.prod(0)
    elif mode == 2:  # double root
        a, b = r.integers(-4, 5, size=(2, m)).astype(float)
        A, B, C = -(2 * a + b), a * a + 2 * a * b, -a * a * b
    elif mode == 3:  # triple root
        a = r.integers(-4, 5, size=m).astype(float)
        A, B, C = -3 * a, 3 * a * a, -(a**3)
    elif mode == 4:  # pure powers
        z = np.zeros(m)
        k = int(r.integers(3))
        A, B, C = [(z, z, r.standard_normal(m) * s), (z, r.standard_normal(m) * s, z), (r.standard_normal(m) * s, z, z)][k]
    elif mode == 5:  # one real, two complex, widely spread
        a, re, im = r.standard_normal((3, m)) * 10.0 ** r.uniform(-3, 3, size=(3, m))
        A, B, C = -(a + 2 * re), re**2 + im**2 + 2 * a * re, -a * (re**2 + im**2)
    else:  # complex coefficients
        x = data.crandn(r, 3, m) * s
        A, B, C = -x.sum(0), x[0] * x[1] + x[1] * x[2] + x[0] * x[2], -x.prod(0)
    if r.integers(4) == 0:
        A, B, C = (np.broadcast_to(t, (2,) + t.shape).copy() for t in (A, B, C))
    if four:
        d = r.standard_normal(A.shape) + np.where(r.random(A.shape) < 0.5, 2.5, -2.5)
        with rec.sut("solve_cubic"):
            x = la.solve_cubic(d, d * A, d * B, d * C)
            x1 = la.solve_cubic(d, d * A, d * B, d * C, all=False)
        if r.integers(5) == 0:
            d[..., 0] = 0
            rec.expect_raise(lambda: la.solve_cubic(d, A, B, C), np.linalg.LinAlgError, "cubic", "zero leading coefficient")
    else:
        with rec.sut("solve_cubic"):
            x = la.solve_cubic(A, B, C)
            x1 = la.solve_cubic(A, B, C, all=False)
    check_cubic(rec, A, B, C, x)
    if rec.check(x1.shape == A.shape, "cubic", "all=False shape %s" % (x1.shape,)):
        s = np.maximum(np.abs(A), np.maximum(np.abs(B) ** 0.5, np.abs(C) ** (1 / 3)))
        s = np.where(s == 0, 1, s)
        rec.close(((x1 + A) * x1 + B) * x1 / s**3, -C / s**3, "cubic", rtol=0, atol=1e-8, msg="all=False root")
    rec.count("cubic-mode-%d" % mode)


def in_situ(c, rec):
    PREC[0] = 0.0
    import ssspy.linalg as la
    from ssspy.linalg import eigh as _  # noqa: F401

    kap = lambda B: np.max(np.linalg.cond(B))  # noqa: E731
    busy = [False]

    def obs(fn):
        def deco(f):
            def w(*a, **k):
                res = fn(*a, **k)
                if not busy[0] and all(x.size and np.all(np.isfinite(x)) for x in a if isinstance(x, np.ndarray)):
                    busy[0] = True
                    try:
                        f(res, *a, **k)
                    finally:
                        busy[0] = False
                return res

            return w

        return deco

    @obs(la.eigh)
    def eigh(res, A, B=None, type=1):
        if B is None:
            return
        if kap(B) < 1e6:
            rec.count("in-situ")
            check_eigh(rec, A, B, type, res[0], res[1], "in-situ-eigh", 1e6)

    @obs(la.eigh2)
    def eigh2(res, A, B=None, type=1):
        eigh_check(res, A, B, type)

    def eigh_check(res, A, B, type):
        if B is not None and kap(B) < 1e6:
            rec.count("in-situ")
            check_eigh(rec, A, B, type, res[0], res[1], "in-situ-eigh", 1e6)

    @obs(la.inv2)
    def inv2(Y, X):
        if kap(X) < 1e6:
            rec.count("in-situ")
            eq(rec, X @ Y, np.broadcast_to(np.eye(2), X.shape), "in-situ-inv2", "X inv2(X)", rtol=1e-7)

    @obs(la.gmeanmh)
    def gmeanmh(G, A, B, type=1):
        if kap(A) < 1e5 and kap(B) < 1e5:
            rec.count("in-situ")
            check_gmean(rec, A, B, type, G, "in-situ-gmeanmh", tol=1e-5)

    @obs(la.solve)
    def solve(x, a, b):
        if kap(a) < 1e6 and x.shape == b.shape:
            rec.count("in-situ")
            ax = np.einsum("...ij,...j->...i", a, x) if a.ndim == b.ndim + 1 else a @ x
            eq(rec, ax, np.broadcast_to(b, ax.shape), "in-situ-solve", "A x = b", rtol=1e-7)

    spec = c["spec"]
    X = zoo.input_for(spec, c)
    with interpose({la.eigh: eigh, la.eigh2: eigh2, la.inv2: inv2, la.gmeanmh: gmeanmh, la.solve: solve}):
        with rec.sut(spec["cls"] + " call"):
            m = zoo.build(spec)
            m(X, n_iter=c["it"])
    rec.nontrivial("in-situ", spec["cls"], str(spec["kw"]))
