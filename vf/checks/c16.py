"""C16: whitening and principal component analysis."""

import numpy as np

from .. import data
from ..core import rng_of

RULE = (
    "distinct (transform, rank and field of the input, channels, conditioning class, gain class, layout, direction) whose "
    "result satisfied the covariance, unitarity and linearity conditions"
)
REQUIRED = {"whiten:2": 100, "whiten:3c": 100, "whiten:3r": 100, "whiten:4": 100, "pca:2": 100, "pca:3c": 100, "pca:3r": 100, "pca:4": 100, "linear": 500, "errors": 50}
ASSUMPTIONS = ["the sample covariance is the uncentred second moment, as in the code and its callers", "covariances conditioned up to 1e6"]
FORMS = ["2", "3c", "3r", "4"]


def cases(tier, seed):
    for t in ("whiten", "pca"):
        for form in FORMS:
            for r in range(3000 if tier == "quick" else 8000):
                yield dict(fn=t, form=form, seed=seed * 1000000 + r, n=3)
    for r in range(20):
        yield dict(fn="errors", seed=seed * 1000 + r)


def draw(r, form, deficient=False):
    """-> input, and a function turning an array of its shape into items (B, C, T)"""
    C = int(r.integers(1, 7))
    T = int(r.integers(2 * C + 2, 60))
    B = int(r.integers(1, 4))
    F = int(r.integers(1, 6))
    big = int(r.integers(6))
    if big == 0:  # more bins than frames
        F = T + int(r.integers(1, 5))
    elif big == 1:  # more batch items than frames
        B = T + int(r.integers(1, 5))
        F = 1
    if r.integers(30) == 0:  # a long recording, many channels, or many bins
        u = int(r.integers(3))
        if u == 0:
            T = int(r.integers(300, 3000))
        elif u == 1:
            C = int(r.integers(7, 13))
            T = max(T, 3 * C)
        else:
            B, F = [(1, int(r.integers(60, 500))), (int(r.integers(60, 500)), 1)][int(r.integers(2))]
    n = {"2": 1, "3c": F, "3r": B, "4": B * F}[form]
    real = form in ("2", "3r")
    rn = (lambda *s: r.standard_normal(s)) if real else (lambda *s: data.crandn(r, *s))
    S = rn(n, C, T)
    cond = float(10.0 ** (r.uniform(0, 2.5) if r.integers(4) else r.uniform(2.5, 4.5)))  # closely spaced microphones
    A = np.linalg.qr(rn(n, C, C))[0] * np.exp(r.uniform(-1, 0, size=(n, 1, C)) * np.log(cond))
    A = A @ np.linalg.qr(rn(n, C, C))[0]
    X = A @ S * 10.0 ** r.uniform(-4, 4)
    if r.integers(3) == 0:
        X = X + np.abs(X).mean() * 0.5  # not centred
    if deficient:
        k = int(r.integers(4))
        if k == 0:  # fewer frames than channels
            X = X[..., : int(r.integers(1, C + 1))]
        elif k == 1:  # a dead channel
            X[int(r.integers(n)), int(r.integers(C))] = 0
        elif k == 2:  # a repeated channel
            X[:, int(r.integers(C))] = X[:, int(r.integers(C))]
        else:  # silence in one item
            X[int(r.integers(n))] = 0
    if form == "2":
        return X[0], lambda Z: Z[None]
    if form == "3c":
        return np.moveaxis(X, 0, 1).copy(), lambda Z: np.moveaxis(Z, 1, 0)
    if form == "3r":
        return X, lambda Z: Z
    return (
        np.moveaxis(X.reshape(B, F, C, X.shape[-1]), 1, 2).copy(),
        lambda Z: np.moveaxis(Z, 2, 1).reshape(B * F, C, Z.shape[-1]),
    )


def layout(r, X):
    k = int(r.integers(4))
    if k == 1:
        return np.asfortranarray(X), k
    if k == 2:
        big = np.zeros(X.shape[:-1] + (2 * X.shape[-1],), dtype=X.dtype)
        big[..., ::2] = X
        return big[..., ::2], k
    return X, 0


def cov(Z):
    return Z @ np.swapaxes(Z, -1, -2).conj() / Z.shape[-1]


def run(c, rec):
    from ssspy.transform import pca, whiten

    if c["fn"] == "errors":
        r = rng_of("C16e", c["seed"])
        for fn in (whiten, pca):
            rec.expect_raise(lambda: fn(data.crandn(r, 3, 8)), ValueError, "errors", "complex 2-D")
            rec.expect_raise(lambda: fn(r.standard_normal((2, 3, 4, 8))), ValueError, "errors", "real 4-D")
            rec.expect_raise(lambda: fn(r.standard_normal(8)), ValueError, "errors", "1-D")
            rec.expect_raise(lambda: fn(data.crandn(r, 2, 2, 3, 4, 8)), ValueError, "errors", "5-D")
        return
    r = rng_of("C16", c["fn"], c["form"], c["seed"])
    for _ in range(c["n"]):
        deficient = c["fn"] == "pca" and r.integers(4) == 0
        X, items = draw(r, c["form"], deficient)
        X, lay = layout(r, X)
        X0 = X.copy()
        Xi = items(X0)
        K = cov(Xi)
        cn = np.max(np.linalg.cond(K))
        if cn > (1e10 if c["fn"] == "whiten" else 1e7) and not deficient:
            rec.skip("ill-conditioned draw")
            continue
        key = c["fn"] + ":" + c["form"]
        C = Xi.shape[1]
        ascend = True
        with rec.sut(key):
            if c["fn"] == "whiten":
                Y = whiten(X)
            else:
                k = int(r.integers(3))
                ascend = k < 2
                Y = pca(X) if k == 0 else pca(X, ascend=ascend)
        rec.check(np.array_equal(X, X0), key, "argument modified")
        if not rec.check(Y.shape == X.shape and np.iscomplexobj(Y) == np.iscomplexobj(X) and np.all(np.isfinite(Y)), key, "shape, field or finiteness"):
            continue
        Yi = items(Y)
        M = Yi @ np.linalg.pinv(Xi)  # Y = M X
        if not deficient:
            rec.close(M @ Xi, Yi, "linear", rtol=1e-6, msg=key + ": not a linear image of the input")
        KY = cov(Yi)
        if c["fn"] == "whiten":
            rec.close(KY, np.broadcast_to(np.eye(C), KY.shape), key, rtol=1e-13 * cn + 1e-9, msg="covariance is not the identity (condition %.1g)" % cn)
            rec.check(np.min(np.linalg.svd(M, compute_uv=False)) > 0, "linear", "the map is singular")
        else:
            lam = np.linalg.eigvalsh(K)
            sc = np.max(np.abs(lam), axis=-1)[:, None]
            sc = np.where(sc > 0, sc, 1)
            want = lam[:, ::-1] if ascend else lam
            d = np.real(np.einsum("bii->bi", KY))
            rec.close(d / sc, want / sc, key, rtol=1e-9, msg="variances, ascend=%s" % ascend)
            off = KY - d[:, :, None] * np.eye(C)
            rec.close(off / sc[..., None], np.zeros_like(off), key, rtol=0, atol=1e-9, msg="components are correlated")
            pick = slice(None) if Xi.shape[-1] <= 200 else r.permutation(Xi.shape[-1])[:60]
            G0 = np.swapaxes(Xi[..., pick], -1, -2).conj() @ Xi[..., pick]
            G1 = np.swapaxes(Yi[..., pick], -1, -2).conj() @ Yi[..., pick]
            rec.close(G1, G0, key, rtol=1e-9, msg="not a rotation: inner products between samples changed")
        rec.nontrivial(key, X.shape, "deficient" if deficient else round(np.log10(cn)), lay, ascend)
