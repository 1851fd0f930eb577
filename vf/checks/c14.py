"""C14: primal-dual splitting, ADMM and masking iterations follow their documented steps."""

import warnings

import numpy as np

from .. import data, mono, grid, zoo
from ..core import rng_of

RULE = (
    "distinct (class, step sizes, relaxation, penalties or mask, attenuation, shape, given variables): every observed state "
    "pair of a run was compared with the documented step from the first state of the pair; masks and deprecated spellings "
    "were checked separately"
)
CLS = ["PDSBSS", "MaskingPDSBSS", "MaskingPDSHVA", "HVA", "PDSIVA", "ADMMBSS", "MaskingADMMBSS", "MaskingADMMHVA", "ADMMIVA"]
REQUIRED = {"step:" + k: 100 for k in CLS}
REQUIRED.update({"mask": 200, "mask-range": 200, "initial": 200, "deprecated": 40, "second-call": 50, "spectral-norm": 50})
ASSUMPTIONS = ["steps through a numerically singular filter are skipped: the proximal map of the log-determinant is not unique there"]


PENALTIES = ["l21", "l1", "half_l21", "l2sq", "time", "cross", "fro", "ramp"]


def cases(tier, seed):
    q = tier == "quick"
    for r in range(2000 if q else 12000):
        for cls in CLS:
            c = grid.case(cls, None, "C14", seed, r, long=0.05, restore=False)
            k = rng_of("C14", seed, r, cls)
            kw = c["spec"]["kw"]
            for name, lo, hi in (("mu1", 0.05, 2), ("mu2", 0.05, 2), ("rho", 0.1, 4)):
                if name in kw:
                    kw[name] = float(k.uniform(lo, hi))
                    if k.integers(6) == 0:
                        del kw[name]
            kw["relaxation"] = float(k.uniform(0.1, 1.95))
            if k.integers(6) == 0:
                del kw["relaxation"]
            if cls in ("PDSBSS", "ADMMBSS"):
                n = int(k.integers(1, 4))
                c["spec"]["penalty"] = [str(v) for v in k.choice(PENALTIES, size=n)]
            if cls in ("MaskingPDSBSS", "MaskingADMMBSS"):
                c["spec"]["mask"] = ["wiener", "shrink", "level", "ramp"][int(k.integers(4))]
            if "HVA" in cls:
                kw["mask_iter"] = int(k.integers(0, 4))
                kw["attenuation"] = [None, float(k.uniform(0.1, 2))][int(k.integers(2))]
                c["F"] = int(k.integers(2, 10))
                for name in ("mask_iter", "attenuation"):
                    if k.integers(6) == 0:
                        del kw[name]
                c["spec"]["floor"] = [None, "max:1e-6", "add:1e-5", "none"][int(k.integers(4 if "PDS" in cls or cls == "HVA" else 3))]
            c["spec"]["with_penalty"] = bool(k.integers(5))  # without one, no loss is recorded
            c["it"] = int(k.integers(1, 4))
            c["given"] = bool(k.integers(2))
            c["gain"] = float(10.0 ** k.uniform(-1.5, 1))
            c["mode"] = "step"
            yield c
    for r in range(400 if q else 8000):
        for cls in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA"):
            yield dict(mode="mask", cls=cls, seed=seed * 100000 + r)
    for r in range(12 if q else 100):
        for cls in CLS:
            yield dict(grid.case(cls, None, "C14d", seed, r, restore=False), mode="deprecated")


# ---- reference steps --------------------------------------------------------------------------
class Singular(Exception):
    pass


def prox_logdet(A, s):
    U, d, Vh = np.linalg.svd(A)
    if np.max(np.abs(A)) > 0 and np.min(d) < 1e-5 * np.max(d):
        raise Singular
    d = (d + np.sqrt(d**2 + 4 * s)) / 2
    return (U * d[:, None, :]) @ Vh


def sep(W, X):
    return np.einsum("fnm,mft->nft", W, X)


def hva_mask(y, kw, fl):
    N, F, _ = y.shape
    g = kw.get("attenuation")
    g = 1.0 / N if g is None else g
    z = np.log(fl(np.abs(y)))
    mean = z.mean(axis=1, keepdims=True)
    z = z - mean
    # real cosine pair: backward transform of a symmetric spectrum and its inverse
    k = np.arange(F)
    wgt = np.where((k == 0) | (k == F - 1), 1.0, 2.0)
    C = np.cos(np.pi * np.outer(k, k) / (F - 1)) * wgt[None, :]
    L = 2 * (F - 1)
    nu = np.einsum("qf,nft->nqt", C, z) / L
    s = np.minimum(1, nu)
    for _ in range(kw.get("mask_iter", 1)):
        s = (1 - np.cos(np.pi * s)) / 2
    xi = np.einsum("fq,nqt->nft", C, s * nu)
    v = 2 * (xi + mean)
    v = v - v.max(axis=0, keepdims=True)
    v = np.exp(v)
    return (v / v.sum(axis=0, keepdims=True)) ** g


def proxes(spec):
    cls = spec["cls"]
    if cls in ("PDSIVA", "ADMMIVA"):
        pens = spec.get("penalty") or ["l21"]
    else:
        pens = spec.get("penalty", ["l21"])
    return [lambda y, s, q=q: zoo.ref_prox(q, y, s) for q in pens]


def mask_of(spec):
    if "HVA" in spec["cls"]:
        fl = zoo.floor_fn(spec)
        return lambda y: hva_mask(y, spec["kw"], fl)
    return zoo.mask(spec.get("mask", "wiener"))


def step(spec, st):
    kw = spec["kw"]
    X, W = st["input"], st["demix_filter"]
    masking = "Masking" in spec["cls"] or spec["cls"] == "HVA"
    a = kw.get("relaxation", 1)
    if "ADMM" in spec["cls"]:
        rho = kw.get("rho", 1)
        V, Vt, Y, Yt = st["auxiliary1"], st["auxiliary2"], st["dual1"], st["dual2"]
        F, N, M = V.shape
        n_pen = 1 if masking else Vt.shape[0]
        D = (Vt - Yt) if masking else np.sum(Vt - Yt, axis=0)
        W1 = np.empty_like(V)
        for f in range(F):
            # least squares: min |W - (V - Y)|^2 + sum_q |W X - (Vt - Yt)_q|^2
            G = np.eye(M) + n_pen * (X[:, f] @ X[:, f].conj().T)
            R = (V[f] - Y[f]) + D[:, f] @ X[:, f].conj().T
            W1[f] = np.linalg.solve(G.T, R.T).T
        XW = sep(W1, X)
        U = a * W1 + (1 - a) * V
        V1 = prox_logdet(U + Y, 1 / rho)
        Ut = a * XW + (1 - a) * Vt
        if masking:
            Z = Ut + Yt
            Vt1 = mask_of(spec)(Z) * Z
        else:
            Vt1 = np.stack([p(Ut[q] + Yt[q], 1 / rho) for q, p in enumerate(proxes(spec))])
        return dict(demix_filter=W1, auxiliary1=V1, auxiliary2=Vt1, dual1=Y + U - V1, dual2=Yt + Ut - Vt1)
    mu1, mu2 = kw.get("mu1", 1), kw.get("mu2", 1)
    Y = st["dual"]
    S = Y if masking else Y.sum(axis=0)
    YX = np.einsum("nft,mft->fnm", S, X.conj())
    Wt = prox_logdet(W - mu1 * mu2 * YX, mu1)
    Z = sep(2 * Wt - W, X)
    if masking:
        Z = Z + Y
        Yt = Z - mask_of(spec)(Z) * Z
    else:
        Yt = np.stack([Y[q] + Z - p(Y[q] + Z, 1 / mu2) for q, p in enumerate(proxes(spec))])
    return dict(demix_filter=a * Wt + (1 - a) * W, dual=a * Yt + (1 - a) * Y)


KEYS = ("demix_filter", "dual", "auxiliary1", "auxiliary2", "dual1", "dual2")


def initial(spec, X, r, given):
    """Expected initial variables, and the keyword arguments asking for them."""
    N, F, T = X.shape
    masking = "Masking" in spec["cls"] or spec["cls"] == "HVA"
    lead = () if masking else (len(proxes(spec)),)
    want = dict(demix_filter=np.tile(np.eye(N, dtype=complex), (F, 1, 1)))
    if "ADMM" in spec["cls"]:
        want.update(
            auxiliary1=np.zeros((F, N, N), complex), dual1=np.zeros((F, N, N), complex),
            auxiliary2=np.zeros(lead + X.shape, complex), dual2=np.zeros(lead + X.shape, complex),
        )  # fmt: skip
    else:
        want["dual"] = np.zeros(lead + X.shape, complex)
    kw = {}
    if given:
        for k in want:
            if r.integers(3):
                s = np.max(np.abs(X)) if want[k].shape[-1] == T and k != "demix_filter" else 1.0
                want[k] = data.crandn(r, *want[k].shape) * s * 0.7
                if want[k].shape[-1] == N:
                    want[k] = want[k] + np.eye(N)
                kw[k] = want[k].copy()
    return want, kw


def run(c, rec):
    if c["mode"] == "mask":
        return masks(c, rec)
    if c["mode"] == "deprecated":
        return deprecated(c, rec)
    spec = c["spec"]
    cls = spec["cls"]
    X = data.mixture_of(c)
    r = rng_of("C14r", c["seed"])
    want, kw = initial(spec, X, r, c["given"])
    tr = zoo.Tracer()
    with rec.sut(cls + " call"):
        m = zoo.build(spec, callbacks=[tr])
        m(X, n_iter=c["it"], **kw)
    for k, v in want.items():
        rec.close(tr.states[0][k], v, "initial", rtol=1e-14, atol=0, msg="%s initial %s" % (cls, k))
    compare(rec, spec, tr.states, "step:" + cls)
    if c["seed"] % 3 == 0:
        mono.bare(rec, spec, X, c["it"], m, kw)
    if r.integers(3) == 0:
        # resumed on the same object: it goes on from where it stopped
        last = tr.states[-1]
        n = len(tr.states)
        with rec.sut(cls + " second call"):
            m(X, n_iter=2)
        for k in want:
            rec.close(tr.states[n][k], last[k], "second-call", rtol=1e-14, msg="%s %s at the start of a second call" % (cls, k))
        compare(rec, spec, tr.states[n:], "step:" + cls)
    if r.integers(3) == 0:
        n_pen = [None, 1, 2, 3][int(r.integers(4))]
        with rec.sut("normalize_by_spectral_norm"):
            Z = m.normalize_by_spectral_norm(X, n_penalties=n_pen)
        k = n_pen or m.n_penalties
        s = max(np.linalg.svd(X[:, f], compute_uv=False)[0] for f in range(X.shape[1]))
        rec.close(Z, X / (np.sqrt(k) * s), "spectral-norm", rtol=1e-9, msg="spectral normalization")
    rec.nontrivial(cls, X.shape, sorted((k, str(v)) for k, v in spec["kw"].items()), str(spec.get("penalty")), sorted(kw))


def compare(rec, spec, states, key):
    for k, (s0, s1) in enumerate(zip(states, states[1:])):
        try:
            want = step(spec, s0)
        except Singular:
            rec.skip("singular filter")
            return
        for name, v in want.items():
            if not np.all(np.isfinite(v)):
                rec.skip("non-finite reference")
                return
            sc = np.max(np.abs(v))
            if "dual" in name:
                sc = max(sc, max(np.max(np.abs(s1[n])) for n in want if s1[n].shape == v.shape))
            if name in ("dual", "dual2", "auxiliary2"):
                sc = max(sc, np.max(np.abs(sep(s1["demix_filter"], s1["input"]))))
            if name in ("dual1", "auxiliary1"):
                sc = max(sc, np.max(np.abs(s1["demix_filter"])))
            rec.close(s1[name], v, key, rtol=1e-6, scale=sc, msg="%s %s after iteration %d" % (spec["cls"], name, k + 1))


def masks(c, rec):
    r = rng_of("C14m", c["cls"], c["seed"])
    N, F, T = int(r.integers(1, 6)), int(r.integers(2, 12)), int(r.integers(1, 12))
    kw = {}
    if r.integers(4):
        kw["mask_iter"] = int(r.integers(0, 5))
    if r.integers(4):
        kw["attenuation"] = [None, float(r.uniform(0.05, 3))][int(r.integers(2))]
    spec = dict(cls=c["cls"], kw=kw, floor=[None, "max:1e-6", "add:1e-5", "none"][int(r.integers(4))])
    y = data.crandn(r, N, F, T) * 10.0 ** r.uniform(-3, 3)
    if r.integers(2):
        y = y * np.exp(r.standard_normal(y.shape))
    if r.integers(4) == 0 and spec["floor"] != "none":
        y = y * (r.random(y.shape) < 0.8)
    y0 = y.copy()
    with rec.sut(c["cls"] + " mask_fn"):
        m = zoo.build(spec)
        got = m.mask_fn(y)
    want = hva_mask(y0, kw, zoo.floor_fn(spec))
    rec.check(np.array_equal(y, y0), "mask", "mask function modified its argument")
    rec.close(got, want, "mask", rtol=1e-6, scale=1.0, msg="%s mask %s" % (c["cls"], spec))
    rec.check(np.all(got >= 0) and np.all(got <= 1 + 1e-9), "mask-range", "mask outside [0, 1]")
    rec.nontrivial("mask", c["cls"], N, F, T, str(kw), spec["floor"])


def deprecated(c, rec):
    spec = c["spec"]
    cls = spec["cls"]
    X = data.mixture_of(c)
    kw = dict(spec["kw"])
    a = kw.pop("relaxation", 1)
    r = rng_of("C14dep", c["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with rec.sut(cls + " alpha"):
            old = zoo.build(dict(spec, kw=dict(kw, alpha=a)))
            new = zoo.build(dict(spec, kw=dict(kw, relaxation=a)))
            y0, y1 = old(X, n_iter=3), new(X, n_iter=3)
        rec.check(np.array_equal(y0, y1, equal_nan=True), "deprecated", cls + ": alpha and relaxation give different results")
        rec.expect_raise(lambda: zoo.build(dict(spec, kw=dict(kw, alpha=a, relaxation=0.5))), AssertionError, "deprecated", cls + ": alpha and relaxation together")
        if "ADMM" in cls:
            want, _ = initial(spec, X, r, False)
            a1, a2 = (data.crandn(r, *want[k].shape) for k in ("auxiliary1", "auxiliary2"))
            with rec.sut(cls + " aux1/aux2"):
                old, new = zoo.build(spec), zoo.build(spec)
                y0 = old(X, n_iter=2, aux1=a1, aux2=a2)
                y1 = new(X, n_iter=2, auxiliary1=a1, auxiliary2=a2)
            rec.check(np.array_equal(y0, y1, equal_nan=True), "deprecated", cls + ": aux1/aux2 and auxiliary1/auxiliary2 differ")
    rec.nontrivial("deprecated", cls, a, X.shape)
