"""C28: on mixtures that follow a method's model, the method separates: the error against the true sources drops."""

import itertools
import warnings

import numpy as np

from .. import data, grid, mono, zoo
from ..core import rng_of

RULE = (
    "distinct (class, options, scene sizes): several scenes with known sources and mixing were separated and the median "
    "improvement of the signal-to-distortion ratio against the true source images compared with a floor far below what the "
    "method achieves on its own model"
)
REQUIRED = {"sdr": 100}
ASSUMPTIONS = [
    "scenes are determined, with a background noise of -50 dB, with per-bin mixing matrices of condition number at most 4",
    "factorization models start from the true spectral parameters (as basis and activation), so that only separation, and "
    "not the non-convex factorization, is judged",
    "the permutation over the sources is optimal: per recording for IVA and factorization models, per bin for FDICA without "
    "alignment and for proximal methods",
]

N_SCENES = 7


def scene(seed, M, F, T, kind):
    r = rng_of("scene", seed, M, F, T, kind)
    B = H = None
    if kind == "real":
        S = r.laplace(size=(M, 1, T))
        A = data.mixing(r, 1, M, M, 4.0).real
        U, s, Vh = np.linalg.svd(A)
        A = (U * np.exp(r.uniform(0, np.log(4.0), size=(1, 1, M)))) @ Vh
    elif kind == "frames":
        env = np.sqrt(r.gamma(0.35, 1, size=(M, 1, T)) + 1e-3)
        S = env * np.exp(0.4 * r.standard_normal((M, F, 1))) * data.crandn(r, M, F, T)
        A = data.mixing(r, F, M, M, 4.0)
    elif kind == "sparse":
        env = np.sqrt(r.gamma(0.12, 1, size=(M, 1, T)) + 1e-4)
        S = env * np.exp(0.2 * r.standard_normal((M, F, 1))) * data.crandn(r, M, F, T)
        A = data.mixing(r, F, M, M, 4.0)
    elif kind == "lowrank":
        B = r.gamma(0.4, 1, size=(M, F, 2)) + 1e-3
        H = r.gamma(0.25, 1, size=(M, 2, T)) + 1e-4
        S = np.sqrt(B @ H) * data.crandn(r, M, F, T)
        A = data.mixing(r, F, M, M, 4.0)
    else:
        S = np.sqrt(r.gamma(0.3, 1, size=(M, F, T)) + 1e-4) * data.crandn(r, M, F, T)
        A = data.mixing(r, F, M, M, 4.0)
    X = np.einsum("fmn,nft->mft", A, S)
    g = 1 / np.sqrt(np.mean(np.abs(X) ** 2))
    X = X + 3e-3 / g * (r.standard_normal(X.shape) if kind == "real" else data.crandn(r, *X.shape))
    return g * X, A, g * S, (None if B is None else g**2 * B), H


def spectral(X):
    return np.max(np.linalg.norm(np.moveaxis(X, 1, 0), 2, axis=(1, 2)))


def sdr(Y, img):
    """Mean SDR over the sources under the best permutation."""
    N = img.shape[0]
    e = np.sum(np.abs(img) ** 2, axis=(1, 2))
    D = np.array([[np.sum(np.abs(y - s) ** 2) for y in Y] for s in img])
    v = 10 * np.log10(e[:, None] / np.maximum(D, 1e-12 * e[:, None]))
    return max(np.mean([v[n, p[n]] for n in range(N)]) for p in itertools.permutations(range(len(Y)), N))


def measure(Y, A, S, ref, per_bin):
    img = A[:, ref].T[:, :, None] * S
    if per_bin:
        return float(np.median([sdr(Y[:, f : f + 1], img[:, f : f + 1]) for f in range(S.shape[1])]))
    return float(sdr(Y, img))


def cases(tier, seed):
    for i in range(3 if tier == "quick" else 30):
        for cls, alg in grid.STRATA:
            r = rng_of("C28", seed, i, cls, alg)
            c = grid.case(cls, alg, "C28", seed, i)
            kw = c["spec"]["kw"]
            fam = zoo.FAMILY[cls]
            for k in ("n_sources", "partitioning", "domain", "is_holonomic"):
                kw.pop(k, None)
            c["spec"]["floor"] = None
            c.update(M=grid.pick(r, [2, 2, 3]), F=int(r.integers(5, 12)), T=int(r.integers(150, 260)), gain=1.0)
            if fam in ("ica", "fdica", "iva") and r.integers(3) == 0:
                c.update(M=4, T=2 * c["T"])
            if "scale_restoration" in kw:
                kw["scale_restoration"] = grid.pick(r, [True, "projection_back", "PB"])
            if "Grad" in cls:
                kw["step_size"] = 0.1
                kw["is_holonomic"] = True
                c["it"] = 600 if "Natural" in cls or fam != "iva" else 2500
            else:
                c["it"] = 60
            if fam == "ica":
                c["F"] = 1
                c["T"] = int(r.integers(400, 700))
            if "contrast" in c["spec"] and fam != "ica":
                c["spec"]["contrast"] = grid.pick(r, ["laplace", "smooth"])
            kind = {"ica": "real", "fdica": "cells", "ilrma": "lowrank", "mnmf": "lowrank", "ipsdta": "lowrank"}.get(fam, "frames")
            if fam == "fdica" and kw["permutation_alignment"]:
                kind = "frames"
            if kind == "lowrank":
                kw["n_basis"] = 2
                if kw.get("normalization") == "projection_back":
                    kw["normalization"] = "power"
                if "beta" in kw:
                    kw["beta"] = round(float(r.uniform(1, 1.9)), 3)
                if "dof" in kw:
                    kw["dof"] = round(float(r.uniform(4, 60)), 3)
            if fam == "ipsdta":
                kw["n_blocks"] = c["F"]
                c["it"] = 30
            if fam == "mnmf":
                c["F"] = min(c["F"], 7)
                c["it"] = 60 if cls == "GaussMNMF" else 60
                c["M"] = 2
            if cls in ("FastIVA", "FasterIVA"):
                c["M"] = 2
            if fam == "cacgmm":
                kw["permutation_alignment"] = True
                kind = "sparse"
                c["M"] = 2
                c["T"] += 100
            if fam in ("pdsbss", "admmbss", "hva") or cls in ("PDSIVA", "ADMMIVA"):
                for k in ("mu1", "mu2", "relaxation", "rho"):
                    if k in kw:
                        kw[k] = 1
                c["spec"]["penalty"] = ["l21"]
                c["it"] = 500
                c["M"], c["F"] = 2, min(c["F"], 8)
                if fam == "hva":
                    kw["attenuation"], kw["mask_iter"] = None, 1
                    c["it"] = 200
            c["kind"] = kind
            if fam != "ica":
                kw["reference_id"] = int(r.integers(-c["M"], c["M"]))
            yield c


def given(cls, B, H):
    fam = zoo.FAMILY[cls]
    if fam in ("ilrma", "mnmf"):
        return dict(basis=B.copy(), activation=H.copy())
    if fam == "ipsdta":
        return dict(basis=np.moveaxis(B, 1, 2)[..., None, None].astype(np.complex128), activation=H.copy())
    return {}


def build(spec, X, cbs):
    cls = spec["cls"]
    # penalty weight for which the optimum has about the scale of the normalized mixture
    weight = 0.4 * X.shape[1] / np.mean(np.sum(np.linalg.norm(X, axis=1), axis=1)) if X.ndim == 3 else None
    if cls in ("PDSBSS", "ADMMBSS", "PDSIVA", "ADMMIVA"):
        pf, pp = zoo.penalty("l21")
        kw = dict(spec["kw"], prox_penalty=lambda y, step_size=1: pp(y, step_size=weight * step_size))
        if "IVA" in cls:
            kw["contrast_fn"] = lambda y: weight * np.linalg.norm(y, axis=1)
        else:
            kw["penalty_fn"] = lambda y: weight * pf(y)
        return zoo.get_class(cls)(callbacks=cbs, **kw)
    if cls in ("MaskingPDSBSS", "MaskingADMMBSS"):

        def shrink(y):
            n = np.linalg.norm(y, axis=1, keepdims=True)
            return np.maximum(0, 1 - weight / np.maximum(n, weight)) * np.ones(y.shape)

        return zoo.get_class(cls)(**dict(spec["kw"], mask_fn=shrink, callbacks=cbs))
    return zoo.build(spec, callbacks=cbs)


def floor_db(cls):
    if cls == "CACGMM":
        return 2.0
    if zoo.FAMILY[cls] in ("ilrma", "ica") or cls in ("GradLaplaceIVA", "NaturalGradGaussIVA"):
        return 7.0
    return 14.0


def run(c, rec):
    warnings.simplefilter("ignore")
    spec = c["spec"]
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    prox = fam in ("pdsbss", "admmbss", "hva") or cls in ("PDSIVA", "ADMMIVA")
    per_bin = prox or cls in ("GradIVA", "GradLaplaceIVA", "GradGaussIVA") or fam == "fdica" and not spec["kw"]["permutation_alignment"]
    label = cls + "." + mono.algo(spec)
    gains = []
    for j in range(N_SCENES):
        X, A, S, B, H = scene((c["seed"], j), c["M"], c["F"], c["T"], c["kind"])
        if prox:
            k = 1 / spectral(X)
            X, S = k * X, k * S
        ref = spec["kw"].get("reference_id", 0)
        tr = []

        def last(method):
            tr[:] = [zoo.snap(method)]

        with np.errstate(all="ignore"), rec.sut(label + " separation", mono.excuse(spec, tr)):
            if fam == "ica":
                m = build(spec, X, [last])
                Y = m(X[:, 0], n_iter=c["it"])
                # ICA leaves the scale open: project each source back by least squares
                P = X[0, 0] @ np.linalg.pinv(Y)
                Y = (P[:, None] * Y)[:, None, :]
            else:
                m = build(spec, X, [last])
                Y = m(X, n_iter=c["it"], **given(cls, B, H))
        if not rec.check(np.all(np.isfinite(Y)), "finite", label + ": estimate not finite"):
            return
        # masks of equal parts are no separation, although they reduce the error
        base = np.broadcast_to(X[ref] / len(Y) if fam == "cacgmm" else X[ref], (len(Y),) + X[ref].shape)
        gains.append(measure(Y, A, S, ref, per_bin) - measure(base, A, S, ref, per_bin))
    med = float(np.median(gains))
    rec.worst["shortfall:" + cls] = max(rec.worst.get("shortfall:" + cls, -9.0), floor_db(cls) / max(med, 0.1))
    rec.check(
        med >= floor_db(cls), "sdr",
        lambda: "%s (M=%d F=%d T=%d): median SDR improvement %.2f dB over %s scenes, expected at least %.1f; all: %s"
        % (label, c["M"], c["F"], c["T"], med, N_SCENES, floor_db(cls), np.round(sorted(gains), 1)),
    )  # fmt: skip
    rec.nontrivial(label, c["M"], c["F"], c["T"], c["kind"], sorted((k, str(v)) for k, v in spec["kw"].items()))
    rec.sample({"config": label, "sdr_improvement_db": [round(g, 1) for g in gains]})
