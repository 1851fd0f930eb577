"""C08: scale restoration (projection back, minimal distortion principle) as functions and inside the methods."""

import numpy as np

from .. import data, grid, mono, oracles, zoo
from ..core import rng_of

RULE = (
    "distinct (function form, shape, reference) for the two functions, and (class, algorithm, restoration keyword, "
    "reference, iterations) for the methods, each compared with the definition applied to an unrestored twin run"
)
REQUIRED = {
    "pb-filter": 200, "pb-data": 200, "pb-sum": 200, "pb-invariant": 200, "pb-images": 50, "mdp": 200,
    "mdp-optimal": 200, "method-pb": 100, "method-mdp": 100, "method-filter": 100, "method-sum": 50,
}  # fmt: skip
ASSUMPTIONS = ["runs ending in a numerically singular filter are skipped (a scale relative to a microphone is undefined)"]
PB = ["projection_back", "projection-back", "PB", True]
MDP = ["minimal_distortion_principle", "minimal-distortion-principle", "MDP"]


def cases(tier, seed):
    q = tier == "quick"
    for mode in ("pb-filter", "pb-data", "mdp"):
        for r in range(400 if q else 6000):
            yield dict(mode=mode, seed=seed * 100000 + r, n=6)
    reps = 60 if q else 1500
    for i, c in enumerate(grid.sweep("C08", seed, reps, long=0.05)):
        if "scale_restoration" not in c["spec"]["kw"]:
            continue
        r = rng_of("C08", seed, i)
        c["mode"] = "method"
        c["want"] = grid.pick(r, PB + MDP)
        M = c["M"]
        c["spec"]["kw"]["reference_id"] = int(r.integers(-M, M))
        if "ADMM" in c["spec"]["cls"] and c["it"] <= 1:
            c["it"] = 3
        if c["it"] == 0 and c["want"] in PB:
            c["it"] = 1 + 2 * ("ADMM" in c["spec"]["cls"])
        c["it"] = min(c["it"], 4)
        if r.integers(6) == 0:  # a very quiet recording
            c["gain"] = float(10.0 ** r.uniform(-6, -3))
        yield c


def ls_image(Y, x):
    """x (T,) regressed on all rows of Y (N, T) -> coefficients"""
    nrm = np.linalg.norm(Y, axis=1)
    return np.linalg.lstsq((Y / nrm[:, None]).T, x, rcond=None)[0] / nrm


def ref_pb_data(Y, X, ref):
    out = np.empty(Y.shape, dtype=np.result_type(Y, X))
    for f in range(Y.shape[1]):
        a = ls_image(Y[:, f], X[ref, f])
        out[:, f] = a[:, None] * Y[:, f]
    return out


def ref_mdp(Y, X, ref):
    a = np.sum(X[ref][None] * Y.conj(), axis=-1, keepdims=True) / np.sum(np.abs(Y) ** 2, axis=-1, keepdims=True)
    return a * Y


def run(c, rec):
    if c["mode"] == "method":
        return method(c, rec)
    from ssspy.algorithm import minimal_distortion_principle as mdp
    from ssspy.algorithm import projection_back as pb

    r = rng_of("C08", c["mode"], c["seed"])
    for i in range(c["n"]):
        M = int(r.integers(1, 6))
        F = int(r.integers(1, 6))
        T = int(r.integers(M + 5, 40))
        if r.integers(30) == 0:  # long, many bins, or many channels
            M, F, T = [(2, 2, int(r.integers(300, 1500))), (2, int(r.integers(20, 330)), 30), (int(r.integers(6, 10)), 3, 60)][int(r.integers(3))]
        ref = int(r.integers(-M, M))
        real = r.integers(5) == 0
        rn = (lambda *s: r.standard_normal(s)) if real else (lambda *s: data.crandn(r, *s))
        gain = 10.0 ** (r.uniform(-3, 3) if r.integers(4) else r.uniform(-7, 7))
        spread = 1.0 if r.integers(4) else float(r.uniform(1, 4.5))
        default = r.integers(5) == 0
        if default:
            ref = 0
        kw = {} if default else dict(reference_id=ref)
        sig = (c["mode"], M, F, ref, bool(real))
        if c["mode"] == "pb-filter":
            lead = [(F,), (), (2, F)][int(r.integers(3))]
            W = np.linalg.qr(rn(*lead, M, M))[0] * np.exp(r.uniform(-spread, spread, size=lead + (1, M))) * gain
            W = np.linalg.qr(rn(*lead, M, M))[0] @ W
            with rec.sut("projection_back(filter)"):
                S = pb(W, **kw)
            if not rec.check(S.shape == W.shape, "pb-filter", "shape %s" % (S.shape,)):
                continue
            want = W * np.linalg.inv(W)[..., ref, :][..., None]
            rec.close(S, want, "pb-filter", rtol=1e-9, msg="scaled filter")
            # the images of the sources at the reference microphone sum to the microphone signal
            e = np.zeros(M)
            e[ref] = 1
            rec.close(np.sum(S, axis=-2), np.broadcast_to(e, lead + (M,)), "pb-sum", rtol=1e-8, scale=1 + np.max(np.abs(S)), msg="filter rows do not sum to the unit vector of the reference")
            D = np.exp(r.uniform(-2, 2, size=lead + (M, 1))) * (1 if real else np.exp(1j * r.uniform(0, 6, size=lead + (M, 1))))
            with rec.sut("projection_back(filter)"):
                S2 = pb(D * W, **kw)
            rec.close(S2, S, "pb-invariant", rtol=1e-7, scale=1 + np.max(np.abs(S)), msg="not invariant to rescaling")
            with rec.sut("projection_back(filter, None)"):
                A = pb(W, reference_id=None)
            if rec.check(A.shape == (M,) + W.shape, "pb-images", "images shape %s" % (A.shape,)):
                for m in range(M):
                    rec.close(A[m], W * np.linalg.inv(W)[..., m, :][..., None], "pb-images", rtol=1e-9, msg="image filter")
            sig += lead
        elif c["mode"] == "pb-data":
            X = rn(M, F, T) * gain
            N = M if r.integers(3) else int(r.integers(1, M + 1))
            W = rn(F, N, M)
            Y = np.einsum("fnm,mft->nft", W, X)
            inspan = bool(r.integers(4)) and N == M
            if not inspan:
                Y = rn(N, F, T)
            if np.max(np.linalg.cond(np.swapaxes(Y, 0, 1))) > 1e3:
                rec.skip("ill-conditioned draw")
                continue
            with rec.sut("projection_back(data)"):
                S = pb(Y, reference=X, **kw)
            if not rec.check(S.shape == Y.shape, "pb-data", "shape %s" % (S.shape,)):
                continue
            rec.close(S, ref_pb_data(Y, X, ref), "pb-data", rtol=1e-6, scale=np.max(np.abs(X)), msg="scaled data")
            if inspan:
                rec.close(S.sum(axis=0), X[ref], "pb-sum", rtol=1e-7, scale=np.max(np.abs(X)), msg="images do not sum to the reference")
            D = np.exp(r.uniform(-2, 2, size=(N, F, 1))) * (1 if real else np.exp(1j * r.uniform(0, 6, size=(N, F, 1))))
            with rec.sut("projection_back(data)"):
                S2 = pb(D * Y, reference=X, **kw)
            rec.close(S2, S, "pb-invariant", rtol=1e-6, scale=np.max(np.abs(X)), msg="not invariant to rescaling")
            with rec.sut("projection_back(data, None)"):
                A = pb(Y, reference=X, reference_id=None)
            if rec.check(A.shape == (M,) + Y.shape, "pb-images", "images shape %s" % (A.shape,)):
                for m in range(M):
                    rec.close(A[m], ref_pb_data(Y, X, m), "pb-images", rtol=1e-6, scale=np.max(np.abs(X)), msg="image")
            sig += (N, inspan)
        else:
            X = rn(M, F, T) * gain
            N = M if r.integers(2) else int(r.integers(1, 6))
            Y = rn(N, F, T) + (X[:1] if r.integers(2) else 0)
            with rec.sut("minimal_distortion_principle"):
                S = mdp(Y, reference=X, **kw)
            if not rec.check(S.shape == Y.shape, "mdp", "shape %s" % (S.shape,)):
                continue
            rec.close(S, ref_mdp(Y, X, ref), "mdp", rtol=1e-9, scale=np.max(np.abs(X)), msg="minimal distortion")
            err = np.sum(np.abs(X[ref][None] - S) ** 2, axis=-1)
            a = S[..., :1] / Y[..., :1]
            for _ in range(3):
                d = 10.0 ** r.uniform(-4, 0) * rn(N, F, 1)
                e2 = np.sum(np.abs(X[ref][None] - (a + d) * Y) ** 2, axis=-1)
                rec.check(np.all(e2 >= err * (1 - 1e-9)), "mdp-optimal", "another factor has a smaller error")
            with rec.sut("minimal_distortion_principle(None)"):
                A = mdp(Y, reference=X, reference_id=None)
            if rec.check(A.shape == (M,) + Y.shape, "mdp", "images shape %s" % (A.shape,)):
                for m in range(M):
                    rec.close(A[m], ref_mdp(Y, X, m), "mdp", rtol=1e-9, scale=np.max(np.abs(X)), msg="image")
            sig += (N,)
        rec.nontrivial(*sig)


def method(c, rec):
    spec = c["spec"]
    cls = spec["cls"]
    label = cls + "." + mono.algo(spec)
    X = zoo.input_for(spec, c)
    ref = spec["kw"]["reference_id"]
    off = dict(spec, kw=dict(spec["kw"], scale_restoration=False))
    on = dict(spec, kw=dict(spec["kw"], scale_restoration=c["want"]))
    with rec.sut(label + " without restoration"):
        a = zoo.build(off)
        Y0 = a(X, n_iter=c["it"])
    W0 = getattr(a, "demix_filter", None)
    if not np.all(np.isfinite(Y0)):
        rec.skip("non-finite twin")
        return
    G = oracles.fit_filter(Y0, X)
    cond = np.max(np.linalg.cond(G))
    if not cond < 1e6:
        rec.skip("singular filter")
        return
    tol = 1e-6 + 1e-10 * cond
    with rec.sut(label + " with restoration %r" % (c["want"],)):
        b = zoo.build(on)
        Y = b(X, n_iter=c["it"])
    sc = np.max(np.abs(X))
    if c["want"] in PB:
        want = ref_pb_data(Y0, X, ref)
        rec.close(Y, want, "method-pb", rtol=tol, scale=sc, msg="%s %r reference %d" % (label, c["want"], ref))
        rec.close(Y.sum(axis=0), X[ref], "method-sum", rtol=tol, scale=sc, msg="%s images do not sum to microphone %d" % (label, ref))
    else:
        want = ref_mdp(Y0, X, ref)
        rec.close(Y, want, "method-mdp", rtol=tol, scale=sc, msg="%s %r reference %d" % (label, c["want"], ref))
    W = getattr(b, "demix_filter", None)
    rec.check((W is None) == (W0 is None), "method-filter", label + ": filter presence changed by restoration")
    if W is not None:
        base = X
        if cls in ("FastIVA", "FasterIVA"):
            from ssspy.transform import whiten

            base = whiten(X)
        # each row is only rescaled
        ip = np.sum(W * W0.conj(), axis=-1, keepdims=True) / np.sum(np.abs(W0) ** 2, axis=-1, keepdims=True)
        rec.close(W, ip * W0, "method-filter", rtol=tol, msg=label + ": restored filter is not a rescaling of the filter")
        rec.close(oracles.demix(W, base), want, "method-filter", rtol=tol, scale=sc, msg=label + ": restored filter")
    rec.nontrivial(label, c["want"], ref, c["M"], c["it"], sorted((k, str(v)) for k, v in spec["kw"].items()))
    rec.sample({"config": label, "restoration": c["want"], "reference": ref})
