"""C23: Wiener and posterior estimates conserve the mixture and equal the documented estimators."""

import warnings

import numpy as np

from .. import data, grid, mono, oracles, zoo
from ..core import rng_of

RULE = (
    "distinct (class, shape, source count, reference, options, alignment) runs in which the estimates at every callback and the "
    "returned ones were compared with the reference estimator and summed against the observed reference microphone"
)
ASSUMPTIONS = ["time-frequency points whose model covariance is nearly singular (flooring takes over) are excluded and counted"]
REQUIRED = {
    "conservation:GaussMNMF": 1000, "conservation:FastGaussMNMF": 1000, "conservation:CACGMM": 1000,
    "wiener": 1000, "posterior": 1000, "other input": 300, "over-determined": 50, "under-determined": 50, "aligned posterior": 100,
}  # fmt: skip
ALIGN = [False, True, "posterior_score", "amplitude_score", "amplitude_correlation"]


def cases(tier, seed):
    strata = [("CACGMM", None), ("GaussMNMF", None)] + [s for s in grid.STRATA if s[0] in ("GaussMNMF", "FastGaussMNMF", "CACGMM")]
    for r in range(1200 if tier == "quick" else 5000):
        for j, (cls, alg) in enumerate(strata):
            q = rng_of("C23x", seed, r, cls, alg, j)
            c = grid.case(cls, alg, "C23", seed, r, j, it=int(q.choice([0, 1, 2, 4])))
            kw = c["spec"]["kw"]
            M = c["M"] = int(q.choice([1, 2, 2, 3, 3, 4]))
            if (cls == "CACGMM" or alg == "IP2") and M == 1:
                M = c["M"] = 2
            kw["n_sources"] = int(q.choice([1, 2, 3, 4, 5]))
            if q.integers(4) == 0:
                kw.pop("n_sources")
            kw["reference_id"] = int(q.integers(-M, M))
            c["T"] = int(q.choice([9, 20, 31]))
            if cls == "CACGMM":
                kw["permutation_alignment"] = ALIGN[r % 5]
                kw.pop("global_iter", None)
                if r % 5 in (1, 2, 3) and q.integers(2):
                    kw["global_iter"], kw["local_iter"] = int(q.integers(1, 3)), int(q.integers(0, 3))
            if cls != "CACGMM" and q.integers(6) == 0:  # level far from one, floor further below
                c["spec"]["floor"] = "none" if q.integers(2) else "max:1e-16"
                c["gain"] = float(10.0 ** q.uniform(-4, 2))
            if c["spec"].get("floor") == "none" and c["T"] < 10 * M:
                c["spec"]["floor"] = "max:1e-16" if cls != "CACGMM" else None  # fewer frames than parameters: degenerate without flooring
            c["given"] = bool(q.integers(3) == 0) and cls != "CACGMM"
            yield c


def model(spec, st):
    """R_n (N, F, T, M, M) of the current parameters"""
    L = oracles.nmf(st)
    if spec["cls"] == "GaussMNMF":
        return np.einsum("nft,nfab->nftab", L, st["spatial"])
    Qi = np.linalg.inv(st["diagonalizer"])
    G = np.einsum("fam,fnm,fbm->nfab", Qi, st["spatial"], Qi.conj())
    return np.einsum("nft,nfab->nftab", L, G)


def wiener(spec, st, X):
    """-> (estimates (N, F, T), mask of well-posed points)"""
    kw = spec["kw"]
    fl = zoo.floor_fn(spec)
    Rn = model(spec, st)
    R = Rn.sum(axis=0)
    w = np.linalg.eigvalsh((R + np.swapaxes(R, -1, -2).conj()) / 2)
    ok = (w[..., 0] > 1e-5 * w[..., -1]) & (w[..., 0] > 1e6 * float(fl(np.zeros(1))[0]))
    Rf = oracles.psd_floor(R, fl)
    G = np.linalg.inv(Rf) @ np.moveaxis(X, 0, -1)[..., None]  # (F, T, M, 1)
    Y = (Rn @ G)[..., kw["reference_id"], 0]
    return Y, ok


def run(c, rec):
    spec = c["spec"]
    cls = spec["cls"]
    kw = spec["kw"]
    X = data.mixture_of(c)
    q = rng_of("C23d", c["seed"])
    X2 = data.crandn(q, *X.shape)
    M, F, T = X.shape
    N = kw.get("n_sources") or M
    ref = kw["reference_id"]
    label = "%s N=%d M=%d" % (cls, N, M)
    states = []

    def cb(m):
        st = zoo.snap(m)
        if cls != "CACGMM":
            st["_est"] = np.array(m.separate(m.input))
            st["_est2"] = np.array(m.separate(X2))
        elif st.get("posterior") is not None:
            st["_est"] = np.array(m.separate(m.input, posterior=m.posterior))
            st["_est2"] = np.array(m.separate(X2, posterior=m.posterior))
        states.append(st)

    init = {}
    if c["given"]:
        K = kw["n_basis"]
        if kw.get("partitioning"):
            Z = q.random((N, K)) + 0.1
            init = dict(basis=q.random((F, K)) + 0.1, activation=q.random((K, T)) + 0.1, latent=Z / Z.sum(axis=0))
        else:
            init = dict(basis=q.random((N, F, K)) + 0.1, activation=q.random((N, K, T)) + 0.1)
        if cls == "GaussMNMF":
            init["spatial"] = data.rand_psd(q, N, F, M, cond=20)
        else:
            init["spatial"] = q.random((F, N, M)) + 0.2
            init["diagonalizer"] = data.mixing(q, F, M, M)
    with rec.sut(cls), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = zoo.build(spec, callbacks=[cb])
        out = m(X, n_iter=c["it"], **{k: v.copy() for k, v in init.items()})
        fin = zoo.snap(m)
    rec.count("over-determined", int(N < M))
    rec.count("under-determined", int(N > M))
    if c["it"] and any(not mono.finite_state(s) for s in states[:-1]):
        rec.skip("degenerate state")
        return
    if c["given"]:
        for k, v in init.items():
            rec.close(states[0][k], v, "given " + k, rtol=1e-12, msg=label)
    fin["_est"] = np.array(out)
    with rec.sut(cls + ".separate"):
        fin["_est2"] = np.array(m.separate(X2) if cls != "CACGMM" else m.separate(X2, posterior=m.posterior))
    n = 0
    for k, st in enumerate(states + [fin]):
        where = "%s %s" % (label, "callback %d" % k if k < len(states) else "returned")
        if "_est" not in st:
            continue
        if not rec.check(st["_est"].shape == (N, F, T), "shape:" + cls, "%s: estimates %s" % (where, st["_est"].shape)):
            return
        if not mono.finite_state({a: b for a, b in st.items() if not a.startswith("_") and a != "output"}):
            rec.skip("degenerate state")
            return
        if cls == "CACGMM":
            g = st["posterior"]
            rec.check(np.min(g) >= 0, "negative posterior", where)
            rec.close(g.sum(axis=0), np.ones((F, T)), "posterior sum", rtol=1e-9, msg=where)
            rec.close(st["_est"], g * X[ref], "posterior mask", rtol=1e-9, msg=where, counter="posterior")
            rec.close(st["_est"].sum(axis=0), X[ref], "conservation:" + cls, rtol=1e-8, msg=where)
            rec.close(st["_est2"].sum(axis=0), X2[ref], "conservation:" + cls, rtol=1e-8, msg=where + " other input")
            rec.count("other input")
        else:
            try:
                Y, ok = wiener(spec, st, X)
                Y2, _ = wiener(spec, st, X2)
            except np.linalg.LinAlgError:
                rec.skip("singular model")
                return
            rec.skip("ill-posed points", int(np.sum(~ok)))
            if not np.any(ok):
                continue
            e, e2 = st["_est"], st["_est2"]
            rec.close(e[:, ok], Y[:, ok], "wiener:" + cls, rtol=1e-5, msg=where, counter="wiener")
            rec.close(e2[:, ok], Y2[:, ok], "wiener:" + cls, rtol=1e-5, msg=where + " other input", counter="other input")
            rec.close(e.sum(axis=0)[ok], X[ref][ok], "conservation:" + cls, rtol=1e-4, scale=float(np.max(np.abs(X))), msg=where)
            rec.close(e2.sum(axis=0)[ok], X2[ref][ok], "conservation:" + cls, rtol=1e-4, msg=where + " other input")
        n += 1
    if cls == "CACGMM":
        # the posteriors that came with the returned estimates are those of the returned parameters
        if np.max(np.linalg.cond(fin["covariance"])) < 1e6:
            lg = oracles.cacg_logprob(fin, zoo.floor_fn(spec))
            g = np.exp(lg - lg.max(axis=0))
            rec.close(fin["posterior"], g / g.sum(axis=0), "aligned posterior", rtol=1e-5, msg=label + " %s" % kw["permutation_alignment"])
            with rec.sut("CACGMM.separate"):
                e = m.separate(X)
            rec.close(e, fin["_est"], "separate without posterior", rtol=1e-5, msg=label)
        else:
            rec.skip("nearly singular covariance")
    if n:
        rec.nontrivial(label, F, T, sorted(kw.items()), spec.get("floor"), c["given"], c["it"])
        rec.sample({"config": label, "options": kw, "states": n})
