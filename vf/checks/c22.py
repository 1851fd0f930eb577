"""C22: gradient, natural-gradient and fixed-point steps of ICA, FDICA and IVA."""

import warnings

import numpy as np

from .. import data, grid, mono, oracles, refspatial as rs, zoo
from ..core import rng_of

RULE = (
    "distinct (class, contrast, constraint, shape, step size) runs in which every iteration's filter was compared with the "
    "reference step from the filter before it (and, for holonomic gradients, with a numerically differentiated objective)"
)
ASSUMPTIONS = [
    "rows of the eigenvalue-based fixed-point filter are compared up to a unit phase",
    "steps from numerically degenerate states (silent separated sources, nearly singular filters) are skipped and counted",
]
GRAD = [c for c in grid.CLASSES if "Grad" in c]
FIXED = ["FastICA", "FastIVA", "FasterIVA"]
REQUIRED = {"step:%s" % c: 100 for c in GRAD + FIXED}
REQUIRED.update({"derivative": 300, "orthonormal": 500, "default step": 50, "given filter": 100, "silent frames": 100})


def cases(tier, seed):
    for r in range(1000 if tier == "quick" else 8000):
        for cls in GRAD + FIXED:
            c = grid.case(cls, None, "C22", seed, r, long=0.05, it=[3, 4, 6][r % 3], restore=False, align=False)
            q = rng_of("C22x", seed, r, cls)
            kw = c["spec"]["kw"]
            if cls in GRAD:
                if q.integers(4) == 0:
                    kw.pop("step_size")
                elif q.integers(3) == 0:
                    kw["step_size"] = float(q.choice([1e-3, 0.02, 0.3]))
                if q.integers(5) == 0:
                    kw.pop("is_holonomic")
            if q.integers(12) == 0 and cls not in FIXED:
                c["M"] = 1
            elif q.integers(6) == 0:
                c["M"] = 5
            c["silent"] = bool(c["spec"].get("floor") != "none" and ("Laplace" in cls or "GaussIVA" in cls) and q.integers(4) == 0)
            c["given"] = bool(q.integers(3) == 0)
            yield c


def kernel(spec):
    """(contrast sum per frame and its real-gradient score) of the observed outputs: score(Y, variance)"""
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    fl = zoo.floor_fn(spec)
    if fam == "ica":
        name = "laplace" if "Laplace" in cls else spec.get("contrast") or "logcosh"
        _, s, ds = zoo.real_contrast(name)
        return lambda Y, a: s(Y), ds
    if "Gauss" in cls:
        return lambda Y, a: Y / a[:, None, :], None
    name = "laplace" if "Laplace" in cls else spec.get("contrast") or "laplace"
    _, d, dd = zoo.amp_contrast(name)
    floored = "Laplace" in cls

    def score(Y, a):
        r = np.abs(Y) if fam == "fdica" else np.sqrt(np.sum(np.abs(Y) ** 2, axis=1, keepdims=True))
        if floored:
            return Y / fl(r)
        return Y * d(r) / (2 * np.maximum(r, 1e-300))

    return score, (d, dd)


def grad_step(spec, W, X, holonomic, mu):
    score, _ = kernel(spec)
    if X.ndim == 2:
        W3, X3 = W[None], X[:, None, :]
    else:
        W3, X3 = W, X
    Y = np.einsum("fnm,mft->nft", W3, X3)
    a = zoo.floor_fn(spec)(np.mean(np.abs(Y) ** 2, axis=1))
    phi = score(Y[:, 0, :], a)[:, None, :] if X.ndim == 2 else score(Y, a)
    C = np.einsum("nft,mft->fnm", phi, Y.conj()) / X.shape[-1]
    N = W3.shape[1]
    if holonomic:
        D = C - np.eye(N)
    else:
        D = C * (1 - np.eye(N))
    if "Natural" in spec["cls"]:
        D = D @ W3
    else:
        D = np.stack([D[f] @ np.linalg.inv(W3[f]).conj().T for f in range(W3.shape[0])])
    new = W3 - mu * D
    return (new[0] if X.ndim == 2 else new), a


def fast_ica(spec, W, Z):
    _, s, ds = zoo.real_contrast(spec.get("contrast") or "logcosh")
    W = W.copy()
    for n in range(W.shape[0]):
        y = W[n] @ Z
        w = np.mean(ds(y)) * W[n] - Z @ s(y) / Z.shape[1]
        for k in range(n):
            w = w - (W[k] @ w) * W[k]
        W[n] = w / np.sqrt(w @ w)
    return W


def polar(A):
    u, s, vh = np.linalg.svd(A)
    if np.min(s / s[..., :1]) < 1e-6:
        raise rs.Ambiguous
    return u @ vh


def fast_iva(spec, W, Z):
    fl = zoo.floor_fn(spec)
    _, d, dd = zoo.amp_contrast(spec.get("contrast") or "laplace")
    Y = oracles.demix(W, Z)
    r = np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
    ph = d(r) / fl(2 * r)
    g2 = (2 * ph - dd(r)) / fl(2 * r)
    T = Z.shape[-1]
    # column form of row n: w = conj(row)
    new = np.empty_like(W)
    for f in range(W.shape[0]):
        for n in range(W.shape[1]):
            w = W[f, n].conj()
            e = np.mean(ph[n] - g2[n] * np.abs(Y[n, f]) ** 2)
            c = Z[:, f] @ (ph[n] * Y[n, f].conj()) / T
            new[f, n] = (e * w - c).conj()
    return polar(new)


def faster_iva(spec, W, Z):
    fl = zoo.floor_fn(spec)
    _, d, _ = zoo.amp_contrast(spec.get("contrast") or "laplace")
    Y = oracles.demix(W, Z)
    r = np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
    ph = d(r) / fl(2 * r)
    new = np.empty_like(W)
    for f in range(W.shape[0]):
        for n in range(W.shape[1]):
            U = (Z[:, f] * ph[n]) @ Z[:, f].conj().T / Z.shape[-1]
            lam, V = np.linalg.eigh((U + U.conj().T) / 2)
            if lam.size > 1 and (lam[-1] - lam[-2]) < 1e-3 * lam[-1]:
                raise rs.Ambiguous
            new[f, n] = V[:, -1].conj()
    s = np.linalg.svd(new, compute_uv=False)
    if np.min(s) < 1e-3:
        raise rs.Ambiguous
    return polar(new)


def run(c, rec):
    spec = c["spec"]
    cls = spec["cls"]
    X = zoo.input_for(spec, c)
    real = X.ndim == 2
    if c["silent"]:  # digital silence in some frames: the flooring keeps the step defined
        X[..., [0, 3, X.shape[-1] - 1]] = 0
        rec.count("silent frames")
    q = rng_of("C22W", c["seed"])
    tr = zoo.Tracer()
    kwargs = {}
    N = X.shape[0]
    if c["given"]:
        if real:
            U, _, Vh = np.linalg.svd(q.standard_normal((N, N)))
            W0 = (U * np.exp(q.uniform(-0.5, 0.5, N))) @ Vh if cls in GRAD else U @ Vh
        else:
            U, _, Vh = np.linalg.svd(data.crandn(q, X.shape[1], N, N))
            W0 = U * np.exp(q.uniform(-0.5, 0.5, (X.shape[1], 1, N))) @ Vh if cls in GRAD else U @ Vh
        kwargs["demix_filter"] = W0
        rec.count("given filter")
    with rec.sut(cls), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = zoo.build(spec, callbacks=[tr])
        m(X, n_iter=c["it"], **{k: v.copy() for k, v in kwargs.items()})
    if not rec.check(len(tr.states) == c["it"] + 1, "history", "%d states for %d iterations" % (len(tr.states), c["it"])):
        return
    if c["seed"] % 3 == 0:
        mono.bare(rec, spec, X, c["it"], m, kwargs)
    want0 = kwargs.get("demix_filter")
    if want0 is None:
        want0 = np.eye(N) if real else np.tile(np.eye(N), (X.shape[1], 1, 1))
    rec.close(tr.states[0]["demix_filter"], want0, "initial:" + cls, rtol=1e-12)
    kw = spec["kw"]
    mu = kw.get("step_size", 0.1)
    hol = kw.get("is_holonomic", "IVA" in cls)
    if cls in GRAD and "step_size" not in kw:
        rec.count("default step")
    done = 0
    for k in range(c["it"]):
        a, b = tr.states[k], tr.states[k + 1]
        W = a["demix_filter"]
        if not mono.finite_state(a) or np.max(np.linalg.cond(W)) > 1e6:
            rec.skip("degenerate state")
            break
        Y = W @ X if real else oracles.demix(W, X)
        if "Gauss" in cls and not c["silent"] and np.min(np.mean(np.abs(Y) ** 2, axis=1)) < 1e-8 * np.mean(np.abs(Y) ** 2):
            rec.skip("degenerate state")
            break
        msg = "iteration %d (step %s, holonomic %s)" % (k, mu, hol)
        if cls in GRAD:
            if real and "Laplace" in cls and np.any((np.abs(Y) > 0) & (np.abs(Y) < 1e-9)):
                rec.skip("sign of a zero sample")
                continue
            want, var = grad_step(spec, W, X, hol, mu)
            if not np.all(np.isfinite(want)):
                rec.skip("degenerate state")
                break
            # the increment itself, not only its sum with the previous filter
            rec.close(b["demix_filter"] - W, want - W, "step:" + cls, rtol=1e-7, atol=1e-12 * float(np.max(np.abs(W))), msg=msg)
            if "Gauss" in cls:
                rec.close(b["variance"], var, "variance:" + cls, rtol=1e-8, msg=msg)
            if hol:
                derivative(rec, spec, c, cls, W, (W - b["demix_filter"]) / mu, X, q, msg)
        else:
            Z = b["whitened_input"]
            if k == 0:
                T = X.shape[-1]
                C = Z @ Z.T / T if real else np.einsum("aft,bft->fab", Z, Z.conj()) / T
                rec.close(C, np.broadcast_to(np.eye(N), C.shape), "whitened:" + cls, rtol=1e-6)
            try:
                want = dict(FastICA=fast_ica, FastIVA=fast_iva, FasterIVA=faster_iva)[cls](spec, W, Z)
            except rs.Ambiguous:
                rec.skip("undetermined step")
                want = None
            Wn = b["demix_filter"]
            G = Wn @ np.swapaxes(Wn, -1, -2).conj()
            rec.close(G, np.broadcast_to(np.eye(N), G.shape), "orthonormal:" + cls, rtol=1e-7, msg=msg, counter="orthonormal")
            if want is not None and np.all(np.isfinite(want)):
                if cls == "FasterIVA":
                    rs.rows_close(rec, Wn, want, "step:" + cls, msg, tol=1e-6)
                else:
                    rec.close(Wn, want, "step:" + cls, rtol=1e-6, msg=msg)
        done += 1
    if done:
        rec.nontrivial(cls, spec.get("contrast"), X.shape, mu, hol, c["given"], spec.get("floor"))
        rec.sample({"config": cls, "steps": done, "shape": X.shape})


def derivative(rec, spec, c, cls, W, D, X, q, msg):
    """D undone to the plain gradient; its inner product with a random direction is the derivative of the objective."""
    Wh = np.swapaxes(W, -1, -2).conj()
    g = D if "Natural" not in cls else D @ np.linalg.inv(W) @ np.linalg.inv(Wh)
    st = dict(input=X)
    if "Gauss" in cls:
        st["variance"] = zoo.floor_fn(spec)(np.mean(np.abs(oracles.demix(W, X)) ** 2, axis=1))
    Y = W @ X if X.ndim == 2 else oracles.demix(W, X)
    r = np.abs(Y) if zoo.FAMILY[cls] in ("ica", "fdica") else np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
    s = np.sqrt(np.mean(r**2))
    E = q.standard_normal(W.shape) if X.ndim == 2 else data.crandn(q, *W.shape)
    rho = np.abs(E @ X if X.ndim == 2 else oracles.demix(E, X))
    if c["silent"]:
        return
    rho = rho if rho.shape == r.shape else np.sqrt(np.sum(rho**2, axis=1))
    h = 1e-5
    if spec.get("contrast") not in ("logcosh", "smoothabs", "smooth", "student") and "Gauss" not in cls:
        h = min(h, 0.02 * float(np.min(r / rho)))
        if h < 1e-7:
            rec.skip("kink of the contrast too close")
            return
    del s

    def J(t):
        return oracles.objective(spec, dict(st, demix_filter=W + t * E))

    num = (J(h) - J(-h)) / (2 * h)
    ana = float(np.real(np.sum(g.conj() * E))) * (1 if X.ndim == 2 else 2)
    scale = max(abs(ana), float(np.sqrt(np.sum(np.abs(g) ** 2))), abs(J(0)) * 1e-2, 1e-6)
    rec.close(num, ana, "derivative:" + cls, rtol=5e-3, scale=scale, msg=msg, counter="derivative")
