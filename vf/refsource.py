"""Reference one-iteration maps of the model-based methods, written from the documented update rules.

step(spec, st) -> dict of the public state after one iteration that starts in the observed state st, or raises
refspatial.Ambiguous when the step is numerically not determined."""

import numpy as np

from . import oracles, refspatial as rs, zoo
from .checks.c11 import reference as lq_reference


class Degenerate(Exception):
    pass


def _ratio(num, den):
    if not (np.all(np.isfinite(num)) and np.all(np.isfinite(den)) and np.all(den > 0)):
        raise Degenerate
    return num / den


# ---- ILRMA ------------------------------------------------------------------------------------------
def _ilrma_terms(spec, Y2, L):
    """elementwise (numerator factor, denominator factor) of the multiplicative rules"""
    kw = spec["kw"]
    p = kw["domain"]
    if spec["cls"] == "GaussILRMA":
        a = Y2 / L ** (2 / p + 1)
    elif spec["cls"] == "TILRMA":
        nu = kw["dof"]
        a = Y2 / ((nu * L ** (2 / p) + 2 * Y2) / (nu + 2)) / L
    else:
        b = kw["beta"]
        a = (b / 2) * Y2 ** (b / 2) / L ** (b / p + 1)
    return a, 1 / L


def ilrma_weights(spec, Y2, L, fl):
    kw = spec["kw"]
    p = kw["domain"]
    if spec["cls"] == "GaussILRMA":
        return L ** (-2 / p)
    if spec["cls"] == "TILRMA":
        nu = kw["dof"]
        return (nu + 2) / (nu * L ** (2 / p) + 2 * Y2)
    b = kw["beta"]
    return (b / 2) / (fl(Y2 ** ((2 - b) / 2)) * L ** (b / p))


def ilrma(spec, st):
    kw = spec["kw"]
    fl = zoo.floor_fn(spec)
    p = kw["domain"]
    X = st["input"]
    W = st.get("demix_filter")
    Y = st["output"] if W is None else oracles.demix(W, X)
    Y2 = np.abs(Y) ** 2
    part = kw.get("partitioning")
    T, V, Z = st["basis"], st["activation"], st.get("latent")
    if kw["source_algorithm"] == "ME":
        e = 1.0
    elif spec["cls"] == "GGDILRMA":
        e = p / (kw["beta"] + p)
    else:
        e = p / (p + 2)

    def model():
        return np.einsum("nk,fk,kt->nft", Z, T, V) if part else np.einsum("nfk,nkt->nft", T, V)

    if part:
        a, d = _ilrma_terms(spec, Y2, model())
        Z = Z * _ratio(np.einsum("nft,fk,kt->nk", a, T, V), np.einsum("nft,fk,kt->nk", d, T, V)) ** e
        Z = Z / Z.sum(axis=0)
        a, d = _ilrma_terms(spec, Y2, model())
        T = fl(T * _ratio(np.einsum("nft,nk,kt->fk", a, Z, V), np.einsum("nft,nk,kt->fk", d, Z, V)) ** e)
        a, d = _ilrma_terms(spec, Y2, model())
        V = fl(V * _ratio(np.einsum("nft,nk,fk->kt", a, Z, T), np.einsum("nft,nk,fk->kt", d, Z, T)) ** e)
    else:
        a, d = _ilrma_terms(spec, Y2, model())
        T = fl(T * _ratio(np.einsum("nft,nkt->nfk", a, V), np.einsum("nft,nkt->nfk", d, V)) ** e)
        a, d = _ilrma_terms(spec, Y2, model())
        V = fl(V * _ratio(np.einsum("nft,nfk->nkt", a, T), np.einsum("nft,nfk->nkt", d, T)) ** e)
    out = dict(activation=V)
    w = ilrma_weights(spec, Y2, model(), fl)
    alg = kw["spatial_algorithm"]
    W, Y = spatial(alg, spec, X, W, Y, w)
    norm = kw.get("normalization")
    if norm is True:
        norm = "power"
    if norm == "power":
        psi = fl(np.sqrt(np.mean(np.abs(Y) ** 2, axis=(1, 2))))
        if part:
            Z = Z / psi[:, None] ** p
            s = Z.sum(axis=0)
            T, Z = T * s, Z / s
        else:
            T = T / psi[:, None, None] ** p
        Y = Y / psi[:, None, None]
        if W is not None:
            W = W / psi[:, None]
    elif norm == "projection_back":
        r = kw.get("reference_id", 0)
        Wf = oracles.fit_filter(Y, X) if W is None else W
        s = np.linalg.inv(Wf)[:, r, :]  # (F, N)
        T = T * np.abs(s.T[:, :, None]) ** p
        Y = Y * s.T[:, :, None]
        if W is not None:
            W = W * s[:, :, None]
    out.update(basis=T)
    if part:
        out.update(latent=Z)
    if W is not None:
        out.update(demix_filter=W)
    else:
        out.update(output=Y)
    return out


def spatial(alg, spec, X, W, Y, w):
    """-> (filter or None, output) after the spatial update with weights w (N, F, T)"""
    N, F, T = Y.shape
    w = np.broadcast_to(w, (N, F, T))
    if alg in ("IP", "IP1", "IP2"):
        U = np.einsum("nft,aft,bft->fnab", w, X, X.conj()) / T
        if np.max(np.linalg.cond(U)) > 1e8:
            raise rs.Ambiguous
        if alg == "IP2":
            W = np.stack([rs.ip2(W[f], U[f], zoo.pairs_of(spec.get("pair"), N)) for f in range(F)])
        else:
            W = np.stack([rs.ip1(W[f], U[f]) for f in range(F)])
        return W, oracles.demix(W, X)
    if alg in ("ISS", "ISS1"):
        Y = np.stack([rs.iss1(Y[:, f], w[:, f]) for f in range(F)], axis=1)
    elif alg == "ISS2":
        Y = np.stack([rs.iss2(Y[:, f], w[:, f], zoo.pairs_of(spec.get("pair"), N)) for f in range(F)], axis=1)
    else:
        Y = np.stack([rs.ipa(Y[:, f], w[:, f], lq_reference) for f in range(F)], axis=1)
    return None, Y


# ---- matrices ---------------------------------------------------------------------------------------
def herm(A):
    return (A + np.swapaxes(A, -1, -2).conj()) / 2


def powm(A, e):
    w, U = np.linalg.eigh(herm(A))
    if np.min(w) <= 0:
        raise Degenerate
    return (U * (w**e)[..., None, :]) @ np.swapaxes(U, -1, -2).conj()


def riccati(P, M):
    """The positive definite G with G P G = M"""
    for A in (P, M):
        w = np.linalg.eigvalsh(herm(A))
        if np.min(w[..., 0] / w[..., -1]) < 1e-6 or np.min(w) < 1e-6:
            raise Degenerate
    R, Ri = powm(P, 0.5), powm(P, -0.5)
    return Ri @ powm(R @ M @ R, 0.5) @ Ri


# ---- MNMF -------------------------------------------------------------------------------------------
def gauss_mnmf(spec, st):
    kw = spec["kw"]
    fl = zoo.floor_fn(spec)
    X = st["input"]
    T, V, H, Z = st["basis"], st["activation"], st["spatial"], st.get("latent")
    part = kw.get("partitioning")
    XX = oracles.psd_floor(np.einsum("aft,bft->ftab", X, X.conj()), fl)

    def lam():
        return np.einsum("nk,fk,kt->nft", Z, T, V) if part else np.einsum("nfk,nkt->nft", T, V)

    def traces():
        R = np.linalg.inv(oracles.psd_floor(np.einsum("nft,nfab->ftab", lam(), H), fl))
        A = R @ XX @ R
        return (
            np.real(np.einsum("ftab,nfba->nft", A, H)),
            np.real(np.einsum("ftab,nfba->nft", R, H)),
            A,
            R,
        )

    a, d, _, _ = traces()
    if part:
        T = fl(T * np.sqrt(_ratio(np.einsum("nft,nk,kt->fk", a, Z, V), np.einsum("nft,nk,kt->fk", d, Z, V))))
        a, d, _, _ = traces()
        V = fl(V * np.sqrt(_ratio(np.einsum("nft,nk,fk->kt", a, Z, T), np.einsum("nft,nk,fk->kt", d, Z, T))))
    else:
        T = fl(T * np.sqrt(_ratio(np.einsum("nft,nkt->nfk", a, V), np.einsum("nft,nkt->nfk", d, V))))
        a, d, _, _ = traces()
        V = fl(V * np.sqrt(_ratio(np.einsum("nft,nfk->nkt", a, T), np.einsum("nft,nfk->nkt", d, T))))
    _, _, A, R = traces()
    P = np.einsum("nft,ftab->nfab", lam(), R)
    Q = np.einsum("nft,ftab->nfab", lam(), A)
    H = riccati(oracles.psd_floor(P, fl), oracles.psd_floor(H @ Q @ H, fl))
    H = oracles.psd_floor(H, fl)
    if kw.get("normalization", True):
        tr = np.real(np.trace(H, axis1=-2, axis2=-1))
        H = H / tr[..., None, None]
        if not part:
            T = T * tr[:, :, None]
    out = dict(basis=T, activation=V, spatial=H)
    if part:
        a, d, _, _ = traces()
        Z = Z * np.sqrt(_ratio(np.einsum("nft,fk,kt->nk", a, T, V), np.einsum("nft,fk,kt->nk", d, T, V)))
        out["latent"] = Z / Z.sum(axis=0)
    return out


def fast_mnmf(spec, st):
    kw = spec["kw"]
    fl = zoo.floor_fn(spec)
    X = st["input"]
    T, V, D, Q = st["basis"], st["activation"], st["spatial"], st["diagonalizer"]
    Xt2 = lambda: np.abs(oracles.demix(Q, X)) ** 2  # noqa: E731  (M, F, T)

    def terms():
        L = np.einsum("nfk,nkt->nft", T, V)
        R = np.einsum("nft,fnm->mft", L, D)
        return L, Xt2() / R**2, 1 / R

    L, a, d = terms()
    T = fl(T * np.sqrt(_ratio(np.einsum("mft,fnm,nkt->nfk", a, D, V), np.einsum("mft,fnm,nkt->nfk", d, D, V))))
    L, a, d = terms()
    V = fl(V * np.sqrt(_ratio(np.einsum("mft,fnm,nfk->nkt", a, D, T), np.einsum("mft,fnm,nfk->nkt", d, D, T))))
    L, a, d = terms()
    Q, _ = spatial(kw["diagonalizer_algorithm"], spec, X, Q, oracles.demix(Q, X), d)
    L, a, d = terms()
    D = D * np.sqrt(_ratio(np.einsum("mft,nft->fnm", a, L), np.einsum("mft,nft->fnm", d, L)))
    if kw.get("normalization", True):
        psi = fl(np.sqrt(np.mean(Xt2(), axis=(1, 2))))
        Q = Q / psi[:, None]
        D = D / psi**2
    return dict(basis=T, activation=V, spatial=D, diagonalizer=Q)


# ---- IPSDTA -----------------------------------------------------------------------------------------
def ipsdta(spec, st):
    kw = spec["kw"]
    X, W, V = st["input"], st["demix_filter"], st["activation"]
    Y = oracles.demix(W, X)
    N, F, T = Y.shape
    nu = kw.get("dof")
    blocks = oracles.psdtf_blocks(st, kw["n_blocks"])
    rngs = [b[0] for b in blocks]
    Ts = [b[1] for b in blocks]

    def inverses():
        Rs = []
        for Tb in Ts:
            R = np.einsum("nkij,nkt->ntij", Tb, V)
            w = np.linalg.eigvalsh(herm(R))
            if np.min(w) < 1e-6 or np.min(w[..., 0] / w[..., -1]) < 1e-6:
                raise Degenerate
            Rs.append(np.linalg.inv(herm(R)))
        return Rs

    def weight(Rs, Y):
        if nu is None:
            return np.ones((N, T))
        q = sum(np.real(np.einsum("nit,ntij,njt->nt", Y[:, a:b].conj(), R, Y[:, a:b])) for (a, b), R in zip(rngs, Rs))
        return (nu + 2 * F) / (nu + 2 * q)

    Ri = inverses()
    pi = weight(Ri, Y)
    new = []
    for (a, b), Tb, R in zip(rngs, Ts, Ri):
        u = np.einsum("ntij,njt->nti", R, Y[:, a:b])
        P = np.einsum("nkt,ntij->nkij", V, R) / T
        Q = np.einsum("nkt,nt,nti,ntj->nkij", V, pi, u, u.conj()) / T
        new.append(riccati(P, Tb @ Q @ Tb))
    Ts = new
    Ri = inverses()
    pi = weight(Ri, Y)
    num = den = 0
    for (a, b), Tb, R in zip(rngs, Ts, Ri):
        u = np.einsum("ntij,njt->nti", R, Y[:, a:b])
        num = num + np.real(np.einsum("nt,nti,nkij,ntj->nkt", pi, u.conj(), Tb, u))
        den = den + np.real(np.einsum("ntij,nkji->nkt", R, Tb))
    V = V * np.sqrt(_ratio(num, den))
    if kw.get("source_normalization", True):
        tr = sum(np.real(np.trace(Tb, axis1=-2, axis2=-1)) for Tb in Ts)
        Ts = [Tb / tr[:, :, None, None] for Tb in Ts]
        V = V * tr[:, :, None]
    Ri = inverses()
    pi = weight(Ri, Y)
    W = W.copy()
    for (a, b), R in zip(rngs, Ri):
        I = b - a
        U = np.empty((I, I, N, X.shape[0], X.shape[0]), dtype=complex)
        for i in range(I):
            for j in range(I):
                U[i, j] = np.einsum("nt,at,bt->nab", pi * R[:, :, j, i], X[:, a + i], X[:, a + j].conj()) / T
        if np.max(np.linalg.cond(np.stack([U[i, i] for i in range(I)]))) > 1e7:
            raise rs.Ambiguous
        W[a:b] = rs.vcd(W[a:b], U)
    return dict(blocks=Ts, activation=V, demix_filter=W)


# ---- cACGMM -----------------------------------------------------------------------------------------
def cacgmm(spec, st):
    fl = zoo.floor_fn(spec)
    X = st["input"]
    C = X.shape[0]
    Z = X / fl(np.sqrt(np.sum(np.abs(X) ** 2, axis=0)))
    if np.max(np.linalg.cond(st["covariance"])) > 1e6:
        raise Degenerate
    lg = oracles.cacg_logprob(st, fl)
    g = np.exp(lg - lg.max(axis=0))
    g = g / g.sum(axis=0)
    q = np.real(np.einsum("aft,nfab,bft->nft", Z.conj(), np.linalg.inv(st["covariance"]), Z))
    q = fl(np.maximum(q, 0))
    B = C * np.einsum("nft,aft,bft->nfab", g / q, Z, Z.conj()) / g.sum(axis=2)[:, :, None, None]
    B = oracles.psd_floor(B, fl)
    if spec["kw"].get("normalization", True):
        B = B / np.real(np.trace(B, axis1=-2, axis2=-1))[..., None, None]
    return dict(posterior=g, mixing=g.mean(axis=2), covariance=B)


def step(spec, st):
    name = spec["cls"]
    if name == "GaussMNMF":
        return gauss_mnmf(spec, st)
    if name == "FastGaussMNMF":
        return fast_mnmf(spec, st)
    if name == "CACGMM":
        return cacgmm(spec, st)
    if "IPSDTA" in name:
        return ipsdta(spec, st)
    return ilrma(spec, st)
