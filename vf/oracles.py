"""Independent definitions of the objectives, written from the documentation."""

import numpy as np

from . import zoo


def demix(W, X):
    return np.einsum("fnm,mft->nft", W, X)


def fit_filter(Y, X):
    """W with Y = W X, by least squares, per bin."""
    N, F, T = Y.shape
    W = np.empty((F, N, X.shape[0]), dtype=complex)
    for f in range(F):
        sol, *_ = np.linalg.lstsq(X[:, f].T, Y[:, f].T, rcond=None)
        W[f] = sol.T
    return W


def state_YW(spec, st):
    """(Y, W) in force in this snapshot."""
    X = st["input"]
    W = st.get("demix_filter")
    if W is None:
        Y = st["output"]
        return Y, fit_filter(Y, X)
    return demix(W, X), W


def logabsdet(W):
    return np.log(np.abs(np.linalg.det(W)))


def nmf(st):
    T, V = st["basis"], st["activation"]
    if st.get("latent") is not None:
        return np.einsum("nk,fk,kt->nft", st["latent"], T, V)
    return np.einsum("nfk,nkt->nft", T, V)


def blocks(F, n_blocks):
    """Index ranges of the frequency blocks."""
    rem = F % n_blocks
    q = F // n_blocks
    out, s = [], 0
    for b in range(n_blocks):
        w = q if b < n_blocks - rem else q + 1
        out.append((s, s + w))
        s += w
    return out


def psdtf_blocks(st, n_blocks):
    """List of (range, T_b (N, K, w, w))."""
    T = st["basis"]
    F = st["input"].shape[1]
    rng = blocks(F, n_blocks)
    Ts = []
    if isinstance(T, tuple):
        for part in T:
            Ts += [part[:, :, i] for i in range(part.shape[2])]
    else:
        Ts = [T[:, :, i] for i in range(T.shape[2])]
    assert len(Ts) == len(rng)
    return list(zip(rng, Ts))


def objective(spec, st):
    """The documented loss of the state."""
    name = spec["cls"]
    fam = zoo.FAMILY[name]
    kw = spec.get("kw", {})
    X = st["input"]
    con = spec.get("contrast")
    if fam == "ica":
        if name == "FastICA":
            from ssspy.transform import whiten

            G = zoo.real_contrast(con or "logcosh")[0]
            return float(np.sum(np.mean(G(st["demix_filter"] @ whiten(X)), axis=1)))
        G = zoo.real_contrast("laplace" if "Laplace" in name else (con or "logcosh"))[0]
        W = st["demix_filter"]
        return float(np.sum(np.mean(G(W @ X), axis=1)) - logabsdet(W))
    if fam == "fdica":
        G = zoo.amp_contrast("laplace" if "Laplace" in name else (con or "laplace"))[0]
        W = st["demix_filter"]
        Y = demix(W, X)
        return float(np.sum(np.mean(G(np.abs(Y)), axis=2)) - 2 * np.sum(logabsdet(W)))
    if name in ("FastIVA", "FasterIVA"):
        from ssspy.transform import whiten

        G = zoo.amp_contrast(con or "laplace")[0]
        Y = demix(st["demix_filter"], whiten(X))
        return float(np.sum(np.mean(G(np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))), axis=1)))
    if name in ("PDSIVA", "ADMMIVA", "PDSBSS", "ADMMBSS", "MaskingPDSBSS", "MaskingADMMBSS"):
        W = st["demix_filter"]
        Y = demix(W, X)
        pens = spec.get("penalty", ["l21"])
        if name.startswith("Masking"):
            pens = ["l21"]
        p = 0.0
        for q in pens:
            if q == "l1":
                p += np.sum(np.abs(Y))
            elif q == "l2sq":
                p += 0.5 * np.sum(np.abs(Y) ** 2)
            elif q in zoo.GROUPS:
                p += np.sum(np.sqrt(np.sum(np.abs(Y) ** 2, axis=zoo.GROUPS[q])))
            elif q == "ramp":
                p += np.sum(zoo.ramp(Y.shape) * np.abs(Y))
            else:
                p += (0.5 if q == "half_l21" else 1.0) * np.sum(
                    np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
                )
        return float(p - np.sum(logabsdet(W)))
    if fam == "iva":
        Y, W = state_YW(spec, st)
        r2 = np.sum(np.abs(Y) ** 2, axis=1)
        if "Gauss" in name:
            a = st["variance"]
            g = Y.shape[1] * np.log(a) + r2 / a
        else:
            g = zoo.amp_contrast("laplace" if "Laplace" in name else (con or "laplace"))[0](
                np.sqrt(r2)
            )
        return float(np.sum(np.mean(g, axis=1)) - 2 * np.sum(logabsdet(W)))
    if fam == "ilrma":
        Y, W = state_YW(spec, st)
        p = kw.get("domain", 2)
        L = nmf(st)
        Y2 = np.abs(Y) ** 2
        R = L ** (2.0 / p)
        if name == "GaussILRMA":
            g = Y2 / R + np.log(R)
        elif name == "TILRMA":
            nu = kw["dof"]
            g = (1 + nu / 2) * np.log1p((2 / nu) * Y2 / R) + np.log(R)
        else:
            b = kw["beta"]
            g = (Y2 / R) ** (b / 2) + np.log(R)
        return float(np.sum(np.mean(g, axis=2)) - 2 * np.sum(logabsdet(W)))
    if name == "GaussMNMF":
        fl = zoo.floor_fn(spec)
        L = nmf(st)
        H = st["spatial"]
        R = np.einsum("nft,nfab->ftab", L, H)
        R = psd_floor(R, fl)
        XX = psd_floor(np.einsum("aft,bft->ftab", X, X.conj()), fl)
        tr = np.real(np.einsum("ftab,ftba->ft", np.linalg.inv(R), XX))
        ld = np.sum(np.log(np.linalg.eigvalsh(R)), axis=-1)
        return float(np.sum(np.mean(tr + ld, axis=1)))
    if name == "FastGaussMNMF":
        L = nmf(st)
        Q, D = st["diagonalizer"], st["spatial"]
        R = np.einsum("nft,fnm->fmt", L, D)
        Z = np.abs(np.einsum("fmc,cft->fmt", Q, X)) ** 2
        return float(
            np.sum(np.mean(np.sum(Z / R + np.log(R), axis=1), axis=-1)) - 2 * np.sum(logabsdet(Q))
        )
    if name == "CACGMM":
        fl = zoo.floor_fn(spec)
        lg = cacg_logprob(st, fl)
        m = lg.max(axis=0)
        return float(-np.sum(np.mean(m + np.log(np.sum(np.exp(lg - m), axis=0)), axis=-1)))
    if fam == "ipsdta":
        W = st["demix_filter"]
        Y = demix(W, X)
        V = st["activation"]
        N, F, T = Y.shape
        quad = np.zeros((N, T))
        ld = np.zeros((N, T))
        for (a, b), Tb in psdtf_blocks(st, kw["n_blocks"]):
            R = np.einsum("nkij,nkt->ntij", Tb, V)
            R = psd_floor(R, lambda x: np.maximum(x, 1e-10))
            Ri = np.linalg.inv(R)
            y = Y[:, a:b]
            quad += np.real(np.einsum("nit,ntij,njt->nt", y.conj(), Ri, y))
            ld += np.sum(np.log(np.linalg.eigvalsh(R)), axis=-1)
        if name == "GaussIPSDTA":
            g = quad + ld
        else:
            nu = kw["dof"]
            g = (nu + 2 * F) / 2 * np.log1p((2 / nu) * quad) + ld
        return float(np.sum(np.mean(g, axis=1)) - 2 * np.sum(logabsdet(W)))
    raise KeyError(name)


def psd_floor(A, fl):
    A = (A + np.swapaxes(A, -1, -2).conj()) / 2
    w, P = np.linalg.eigh(A)
    return (P * fl(w)[..., None, :]) @ np.swapaxes(P, -1, -2).conj()


def cacg_logprob(st, fl):
    """log alpha - logdet B - C log z^H B^-1 z : (N, F, T)"""
    X = st["input"]
    B = st["covariance"]
    al = st["mixing"]
    C = X.shape[0]
    Z = X / fl(np.sqrt(np.sum(np.abs(X) ** 2, axis=0)))
    Bi = np.linalg.inv(B)
    q = np.real(np.einsum("aft,nfab,bft->nft", Z.conj(), Bi, Z))
    q = fl(np.maximum(q, 0))
    ld = np.sum(np.log(np.linalg.eigvalsh(B)), axis=-1)
    return (np.log(al) - ld)[:, :, None] - C * np.log(q)
