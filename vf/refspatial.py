"""Reference spatial updates, written from the optimization problems they solve (one bin at a time)."""

import numpy as np


class Ambiguous(Exception):
    """The minimizer of a step is (numerically) not unique, so states cannot be compared."""


def ip1_row(W, U, n):
    """argmin_w  w U_n w^H - 2 log|det W| over row n (phase free)."""
    w = np.linalg.inv(W @ U[n])[:, n]
    w = w / np.sqrt(np.real(w.conj() @ U[n] @ w))
    return w.conj()


def ip1(W, U):
    W = W.copy()
    for n in range(W.shape[0]):
        W[n] = ip1_row(W, U, n)
    return W


def pair_minimizer(W, Um, Un, m, n):
    """Rows m, n jointly minimizing w_m U_m w_m^H + w_n U_n w_n^H - 2 log|det W|."""
    N = W.shape[0]
    others = [k for k in range(N) if k not in (m, n)]

    def null(A):
        if A.shape[0] == 0:
            return np.eye(N, dtype=complex)
        _, _, Vh = np.linalg.svd(A)
        return Vh[A.shape[0] :].conj().T

    Nm, Nn = null(W[others] @ Um), null(W[others] @ Un)
    # w_n^H U_m w_m = 0 and w_n^H U_n w_m = 0 with w_m = Nm a, w_n = Nn b
    A = Nn.conj().T @ Um @ Nm
    B = Nn.conj().T @ Un @ Nm
    lam, V = np.linalg.eig(np.linalg.solve(B, A))
    best = []
    for j in range(2):
        a = V[:, j]
        g = A @ a
        b = np.array([-g[1].conj(), g[0].conj()])  # b^H g = 0
        wm, wn = Nm @ a, Nn @ b
        wm = wm / np.sqrt(np.real(wm.conj() @ Um @ wm))
        wn = wn / np.sqrt(np.real(wn.conj() @ Un @ wn))
        W2 = W.copy()
        W2[m], W2[n] = wm.conj(), wn.conj()
        best.append((-2 * np.log(np.abs(np.linalg.det(W2)) + 1e-300), W2))
    best.sort(key=lambda t: t[0])
    if best[1][0] - best[0][0] < 1e-5:
        raise Ambiguous
    return best[0][1]


def ip2(W, U, pairs):
    for m, n in pairs:
        W = pair_minimizer(W, U[m], U[n], m, n)
    return W


def cov(Y, w):
    """U_k = mean_t w_k y y^H for one bin; Y (N, T), w (N, T)"""
    return np.einsum("kt,it,jt->kij", w, Y, Y.conj()) / Y.shape[1]


def iss1(Y, w):
    N = Y.shape[0]
    for n in range(N):
        a = np.mean(w * np.abs(Y[n]) ** 2, axis=-1)
        v = np.mean(w * Y * Y[n].conj(), axis=-1) / a
        new = Y - v[:, None] * Y[n]
        new[n] = Y[n] / np.sqrt(a[n])
        Y = new
    return Y


def iss2(Y, w, pairs):
    N = Y.shape[0]
    for m, n in pairs:
        m, n = m % N, n % N
        U = cov(Y, w)
        new = Y.copy()
        P = [m, n]
        for k in range(N):
            if k in P:
                continue
            G = U[k][np.ix_(P, P)]
            # y_k + x_m y_m + x_n y_n, weighted-orthogonal to y_m and y_n
            x = -np.linalg.solve(G.T, U[k][k, P])
            new[k] = Y[k] + x @ Y[P]
        Um, Un = U[m][np.ix_(P, P)], U[n][np.ix_(P, P)]
        T = pair_minimizer(np.eye(2, dtype=complex), Um, Un, 0, 1)
        new[P] = T @ Y[P]
        Y = new
    return Y


def ipa(Y, w, reference):
    """reference(H, v, z) -> (global minimizer, hard)"""
    N = Y.shape[0]
    for n in range(N):
        U = cov(Y, w)
        E = [k for k in range(N) if k != n]
        a = np.array([np.real(U[k][n, n]) for k in E])
        beta = np.array([np.conj(U[k][n, k]) for k in E]) / a
        M = np.linalg.inv(U[n])
        C = M[np.ix_(E, E)]
        d = np.linalg.solve(C, M[E, n])
        z = np.real(M[n, n] - M[n, E] @ d)
        ra = np.sqrt(a)
        H = C / (ra[:, None] * ra[None, :])
        s, hard = reference(H, -ra * (beta + d), z)
        if hard:
            raise Ambiguous
        x = s / ra - beta
        new = Y.copy()
        for i, k in enumerate(E):
            new[k] = Y[k] + x[i] * Y[n]
        c = np.zeros(N, dtype=complex)
        c[n] = 1
        c[E] = -x
        p = np.linalg.solve(U[n], c)
        p = p / np.sqrt(np.real(p.conj() @ U[n] @ p))
        new[n] = p.conj() @ Y
        Y = new
    return Y


def vcd(W, R):
    """W (I, N, M) rows of one block; R (I, I, N, M, M): cost sum_ijn w_in^H R_ijn w_jn - 2 sum_i log|det W_i|,
    with w_in the conjugated row."""
    W = W.copy()
    I, N, M = W.shape
    for i in range(I):
        for n in range(N):
            U = R[i, i, n]
            g = np.zeros(M, dtype=complex)
            for j in range(I):
                if j != i:
                    g = g + R[i, j, n] @ W[j, n].conj()
            # rows k != n fixed: the determinant is  w^H c  with  W_k c = 0
            others = [k for k in range(N) if k != n]
            if others:
                _, _, Vh = np.linalg.svd(W[i][others])
                c = Vh[-1].conj()
            else:
                c = np.ones(1, dtype=complex)
            # stationarity:  U w + g = c / (w^H c)^*  =>  w = U^-1 (tau c - g)
            Uc, Ug = np.linalg.solve(U, c), np.linalg.solve(U, g)
            k0, k1 = np.real(c.conj() @ Uc), np.conj(Ug.conj() @ c)  # c^H w = tau k0 - k1
            r = abs(k1)
            ph = -k1 / r if r > 1e-14 * np.sqrt(k0) else 1.0
            t = (-r + np.sqrt(r * r + 4 * k0)) / (2 * k0)  # t (t k0 + r) = 1
            w = t * ph * Uc - Ug
            W[i, n] = w.conj()
    return W


def rows_close(rec, A, B, key, msg, tol=1e-6, counter=None):
    """Compare along the last axis up to one unit phase per row."""
    A, B = np.asarray(A), np.asarray(B)
    if not rec.check(A.shape == B.shape, key, "%s shape %s expected %s" % (msg, A.shape, B.shape), counter):
        return False
    ip = np.sum(A * B.conj(), axis=-1, keepdims=True)
    with np.errstate(all="ignore"):
        ph = np.where(np.abs(ip) > 0, ip / np.abs(ip), 1.0)
    nb = np.sqrt(np.sum(np.abs(B) ** 2, axis=-1, keepdims=True))
    nb = np.maximum(nb, 1e-300)
    return rec.close(A * ph.conj() / nb, B / nb, key, rtol=0, atol=tol, msg=msg, counter=counter)
