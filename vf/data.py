"""Workload generators.  Everything is derived from JSON-able parameters, so a case replays exactly."""

import numpy as np

from .core import rng_of


def crandn(rng, *shape):
    return (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)) / np.sqrt(2)


def mixing(rng, F, M, N, cond=8.0):
    """Random well-conditioned complex mixing matrices (F, M, N)."""
    A = crandn(rng, F, M, N)
    U, s, Vh = np.linalg.svd(A, full_matrices=False)
    k = s.shape[-1]
    s = np.exp(rng.uniform(0, np.log(cond), size=(F, k)))
    return (U * s[:, None, :]) @ Vh


def sources(rng, N, F, T, kind):
    if kind == "nmf":
        K = 2
        B = rng.gamma(0.6, 1.0, size=(N, F, K)) + 0.02
        H = rng.gamma(0.4, 1.0, size=(N, K, T)) + 0.01
        return np.sqrt(B @ H) * crandn(rng, N, F, T)
    if kind == "laplace":
        env = np.sqrt(rng.gamma(0.7, 1.0, size=(N, 1, T)) + 0.01)
        col = np.exp(0.5 * rng.standard_normal((N, F, 1)))
        return env * col * crandn(rng, N, F, T)
    if kind == "sparse":
        act = (rng.random((N, F, T)) < 0.3) + 0.05
        return act * crandn(rng, N, F, T)
    if kind == "gauss":
        return crandn(rng, N, F, T)
    raise ValueError(kind)


def mixture(seed, M, F, T, N=None, kind="nmf", snr_db=20.0, gain=1.0, cond=8.0):
    """Noisy convolutive-like mixture X (M, F, T)."""
    rng = rng_of("mixture", seed, M, F, T, N, kind)
    N = M if N is None else N
    S = sources(rng, N, F, T, kind)
    A = mixing(rng, F, M, N, cond)
    X = np.einsum("fmn,nft->mft", A, S)
    p = np.sqrt(np.mean(np.abs(X) ** 2))
    X = X / p
    if snr_db is not None:
        X = X + 10 ** (-snr_db / 20.0) * crandn(rng, M, F, T)
    return gain * X


def mixture_of(c):
    """Mixture from the case dict."""
    return mixture(
        c["seed"],
        c["M"],
        c["F"],
        c["T"],
        N=c.get("Nsrc"),
        kind=c.get("kind", "nmf"),
        snr_db=c.get("snr", 20.0),
        gain=c.get("gain", 1.0),
        cond=c.get("cond", 8.0),
    )


def real_mixture(seed, M, T, gain=1.0):
    rng = rng_of("real", seed, M, T)
    S = rng.laplace(size=(M, T))
    A = rng.standard_normal((M, M))
    U, s, Vh = np.linalg.svd(A)
    A = (U * np.exp(rng.uniform(0, np.log(6.0), size=M))) @ Vh
    X = A @ S
    X = X - X.mean(axis=1, keepdims=True)
    return gain * X / np.sqrt(np.mean(X**2))


def rand_psd(rng, *shape, cond=50.0, real=False):
    """Random Hermitian positive definite matrices, shape (..., n, n)."""
    n = shape[-1]
    sh = tuple(shape[:-1])
    A = rng.standard_normal(sh + (n, n))
    if not real:
        A = A + 1j * rng.standard_normal(sh + (n, n))
    Q, _ = np.linalg.qr(A)
    lam = np.exp(rng.uniform(0, np.log(cond), size=sh + (n,))) * np.exp(rng.normal(size=sh + (1,)))
    H = (Q * lam[..., None, :]) @ np.swapaxes(Q, -1, -2).conj()
    return (H + np.swapaxes(H, -1, -2).conj()) / 2
