"""C18: separation commutes with the symmetries of the problem."""

import numpy as np

from .. import data, grid, mono, zoo
from ..core import rng_of
from . import c25

RULE = (
    "distinct (symmetry, class, algorithm, shape, options) for which two complete runs, one on the transformed input and "
    "initial state, were compared parameter by parameter and in the returned estimate"
)
SYM = ["frames", "bins", "conj", "phase", "linear", "unitary", "scale", "double", "relabel", "layout", "mics", "single"]
REQUIRED = {
    "frames": 300, "bins": 150, "conj": 200, "phase": 200, "linear": 100, "unitary": 60, "scale": 100, "double": 150,
    "relabel": 60, "layout": 300, "mics": 150, "single": 150,
}  # fmt: skip
ASSUMPTIONS = [
    "at most five iterations, so that differently ordered sums stay comparable; tolerance 1e-6 of the largest entry",
    "flooring is off or far below the data wherever the symmetry rescales the model",
]
PROX = ("PDS", "ADMM", "HVA")
NAT = ("NaturalGrad", "Aux")


def is_prox(cls):
    return any(p in cls for p in PROX)


def applies(sym, cls, alg, spec):
    fam = zoo.FAMILY[cls]
    kw = spec["kw"]
    if sym in ("frames", "layout", "single"):
        return True
    if fam == "ica":
        return sym == "double" or (sym in ("linear",) and "Natural" in cls) or (sym in ("unitary", "relabel") and "Fast" not in cls)
    if sym == "bins":
        return "HVA" not in cls and fam != "ipsdta"
    if sym == "conj":
        return True
    if sym == "phase":
        return fam != "ipsdta"
    if sym == "linear":
        return cls.startswith(NAT) or fam == "ipsdta" or fam == "ilrma" or fam == "mnmf"
    if sym == "unitary":
        return ("Grad" in cls and "Natural" not in cls) or is_prox(cls) or cls in ("GaussMNMF", "CACGMM")
    if sym == "scale":
        if cls.startswith("Aux"):
            return spec.get("contrast") in (None, "laplace", "power")
        return fam in ("ilrma", "mnmf", "ipsdta", "cacgmm") or cls in ("FastIVA", "FasterIVA")
    if sym == "double":
        return not is_prox(cls)
    if sym == "relabel":
        return "Grad" in cls or is_prox(cls) or fam in ("mnmf", "cacgmm")
    if sym == "mics":
        return not cls.startswith("Fast") or fam == "mnmf"
    raise ValueError(sym)


def cases(tier, seed):
    for r in range(34 if tier == "quick" else 600):
        for cls, alg in grid.STRATA:
            for sym in SYM:
                q = rng_of("C18", seed, r, cls, alg, sym)
                if sym in ("frames", "layout", "conj", "single") and q.integers(3):
                    continue
                c = grid.case(cls, alg, "C18", seed, r, sym, it=int(q.integers(1, 5)))
                fam = zoo.FAMILY[cls]
                spec, kw = c["spec"], c["spec"]["kw"]
                if not applies(sym, cls, alg, spec):
                    continue
                if sym in ("bins", "linear", "unitary", "relabel", "double", "scale") and "permutation_alignment" in kw:
                    kw["permutation_alignment"] = False
                if "scale_restoration" in kw:
                    if sym in ("linear", "unitary", "relabel", "double", "bins"):
                        kw["scale_restoration"] = False
                    if sym == "scale" or cls.startswith("Fast"):
                        kw["scale_restoration"] = True
                if sym in ("linear", "unitary"):
                    if fam == "ilrma" and kw["normalization"] == "projection_back":
                        kw["normalization"] = "power"
                    if fam == "mnmf" and sym == "linear":
                        kw["normalization"] = False
                if sym in ("scale", "linear") and "floor" in spec:
                    spec["floor"] = None if cls == "AuxGaussIVA" or alg == "IPA" else "none"
                    c["gain"] = 1.0
                if sym == "single":
                    c["gain"] = 1.0
                if sym == "scale" and alg == "IPA":
                    continue  # the Newton iterations of the penalized minimizer start from scale-dependent points
                if fam == "ipsdta" and spec.get("floor") == "none":
                    spec["floor"] = "max:1e-12"
                c["sym"] = sym
                yield c


def axis_take(A, idx, axis):
    return np.take(A, idx, axis=axis)


def complete(spec, X, q):
    """Every initial parameter, given explicitly."""

    class All:
        def __getattr__(self, name):
            return getattr(q, name)

        def integers(self, *a, **k):
            return 1

    return c25.given(spec, X, All())


def transform(sym, spec, X, q):
    """-> (transformed input, function (name, array, slot) mapping parameters and results)"""
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    ica = fam == "ica"
    M, T = X.shape[0], X.shape[-1]
    F = 1 if ica else X.shape[1]
    part = bool(spec["kw"].get("partitioning"))
    N = spec["kw"].get("n_sources") or M
    cx = "dual auxiliary2 dual2 output".split()
    filt = "demix_filter auxiliary1 dual1".split()

    if sym == "layout":
        k = int(q.integers(4))
        if k == 0:
            X2 = np.asfortranarray(X)
        elif k == 1:
            big = np.full(X.shape[:-1] + (2 * T,), np.nan, dtype=X.dtype)
            big[..., 1::2] = X
            X2 = big[..., 1::2]
        elif k == 2:
            X2 = X[..., ::-1].copy()[..., ::-1]
        else:
            X2 = np.moveaxis(np.moveaxis(X, 0, -1).copy(), -1, 0)
        X2.flags.writeable = False
        return X2, lambda n, A: A
    if sym == "frames":
        p = q.permutation(T)
        return X[..., p], lambda n, A: A[..., p] if n in cx + ["activation", "posterior"] else A
    if sym == "double":
        dup = lambda A: np.concatenate([A, A], axis=-1)  # noqa: E731
        return dup(X), lambda n, A: dup(A) if n in cx + ["activation", "posterior"] else A
    if sym == "bins":
        p = q.permutation(F)

        def g(n, A):
            if n in cx:
                return A[..., p, :]
            if n in filt or n == "diagonalizer":
                return A[p]
            if n == "basis":
                return A[p] if part else A[:, p]
            if n == "spatial":
                return A[p] if cls == "FastGaussMNMF" else A[:, p]
            if n in ("mixing", "covariance", "posterior"):
                return A[:, p]
            return A

        return X[:, p], g
    if sym == "conj":
        return X.conj(), lambda n, A: A.conj()
    if sym == "phase":
        e = np.exp(2j * np.pi * q.random(F))[:, None]
        return X * e, lambda n, A: A * e if n in cx else A
    if sym in ("linear", "unitary", "mics"):
        if sym == "mics":
            P = np.eye(M)[q.permutation(M)]
            B = P if ica else np.tile(P.astype(complex), (F, 1, 1))
        elif ica:
            U, _, Vh = np.linalg.svd(q.standard_normal((M, M)))
            B = U * np.exp(q.uniform(-1, 1, M) * (sym == "linear")) @ Vh
        else:
            U, _, Vh = np.linalg.svd(data.crandn(q, F, M, M))
            B = U * np.exp(q.uniform(-1, 1, (F, 1, M)) * (sym == "linear")) @ Vh
        Bi = np.linalg.inv(B)
        X2 = B @ X if ica else np.einsum("fab,bft->aft", B, X)

        def g(n, A):
            if n in filt or n == "diagonalizer":
                return A @ Bi
            if n in ("spatial", "covariance") and A.ndim == 4:
                return B @ A @ np.swapaxes(B, -1, -2).conj()
            return A

        return X2, g
    if sym == "scale":
        lo = 1 if spec.get("floor") != "none" else -1  # downwards only where nothing is floored
        s = float(np.exp(q.uniform(-1, 1) if q.integers(3) else q.choice([lo, 1]) * q.uniform(1, 10)))

        def g(n, A):
            if n == "output":
                return A * s
            if n == "basis" and fam in ("ilrma", "mnmf"):
                return A * s ** spec["kw"].get("domain", 2)
            if n == "activation" and fam == "ipsdta":
                return A * s**2
            return A

        return X * s, g
    if sym == "relabel":
        p = q.permutation(N)

        def g(n, A):
            if n in cx:
                return A[p] if ica else np.take(A, p, axis=-3)
            if n in filt:
                return A[p] if ica else A[:, p]
            if n == "latent":
                return A[p]
            if n in ("basis", "activation"):
                return A if part else A[p]
            if n == "spatial":
                return A[:, p] if cls == "FastGaussMNMF" else A[p]
            if n in ("mixing", "covariance", "posterior"):
                return A[p]
            return A

        return X, g
    raise ValueError(sym)


def run(c, rec):
    spec, sym = c["spec"], c["sym"]
    cls, kw = spec["cls"], spec["kw"]
    fam = zoo.FAMILY[cls]
    q = rng_of("C18d", c["seed"], sym)
    X = zoo.input_for(spec, c)
    if sym == "single":
        single(c, rec, spec, X, q)
        return
    X2, g = transform(sym, spec, X, q)
    spec2 = {**spec, "kw": dict(kw)}
    init = {}
    if fam != "cacgmm" and not cls.startswith(("FastICA", "FastIVA", "FasterIVA")):
        init = complete(spec, X, q)
    if sym == "mics":
        p = np.argmax(match(X2, X), axis=1)
        ref = kw.get("reference_id", 0) % len(X)
        spec2["kw"]["reference_id"] = int(np.flatnonzero(p == ref)[0])
    if fam == "cacgmm":
        init = mixture_state(X, kw, q)
    app = lambda n, A: tuple(g(n, a) for a in A) if isinstance(A, tuple) else g(n, A)  # noqa: E731
    init2 = {n: app(n, A) for n, A in init.items()}
    label = "%s.%s" % (cls, mono.algo(spec))
    ok = True
    try:
        m, Y = start(spec, X.copy(), c["it"], init)
        st = zoo.snap(m)
        ok = mono.finite_state(st) and not mono.ill_conditioned(spec, st)
    except (np.linalg.LinAlgError, FloatingPointError):
        ok = False
    if not ok:
        rec.skip("degenerate run")
        return
    with rec.sut(label + " on the transformed problem"):
        m2, Y2 = start(spec2, X2, c["it"], init2)
        st2 = zoo.snap(m2)
    names = ["demix_filter", "basis", "activation", "latent", "spatial", "diagonalizer", "variance", "dual", "auxiliary1",
             "auxiliary2", "dual1", "dual2", "posterior", "mixing", "covariance"]  # fmt: skip
    if sym == "scale" or cls.startswith(("FastICA", "FastIVA", "FasterIVA")):
        names = []
    # eigenvectors, hence the rows of pairwise updates, are defined up to a unit factor
    pairwise = mono.algo(spec).startswith(("IP2", "ISS2"))
    rt = 1e-5 if fam in ("ipsdta",) or mono.algo(spec) == "IPA" or cls == "GaussMNMF" else 1e-6
    for n in names:
        A = st.get(n)
        if A is None or isinstance(A, (str, bool, int, float)):
            continue
        if n == "variance" and sym in ("frames", "double", "bins", "relabel"):
            continue
        E, R = app(n, A), st2.get(n)
        if pairwise and n in ("demix_filter", "diagonalizer"):
            R = rephase(R, E)
        for e, a in zip(E, R) if isinstance(E, tuple) else [(E, R)]:
            if n in ("demix_filter", "diagonalizer") and fam != "ica":
                for f in range(len(e)):
                    rec.close(a[f], e[f], sym + ":" + n, rtol=rt, msg=label, counter=sym)
            else:
                rec.close(a, e, sym + ":" + n, rtol=rt, atol=1e-12, msg=label, counter=sym)
    if sym in ("linear", "unitary") and fam in ("mnmf", "cacgmm"):
        pass  # the reference microphone is another one
    else:
        E = app("output", Y)
        if cls == "FastICA" or (pairwise and kw.get("scale_restoration") is False):
            Y2 = rephase(Y2, E)
        rec.close(Y2, E, sym + ":output", rtol=rt, msg=label, counter=sym)
    rec.nontrivial(sym, label, X.shape, sorted((k, str(v)) for k, v in kw.items()))
    rec.sample({"symmetry": sym, "config": label, "iterations": c["it"]})


def mixture_state(X, kw, q):
    """Initial parameters of the mixture model."""
    M, F = X.shape[:2]
    N = kw.get("n_sources") or M
    a = q.random((N, F)) + 0.1
    B = np.stack([data.rand_psd(q, F, M) for _ in range(N)])
    B = B / np.real(np.trace(B, axis1=-2, axis2=-1))[..., None, None]
    return {"mixing": a / a.sum(axis=0), "covariance": B}


def start(spec, X, n_iter, init):
    """-> object, estimate of a run from the given parameters"""
    if spec["cls"] != "CACGMM":
        m = zoo.build(spec)
        return m, m(X, n_iter=n_iter, **init)

    def assign(m):
        if not hasattr(m, "given"):
            m.given = True
            for k, v in init.items():
                setattr(m, k, v.copy())

    m = zoo.build(spec, callbacks=[assign])
    return m, m(X, n_iter=n_iter)


def single(c, rec, spec, X, q):
    """A single-precision recording is separated like its double-precision copy, as far as rounding allows: the
    deviation is measured against that of runs on inputs perturbed by as much as single precision resolves."""
    label = "%s.%s" % (spec["cls"], mono.algo(spec))
    S = X.astype(np.complex64 if np.iscomplexobj(X) else np.float32)
    D = S.astype(X.dtype)

    def go(Z):
        m = zoo.build(spec)
        return m, m(Z, n_iter=c["it"])

    try:
        m, Y = go(D)
        st = zoo.snap(m)
        if not mono.finite_state(st) or mono.ill_conditioned(spec, st):
            raise FloatingPointError
    except (np.linalg.LinAlgError, FloatingPointError):
        rec.skip("degenerate run")
        return
    with rec.sut(label + " on a single-precision recording"):
        m2, Y2 = go(S)
    if not rec.check(Y2.shape == Y.shape and np.iscomplexobj(Y2) == np.iscomplexobj(Y), "single", label + ": shape or field"):
        return
    sc = np.max(np.abs(Y))
    err = np.max(np.abs(Y2 - Y)) / sc
    tol = 1e-3
    if not err < tol:
        for _ in range(4):
            try:
                Z = go(D * (1 + 1e-6 * q.standard_normal(D.shape)))[1]
                tol = max(tol, 100 * np.max(np.abs(Z - Y)) / sc)
            except (np.linalg.LinAlgError, FloatingPointError):
                tol = np.inf
    if tol > 0.1:
        rec.skip("chaotic run")
        return
    rec.check(err < tol, "single", lambda: "%s: estimates differ by %.3g (allowed %.3g)" % (label, err, tol))
    rec.check(bool(np.all(S == D)), "single", label + ": input modified")
    if getattr(m, "loss", None) and np.all(np.isfinite(m.loss)):
        a, b = np.array(m.loss, dtype=float), np.array(m2.loss, dtype=float)
        rec.check(a.shape == b.shape and np.max(np.abs(a - b)) <= tol * (1 + np.max(np.abs(a))), "single", label + ": losses differ")
    rec.nontrivial("single", label, X.shape, sorted((k, str(v)) for k, v in spec["kw"].items()))


def rephase(A, E):
    z = np.sum(E * np.conj(A), axis=-1, keepdims=True)
    a = np.abs(z)
    return A * np.where(a > 0, z / np.where(a > 0, a, 1), 1)


def match(A, B):
    """A[i] equals B[j]"""
    A, B = A.reshape(len(A), -1), B.reshape(len(B), -1)
    return np.all(A[:, None] == B[None, :], axis=-1)
