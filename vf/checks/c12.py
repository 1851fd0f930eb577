"""C12: spatial updates attain the optimum of the coordinates they update."""

import warnings

import numpy as np

from .. import data, grid, oracles, refspatial as rs, zoo
from ..core import rng_of
from .c11 import reference as lq_reference

RULE = (
    "distinct (kernel or class, sources, bins, pair schedule, weights, options) whose result was compared, up to the "
    "free phase of each row, with a reference minimizer written from the optimization problem; overwriting and "
    "untouched coordinates checked"
)
ASSUMPTIONS = ["steps whose minimizer is numerically not unique are skipped (counted)"]
KERNELS = ["ip1", "ip2", "ip2_pair", "iss1", "iss2", "ipa", "vcd"]
CLASSES = [
    (c, a)
    for c, algs in (
        ("AuxIVA", ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"]),
        ("AuxLaplaceIVA", ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"]),
        ("AuxGaussIVA", ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"]),
        ("AuxFDICA", ["IP", "IP1", "IP2"]),
        ("AuxLaplaceFDICA", ["IP", "IP1", "IP2"]),
    )
    for a in algs
]
REQUIRED = {k: 100 for k in KERNELS}
REQUIRED.update({"step:IP": 20, "step:IP2": 20, "step:ISS": 20, "step:ISS2": 20, "step:IPA": 20, "untouched": 50, "overwrite": 50})
PAIRS = ["default", "comb", "rev", "seq2", "seqsort", "last"]


def cases(tier, seed):
    q = tier == "quick"
    for k in KERNELS:
        for r in range(800 if q else 3000):
            yield dict(kernel=k, seed=seed * 10000 + r, n=4)
    for r in range(150 if q else 700):
        for cls, alg in CLASSES:
            c = grid.case(cls, alg, "C12", seed, r, long=0.05, it=3, restore=False, align=False)
            if alg == "IPA":
                c["spec"]["kw"]["newton_iter"] = 100
            if alg in ("IP2", "ISS2"):
                c["spec"]["pair"] = PAIRS[(r + len(cls)) % len(PAIRS)]
            c["kernel"] = "class"
            yield c


def rand_filter(r, F, N):
    W = np.eye(N) + 0.5 * data.crandn(r, F, N, N)
    return W * np.exp(r.normal(size=(F, N, 1)))


def rand_cov(r, F, N):
    return data.rand_psd(r, F, N, N, cond=[3.0, 50.0, 500.0][int(r.integers(3))])


def run(c, rec):
    if c["kernel"] == "class":
        return run_class(c, rec)
    from ssspy.bss import _update_spatial_model as us

    r = rng_of("C12", c["kernel"], c["seed"])
    k = c["kernel"]
    for _ in range(c["n"]):
        N = int(r.integers(2, 6 if k not in ("vcd", "ipa") else 4))
        F = int(r.integers(1, 4)) if r.integers(100) else int(r.integers(20, 330))
        if r.integers(40) == 0 and k not in ("vcd", "ipa"):
            N = int(r.integers(6, 10))
        kw = {}
        fl = [None, "none", "max", "add"][int(r.integers(4))]
        if k in ("vcd", "ipa") and r.integers(12) == 0:
            N = int(r.integers(4, 6))
        if fl == "none":
            kw["flooring_fn"] = None
        elif fl == "max":
            kw["flooring_fn"] = lambda x: np.maximum(x, 1e-12)
        elif fl == "add":
            kw["flooring_fn"] = lambda x: x + 1e-10
        try:
            kernel(c, rec, us, r, k, N, F, kw)
        except rs.Ambiguous:
            rec.skip("minimizer not unique")
        rec.nontrivial(k, N, F, fl)


def kernel(c, rec, us, r, k, N, F, kw):
    if k in ("ip1", "ip2", "ip2_pair"):
        W, U = rand_filter(r, F, N), rand_cov(r, F, N)
        W0, U0 = W.copy(), U.copy()
        pname = PAIRS[int(r.integers(len(PAIRS)))]
        if k == "ip1":
            fn = us.update_by_ip1
            ref = np.stack([rs.ip1(W[f], U[f]) for f in range(F)])
            pairs = [(n, n) for n in range(N)]
        elif k == "ip2":
            fn = us.update_by_ip2
            kw = dict(kw, pair_selector=zoo.pair_fn(pname))
            pairs = zoo.pairs_of(pname, N)
            ref = np.stack([rs.ip2(W[f], U[f], pairs) for f in range(F)])
        else:
            m, n = [int(x) for x in r.permutation(N)[:2]]
            pairs = [(m, n)]
            ref = np.stack([rs.ip2(W[f], U[f], pairs) for f in range(F)])
            with rec.sut(k):
                out = us.update_by_ip2_one_pair(W, U[:, [m, n]], pair=(m, n), **kw)
            rec.check(np.array_equal(W, W0) and np.array_equal(U, U0), "overwrite", "one-pair update changed an argument")
            rs.rows_close(rec, out, ref[:, [m, n]], k, "pairwise update of %s" % (pairs,))
            return
        mode = int(r.integers(3))
        if mode < 2:
            kw["overwrite"] = bool(mode)
        with rec.sut(k):
            out = fn(W, U, **kw)
        rec.check(np.array_equal(U, U0), "overwrite", k + " changed the covariance")
        if kw.get("overwrite", True):
            rec.check(np.array_equal(W, out), "overwrite", k + ": argument does not hold the result")
        else:
            rec.check(np.array_equal(W, W0) and not np.shares_memory(W, out), "overwrite", k + " overwrote the filter")
        rs.rows_close(rec, out, ref, k, "%s N=%d %s" % (k, N, pname))
        idle = [n for n in range(N) if not any(n in p for p in pairs)]
        if idle:
            rec.check(np.array_equal(out[:, idle], W0[:, idle]), "untouched", k + ": an unscheduled row changed")
    elif k in ("iss1", "iss2", "ipa"):
        T = 60
        Y = data.crandn(r, N, F, T) * np.exp(0.5 * r.normal(size=(N, F, 1)))
        mixer = np.eye(N) + 0.5 * data.crandn(r, F, N, N)
        Y = np.einsum("fnm,mft->nft", mixer, Y)
        full = bool(r.integers(2))
        w = r.gamma(1.0, 1.0, size=(N, F if full else 1, T)) + 0.05
        wb = np.broadcast_to(w, (N, F, T))
        Y0 = Y.copy()
        pname = PAIRS[int(r.integers(len(PAIRS) - 1))]
        if k == "iss1":
            ref = np.stack([rs.iss1(Y[:, f], wb[:, f]) for f in range(F)], axis=1)
            fn = us.update_by_iss1
        elif k == "iss2":
            if pname == "default":
                pairs = zoo.pairs_of("seq2", N)  # documented default: stop=n_sources, step=2
            else:
                kw = dict(kw, pair_selector=zoo.pair_fn(pname))
                pairs = zoo.pairs_of(pname, N)
                if r.integers(4) == 0:
                    pairs = [(-1, 0), (1 % N, -1)]
                    if N == 2:
                        pairs = [(-1, 0)]
                    kw["pair_selector"] = lambda n: list(pairs)
            ref = np.stack([rs.iss2(Y[:, f], wb[:, f], pairs) for f in range(F)], axis=1)
            fn = us.update_by_iss2
        else:
            ref = np.stack([rs.ipa(Y[:, f], wb[:, f], lq_reference) for f in range(F)], axis=1)
            fn = us.update_by_ipa
            kw["max_iter"] = 100
            if r.integers(2):
                kw["normalization"] = bool(r.integers(2))
        with rec.sut(k), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = fn(Y, w, **kw)
        rec.check(np.array_equal(Y, Y0), "overwrite", k + " changed its argument")
        rs.rows_close(rec, out, ref, k, "%s N=%d F=%d %s" % (k, N, F, pname), tol=1e-5 if k == "ipa" else 1e-6)
    else:
        I = int(r.integers(1, 4))
        W = rand_filter(r, F * I, N).reshape(F, I, N, N)
        G = data.crandn(r, F, N, 3 * I * N, I * N)
        C = np.einsum("bnki,bnkj->bnij", G, G.conj()) / (I * N)
        R = np.ascontiguousarray(C.reshape(F, N, I, N, I, N).transpose(0, 2, 4, 1, 3, 5))
        weak = [1, 1, 1e-2, 1e-4, 1e-6, 0][int(r.integers(6))]  # coupling between the bins of a block
        for i in range(I):
            for j in range(I):
                if i != j:
                    R[:, i, j] *= weak
        R *= 10.0 ** r.uniform(-3, 3)
        W0, R0 = W.copy(), R.copy()
        ref = np.stack([rs.vcd(W[b], R[b]) for b in range(F)])
        mode = int(r.integers(3))
        if mode < 2:
            kw["overwrite"] = bool(mode)
        kw.pop("flooring_fn", None)
        if r.integers(2):
            kw["singular_fn"] = lambda x: np.abs(x) < 1e-10
        with rec.sut(k):
            out = us.update_by_block_decomposition_vcd(W, R, **kw)
        rec.check(np.array_equal(R, R0), "overwrite", "vcd changed the covariance")
        if kw.get("overwrite", True):
            rec.check(np.array_equal(W, out), "overwrite", "vcd: argument does not hold the result")
        else:
            rec.check(np.array_equal(W, W0) and not np.shares_memory(W, out), "overwrite", "vcd overwrote the filter")
        if I == 1 or weak == 0:
            rs.rows_close(rec, out, ref, k, "vcd N=%d I=%d" % (N, I))
        else:
            rec.close(out, ref, k, rtol=1e-6, msg="vcd N=%d I=%d coupling %g" % (N, I, weak))


# ---- one iteration of the auxiliary-function methods --------------------------------------------------
def weights(spec, Y, variance, fl):
    """(N, F or 1, T) majorizer weights G'(r) / (2 r)."""
    name = spec["cls"]
    if "FDICA" in name:
        r = np.abs(Y)
        dG = zoo.amp_contrast("laplace" if "Laplace" in name else spec.get("contrast", "laplace"))[1]
        return dG(r) / fl(2 * r)
    r = np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
    if "Gauss" in name:
        return ((2 * r / variance) / fl(2 * r))[:, None]
    dG = zoo.amp_contrast("laplace" if "Laplace" in name else spec.get("contrast", "laplace"))[1]
    return (dG(r) / fl(2 * r))[:, None]


def step(spec, st):
    """Reference next (filter or None, output)"""
    fl = zoo.floor_fn(spec)
    X = st["input"]
    alg = spec["kw"]["spatial_algorithm"]
    W = st.get("demix_filter")
    Y = st["output"] if W is None else oracles.demix(W, X)
    N, F, T = Y.shape
    var = zoo.floor_fn(spec)(np.mean(np.abs(Y) ** 2, axis=1)) if "Gauss" in spec["cls"] else None
    full = lambda w: np.broadcast_to(w, (w.shape[0], F, T))  # noqa: E731
    if alg in ("IP", "IP1"):
        w = full(weights(spec, Y, var, fl))
        U = np.einsum("nft,aft,bft->fnab", w, X, X.conj()) / T
        return np.stack([rs.ip1(W[f], U[f]) for f in range(F)]), None, var
    if alg == "IP2":
        W = W.copy()
        for m, n in zoo.pairs_of(spec.get("pair"), N):
            Ymn = oracles.demix(W[:, [m, n]], X)
            w = full(weights(spec, Ymn, None if var is None else var[[m, n]], fl))
            U = np.einsum("nft,aft,bft->fnab", w, X, X.conj()) / T
            W = np.stack([rs.pair_minimizer(W[f], U[f, 0], U[f, 1], m, n) for f in range(F)])
        return W, None, var
    w = full(weights(spec, Y, var, fl))
    if alg in ("ISS", "ISS1"):
        Y = np.stack([rs.iss1(Y[:, f], w[:, f]) for f in range(F)], axis=1)
    elif alg == "ISS2":
        pairs = zoo.pairs_of(spec.get("pair"), N)
        Y = np.stack([rs.iss2(Y[:, f], w[:, f], pairs) for f in range(F)], axis=1)
    else:
        Y = np.stack([rs.ipa(Y[:, f], w[:, f], lq_reference) for f in range(F)], axis=1)
    return None, Y, var


def run_class(c, rec):
    spec = c["spec"]
    alg = spec["kw"]["spatial_algorithm"]
    X = zoo.input_for(spec, c)
    tr = zoo.Tracer()
    with rec.sut(spec["cls"] + " call"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = zoo.build(spec, callbacks=[tr])
        m(X, n_iter=c["it"])
    label = spec["cls"] + "." + alg
    from .. import mono

    for k in range(c["it"]):
        a, b = tr.states[k], tr.states[k + 1]
        if mono.ill_conditioned(spec, a):
            rec.skip("degenerate state")
            return
        try:
            W, Y, var = step(spec, a)
        except (rs.Ambiguous, np.linalg.LinAlgError):
            rec.skip("minimizer not unique")
            continue
        cnt = "step:" + alg
        if W is not None:
            rs.rows_close(rec, b["demix_filter"], W, "step:" + label, "iteration %d" % k, counter=cnt, tol=1e-4 if alg == "IPA" else 1e-5)
        else:
            rec.check(b.get("demix_filter") is None, "step:" + label, "a filter appeared", counter="form")
            rs.rows_close(rec, b["output"], Y, "step:" + label, "iteration %d" % k, counter=cnt, tol=1e-4 if alg == "IPA" else 1e-5)
        if var is not None:
            rec.close(b["variance"], var, "variance:" + label, rtol=1e-8, msg="variance after iteration %d" % k, counter="variance")
        if alg in ("IP2", "ISS2") and spec.get("pair") == "last" and alg == "IP2":
            N = X.shape[0]
            idle = list(range(1, N - 1))
            if idle:
                rec.check(
                    np.array_equal(a["demix_filter"][:, idle], b["demix_filter"][:, idle]), "untouched", label + ": idle row changed"
                )
    rec.nontrivial(label, X.shape, spec.get("pair"), spec.get("floor"), spec.get("contrast"))
    rec.sample({"config": label, "shape": X.shape})
