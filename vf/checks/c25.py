"""C25: model parameters are feasible at every callback, and given parameters are the initial state."""

import warnings

import numpy as np

from .. import data, grid, mono, oracles, zoo
from ..core import rng_of

RULE = (
    "distinct (class, algorithm, options, shape, given parameters) runs whose every callback state and final state were checked "
    "for feasibility and whose initial state was compared with the given or documented initial parameters"
)
ASSUMPTIONS = [
    "runs that reach a numerically degenerate state (nearly singular filter, weights spread over ten decades) are followed up to it",
    "the first ADMM iterate is the zero filter by construction, so invertibility is not demanded of ADMM filters",
]
REQUIRED = {"state:%s" % c: 100 for c in grid.CLASSES}
REQUIRED.update({"given demix_filter": 300, "given basis": 100, "given spatial": 30, "given diagonalizer": 20, "given latent": 30,
                 "floor": 500, "given dual": 40, "given auxiliary1": 20, "given activation": 100})  # fmt: skip


def cases(tier, seed):
    for r in range(120 if tier == "quick" else 2500):
        for cls, alg in grid.STRATA:
            q = rng_of("C25x", seed, r, cls, alg)
            c = grid.case(cls, alg, "C25", seed, r, it=[3, 12, 6, 25][r % 4] if r % 8 else 0)
            c["spec"]["kw"]["scale_restoration"] = False
            if c["spec"].get("floor") == "none" and c["it"] > 6:  # nothing keeps a long run away from zero
                c["spec"]["floor"] = "max:1e-12"
            if zoo.FAMILY[cls] in ("ica", "mnmf", "cacgmm"):
                c["spec"]["kw"].pop("scale_restoration")
            if "Grad" in cls:
                c["gain"] = 1.0
            if zoo.FAMILY[cls] in ("iva", "fdica") and q.integers(6) == 0 and alg not in ("IP2", "ISS2", "IPA"):
                c["M"] = 1
            c["given"] = bool(q.integers(2))
            if q.integers(12) == 0:
                c["spec"]["rng"] = "none"
            c["spec"]["with_penalty"] = bool(q.integers(5))
            yield c
            if r < (6 if tier == "quick" else 60) and zoo.FAMILY[cls] in ("ilrma", "mnmf", "ipsdta"):
                c = grid.case(cls, alg, "C25f", seed, r, it=int(q.integers(0, 4)))
                c.update(mode="floor", gain=1.0, eps=round(float(q.uniform(0.01, 0.2)), 3))
                yield c


def given(spec, X, q, every=False):
    """random subset of valid initial parameters"""
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    kw = spec["kw"]
    if fam == "ica":
        N = X.shape[0]
        U, _, Vh = np.linalg.svd(q.standard_normal((N, N)))
        return {"demix_filter": (U * np.exp(q.uniform(-0.3, 0.3, N)) if "Fast" not in cls else U) @ Vh}
    M, F, T = X.shape
    N = kw.get("n_sources") or M
    K = kw.get("n_basis")
    out = {}
    if fam not in ("mnmf", "cacgmm"):
        U, _, Vh = np.linalg.svd(data.crandn(q, F, M, M))
        out["demix_filter"] = (U * np.exp(q.uniform(-0.3, 0.3, (F, 1, M))) if "Fast" not in cls else U) @ Vh
    if fam in ("ilrma", "mnmf"):
        if kw.get("partitioning"):
            Z = q.random((N, K)) + 0.1
            out.update(basis=q.random((F, K)) + 0.1, activation=q.random((K, T)) + 0.1, latent=Z / Z.sum(axis=0))
        else:
            out.update(basis=q.random((N, F, K)) + 0.1, activation=q.random((N, K, T)) + 0.1)
    if cls == "GaussMNMF":
        H = data.rand_psd(q, N, F, M, cond=10)
        out["spatial"] = H / np.real(np.trace(H, axis1=-2, axis2=-1))[..., None, None]
    if cls == "FastGaussMNMF":
        out["spatial"] = q.random((F, N, M)) + 0.2
        out["diagonalizer"] = data.mixing(q, F, M, M)
    if fam == "ipsdta":
        out["activation"] = q.random((N, K, T)) + 0.1
        groups = {}
        for a, b in oracles.blocks(F, kw["n_blocks"]):
            groups.setdefault(b - a, []).append((a, b))
        B = []
        for w in sorted(groups):
            B.append(data.rand_psd(q, N, K, len(groups[w]), w, cond=10))
        tr = sum(np.real(np.trace(b, axis1=-2, axis2=-1)).sum(axis=2) for b in B)
        B = [b / tr[:, :, None, None, None] for b in B]  # already normalized: stays as given
        out["basis"] = B[0] if len(B) == 1 else tuple(B)
    lead = (len(spec.get("penalty", ["l21"])),) if not ("Mask" in cls or "HVA" in cls) else ()
    if cls in ("PDSIVA", "PDSBSS", "MaskingPDSBSS", "MaskingPDSHVA", "HVA"):
        out["dual"] = 0.1 * data.crandn(q, *(lead + X.shape))
    if cls in ("ADMMIVA", "ADMMBSS", "MaskingADMMBSS", "MaskingADMMHVA"):
        out["auxiliary1"] = data.mixing(q, F, M, M)
        out["dual1"] = 0.1 * data.crandn(q, F, M, M)
        out["auxiliary2"] = 0.1 * data.crandn(q, *(lead + X.shape))
        out["dual2"] = 0.1 * data.crandn(q, *(lead + X.shape))
    keys = [k for k in out if q.integers(3) or every]
    return {k: out[k] for k in keys}


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(np.allclose(x, y, rtol=1e-10, atol=0) for x, y in zip(a, b))
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-10, atol=1e-14)


def feasible(rec, spec, X, st, first, where):
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    kw = spec["kw"]
    key = "state:" + cls
    ok = lambda cond, kind, msg: rec.check(cond, "%s:%s" % (kind, cls), where + ": " + msg, counter=key)  # noqa: E731
    M, T = X.shape[0], X.shape[-1]
    F = 1 if X.ndim == 2 else X.shape[1]
    N = kw.get("n_sources") or M
    K = kw.get("n_basis")

    def arr(name, shape, dtype, kind=None, opt=False):
        v = st.get(name)
        if v is None:
            return ok(opt, "missing", name + " is missing") and None
        if not ok(isinstance(v, np.ndarray) and v.shape == shape and v.dtype == dtype, "shape",
                  "%s is %s %s, expected %s %s" % (name, np.shape(v), getattr(v, "dtype", None), shape, np.dtype(dtype))):  # fmt: skip
            return None
        if kind == "nonneg":
            ok(np.min(v) >= 0, "negative", "%s has an entry %r" % (name, float(np.min(v))))
        if kind == "psd":
            psd(name, v)
        return v

    def psd(name, v):
        d = np.max(np.abs(v - np.swapaxes(v, -1, -2).conj()))
        ok(d <= 1e-9 * np.max(np.abs(v)), "hermitian", "%s is not Hermitian (%.3g)" % (name, d))
        w = np.linalg.eigvalsh((v + np.swapaxes(v, -1, -2).conj()) / 2)
        ok(np.min(w[..., 0] / w[..., -1]) > -1e-12 and np.min(w[..., -1]) > 0, "definite", "%s has eigenvalue %.3g (largest %.3g)" % (name, np.min(w), np.max(w)))

    rec.count("states")
    ok(st["input"].shape == X.shape and np.array_equal(st["input"], X), "input", "the stored input changed")
    ok(st.get("n_sources") == N and st.get("n_channels") == M, "size", "n_sources/n_channels %s/%s" % (st.get("n_sources"), st.get("n_channels")))
    if fam == "ica":
        ok(st.get("n_samples") == T, "size", "n_samples %s" % st.get("n_samples"))
        W = arr("demix_filter", (N, M), float)
        arr("output", (N, T), float)
    else:
        ok(st.get("n_bins") == F and st.get("n_frames") == T, "size", "n_bins/n_frames %s/%s" % (st.get("n_bins"), st.get("n_frames")))
        if not (fam == "cacgmm"):
            arr("output", (N, F, T), complex)
        W = None
        if fam not in ("mnmf", "cacgmm"):
            W = arr("demix_filter", (F, N, M), complex, opt=not zoo.uses_filter(spec))
    if W is not None and "ADMM" not in cls:
        s = np.linalg.svd(W, compute_uv=False)
        ok(np.min(s[..., -1] / s[..., 0]) > 1e-12, "singular", "demixing filter is singular")
    if W is None and fam not in ("mnmf", "cacgmm") and st.get("output") is not None:
        s = np.linalg.svd(oracles.fit_filter(st["output"], X), compute_uv=False)
        ok(np.min(s[..., -1] / s[..., 0]) > 1e-12, "singular", "estimates are linearly dependent")
    if "Gauss" in cls and fam == "iva":
        a = arr("variance", (N, T), float, "nonneg")
        if first and a is not None:
            ok(np.all(a == 1), "initial", "variance is not one")
    if fam in ("ilrma", "mnmf"):
        if kw.get("partitioning"):
            arr("basis", (F, K), float, "nonneg")
            arr("activation", (K, T), float, "nonneg")
            Z = arr("latent", (N, K), float, "nonneg")
            if Z is not None:
                ok(np.max(np.abs(Z.sum(axis=0) - 1)) < 1e-6, "simplex", "partition weights sum to %s" % Z.sum(axis=0))
        else:
            arr("basis", (N, F, K), float, "nonneg")
            arr("activation", (N, K, T), float, "nonneg")
    if cls == "GaussMNMF":
        arr("spatial", (N, F, M, M), complex, "psd")
    if cls == "FastGaussMNMF":
        arr("spatial", (F, N, M), float, "nonneg")
        Q = arr("diagonalizer", (F, M, M), complex)
        if Q is not None:
            s = np.linalg.svd(Q, compute_uv=False)
            ok(np.min(s[..., -1] / s[..., 0]) > 1e-12, "singular", "diagonalizer is singular")
    if fam == "ipsdta":
        arr("activation", (N, K, T), float, "nonneg")
        bl = oracles.blocks(F, kw["n_blocks"])
        try:
            got = oracles.psdtf_blocks(st, kw["n_blocks"])
        except (AssertionError, TypeError, IndexError, AttributeError):
            ok(False, "shape", "basis does not hold one matrix per block")
            got = []
        for ((a, b), Tb), w in zip(got, bl):
            if ok(Tb.shape == (N, K, w[1] - w[0], w[1] - w[0]), "shape", "block %s has basis %s" % (w, Tb.shape)):
                psd("basis of block %s" % (w,), Tb)
    if fam == "cacgmm":
        al = arr("mixing", (N, F), float, "nonneg")
        if al is not None:
            ok(np.max(np.abs(al.sum(axis=0) - 1)) < 1e-6, "simplex", "mixture weights sum to %s" % al.sum(axis=0))
        arr("covariance", (N, F, M, M), complex, "psd")
        g = arr("posterior", (N, F, T), float, "nonneg", opt=first)
        if g is not None:
            ok(np.max(np.abs(g.sum(axis=0) - 1)) < 1e-6, "simplex", "posteriors do not sum to one")
    for k in ("dual", "dual2", "auxiliary2"):
        if k in st and st[k] is not None:
            lead = (len(spec.get("penalty", ["l21"])),) if not ("Mask" in cls or "HVA" in cls) else ()
            arr(k, lead + X.shape, complex)
    for k in ("dual1", "auxiliary1"):
        if k in st and st[k] is not None:
            arr(k, (F, M, M), complex)


def floored(c, rec):
    """A flooring far above rounding: the floored parameters never fall below it, from the first state on."""
    spec = dict(c["spec"], floor="max:%g" % c["eps"])
    cls, kw = spec["cls"], dict(spec["kw"])
    for k in ("normalization", "source_normalization", "scale_restoration"):
        if k in kw:
            kw[k] = False
    spec["kw"] = kw
    tr = zoo.Tracer()
    label = "%s.%s" % (cls, mono.algo(spec))
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with rec.sut(label + " with floor %g" % c["eps"], mono.excuse(spec, tr.states)):
            zoo.build(spec, callbacks=[tr])(zoo.input_for(spec, c), n_iter=c["it"])
    for j, st in enumerate(tr.states):
        names = ["basis", "activation"] if zoo.FAMILY[cls] != "ipsdta" else ["activation"][: j == 0]
        for k in names + ["latent", "spatial"] * (j == 0 and cls != "GaussMNMF"):
            if st.get(k) is not None and np.all(np.isfinite(st[k])):
                low = float(np.min(st[k]))
                rec.check(low >= c["eps"] * (1 - 1e-9), "floor:" + cls, "%s: %s of state %d falls to %g below the floor %g" % (label, k, j, low, c["eps"]), counter="floor")
    rec.nontrivial("floor", label, sorted((a, str(b)) for a, b in kw.items()), c["eps"], c["it"])


def run(c, rec):
    if c.get("mode") == "floor":
        return floored(c, rec)
    spec = c["spec"]
    cls = spec["cls"]
    kw = spec["kw"]
    fam = zoo.FAMILY[cls]
    X = zoo.input_for(spec, c)
    q = rng_of("C25g", c["seed"])
    init = given(spec, X, q) if c["given"] and cls != "CACGMM" else {}
    cp = {k: tuple(a.copy() for a in v) if isinstance(v, tuple) else v.copy() for k, v in init.items()}
    tr = zoo.Tracer()
    label = "%s.%s" % (cls, mono.algo(spec))
    broke = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with rec.sut(label):
            m = zoo.build(spec, callbacks=[tr])
        try:
            m(X, n_iter=c["it"], **cp)
        except (np.linalg.LinAlgError, FloatingPointError, ValueError) as e:
            if tr.states and bad(spec, tr.states[-1]):
                broke = e
                rec.skip("degenerate state (numerical failure)")
            else:
                with rec.sut(label):
                    raise
        except Exception:  # noqa: BLE001
            with rec.sut(label):
                raise
    for k, v in init.items():
        rec.check(same(cp[k], v), "argument:" + cls, "%s: the given %s was modified" % (label, k), counter="arguments")
    if broke is None and c["seed"] % 3 == 0:
        mono.bare(rec, spec, X, c["it"], m, init)
    states = tr.states + ([] if broke is not None else [zoo.snap(m)])
    if not rec.check(len(tr.states) >= 1, "history", "no callback state"):
        return
    # ---- the initial state
    s0 = tr.states[0]
    for k, v in init.items():
        rec.count("given " + k)
        if k == "demix_filter" and s0.get(k) is None:
            rec.close(s0["output"], oracles.demix(v, X), "initial:" + cls, rtol=1e-9, msg=label + " output of the given filter")
        else:
            if fam == "ipsdta" and k == "activation" and kw.get("source_normalization") and "basis" not in init:
                continue  # the normalization of the drawn basis is compensated in the activation
            rec.check(same(s0.get(k), v), "initial:" + cls, "%s: the given %s is not the initial one" % (label, k))
    if "demix_filter" not in init and fam not in ("mnmf", "cacgmm"):
        n = X.shape[0]
        E = np.eye(n) if fam == "ica" else np.tile(np.eye(n), (X.shape[1], 1, 1))
        if s0.get("demix_filter") is None:
            rec.close(s0["output"], X, "initial:" + cls, rtol=1e-12, msg=label + " initial output")
        else:
            rec.close(s0["demix_filter"], E, "initial:" + cls, rtol=1e-12, msg=label + " identity filter")
    for k in ("basis", "activation", "spatial"):
        if k in init or fam not in ("ilrma", "mnmf"):
            continue
        v = s0.get(k)
        if v is None:
            continue
        if cls == "GaussMNMF" and k == "spatial":
            M = X.shape[0]
            rec.close(v, np.broadcast_to(np.eye(M) / M, v.shape), "initial:" + cls, rtol=1e-12, msg=label + " spatial")
        else:
            rec.check(np.max(v) <= 1 + 1e-8 and (v.size < 30 or np.std(v) > 0.1), "initial:" + cls, label + ": %s is not a uniform draw" % k)
    for k in ("dual", "dual1", "dual2", "auxiliary1", "auxiliary2"):
        if k in s0 and k not in init and s0[k] is not None:
            rec.check(not np.any(s0[k]) or k == "auxiliary1", "initial:" + cls, label + ": %s does not start at zero" % k)
    # ---- every state
    n = 0
    for k, st in enumerate(states):
        where = "%s %s" % (label, "callback %d" % k if k < len(tr.states) else "final state")
        if not mono.finite_state(st):
            if k and bad(spec, states[k - 1]):
                rec.skip("degenerate state")
                break
            if "ADMM" in cls and k == len(states) - 1 and c["it"] == 1:
                break
            rec.check(False, "finite:" + cls, where + ": non-finite parameters %s" % [a for a, v in st.items() if isinstance(v, np.ndarray) and not np.all(np.isfinite(v))])
            break
        if k and bad(spec, st):
            rec.skip("degenerate state")
            break
        feasible(rec, spec, X, st, k == 0, where)
        n += 1
    if n:
        rec.nontrivial(label, X.shape, sorted((a, str(b)) for a, b in kw.items()), sorted(init), spec.get("floor"), spec.get("pair"), c["it"])
        rec.sample({"config": label, "given": sorted(init), "states": n})


def bad(spec, st):
    """Round-off dominates: nearly singular filters or models whose variances spread over eight decades."""
    try:
        if mono.ill_conditioned(spec, st):
            return True
        if st.get("covariance") is not None:
            return bool(np.max(np.linalg.cond(st["covariance"])) > 1e6)
        if "basis" not in st:
            return False
        if zoo.FAMILY[spec["cls"]] == "ipsdta":
            for _, Tb in oracles.psdtf_blocks(st, spec["kw"]["n_blocks"]):
                w = np.linalg.eigvalsh(np.einsum("nkab,nkt->ntab", Tb, st["activation"]))
                if not np.all(w > 0) or np.max(w) > 1e6 * np.min(w):
                    return True
            return False
        L = oracles.nmf(st)
        return bool(np.max(L) / np.min(L) > (1e8 if "Fast" in spec["cls"] or "MNMF" in spec["cls"] else 10 ** (4 * spec["kw"].get("domain", 2))))
    except (np.linalg.LinAlgError, ValueError, IndexError):
        return True
