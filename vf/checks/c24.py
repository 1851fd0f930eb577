"""C24: normalization changes the representation, not the model (twin steps with and without it)."""

import copy
import warnings

import numpy as np

from .. import data, grid, mono, oracles, zoo
from ..core import rng_of

RULE = (
    "distinct (class, algorithm, options, shape) pairs of twin steps from the same state, one with and one without "
    "normalization, whose models (likelihood, power-to-model ratios, model covariances, posteriors) were compared"
)
ASSUMPTIONS = [
    "partitioned GaussMNMF is exempt: its trace normalization is documented to change the cost",
    "states in which the flooring is active or the filter is nearly singular are skipped and counted",
]
MODELS = ["GaussILRMA", "TILRMA", "GGDILRMA", "GaussMNMF", "FastGaussMNMF", "GaussIPSDTA", "TIPSDTA", "CACGMM"]
STRATA = [s for s in grid.STRATA if s[0] in MODELS]
REQUIRED = {"likelihood:%s" % m: 60 for m in MODELS}
REQUIRED.update({"condition:%s" % m: 60 for m in MODELS})
REQUIRED.update({"late": 100, "partition": 30, "projection_back": 30})


def cases(tier, seed):
    for r in range(300 if tier == "quick" else 3000):
        for cls, alg in STRATA:
            c = grid.case(cls, alg, "C24", seed, r, long=0.06, it=[0, 1, 3, 8][r % 4], restore=False, align=False)
            q = rng_of("C24x", seed, r, cls, alg)
            kw = c["spec"]["kw"]
            for k in ("normalization", "source_normalization"):
                kw.pop(k, None)
            if "ILRMA" in cls:
                on = [True, "power", "projection_back"][r % 3]
                if kw["partitioning"] and on == "projection_back":
                    on = "power"
            elif cls == "GaussMNMF":
                kw.pop("partitioning", None)
                on = True
            else:
                on = True
            if cls == "FastGaussMNMF" and r % 3 == 0:
                on = "power"
            if alg == "IPA":
                kw["newton_iter"] = 3
            if on == "projection_back" and q.integers(4) == 0:
                kw["reference_id"] = None  # the first channel is used
            c["on"] = on
            c["default"] = bool(on is True and q.integers(3) == 0 and cls not in ("GaussMNMF",))
            c["scaled"] = bool(q.integers(3) > 0)
            yield c
            if r % 6 == 1 and cls != "CACGMM" and c["T"] >= 30 * c["M"] and c["F"] > 2 * kw["n_basis"] and c["spec"].get("floor") != "none":
                yield dict(c, it=13, mode="late")


KEY = {"GaussIPSDTA": "source_normalization", "TIPSDTA": "source_normalization"}


def with_norm(spec, value):
    s = copy.deepcopy(spec)
    s["kw"][KEY.get(spec["cls"], "normalization")] = value
    return s


def init_of(spec, st, q, scaled):
    """kwargs that start a run in (a rescaled version of) the observed state"""
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    out = {}
    sc = lambda *sh: np.exp(q.uniform(-1.5, 1.5, sh)) if scaled else np.ones(sh)  # noqa: E731
    for k in ("basis", "activation", "latent", "spatial", "diagonalizer"):
        if st.get(k) is not None:
            out[k] = tuple(a.copy() for a in st[k]) if isinstance(st[k], tuple) else st[k].copy()
    if fam == "ilrma":
        W = st.get("demix_filter")
        W = oracles.fit_filter(st["output"], st["input"]) if W is None else W
        out["demix_filter"] = W * sc(1, W.shape[1], 1)
    elif fam == "ipsdta":
        out["demix_filter"] = st["demix_filter"] * sc(1, st["demix_filter"].shape[1], 1)
        T = out["basis"]
        N, K = (T[0] if isinstance(T, tuple) else T).shape[:2]
        s = sc(N, K)[:, :, None, None, None]
        out["basis"] = tuple(a * s for a in T) if isinstance(T, tuple) else T * s
    elif cls == "GaussMNMF":
        H = out["spatial"]
        out["spatial"] = H * sc(*H.shape[:2])[:, :, None, None]
    elif cls == "FastGaussMNMF":
        out["diagonalizer"] = out["diagonalizer"] * sc(1, out["diagonalizer"].shape[1], 1)
    return out


def model(spec, st):
    """quantities that no change of representation may touch: name -> (value, relative tolerance)"""
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    kw = spec["kw"]
    out = {}
    if fam == "ilrma":
        Y, _ = oracles.state_YW(spec, st)
        L = oracles.nmf(st)
        out["power-to-model ratio"] = np.abs(Y) ** 2 / L ** (2 / kw["domain"])
        out["activation"] = st["activation"]
    elif cls == "GaussMNMF":
        out["model covariance"] = np.einsum("nft,nfab->nftab", oracles.nmf(st), st["spatial"])
        out["activation"] = st["activation"]
    elif cls == "FastGaussMNMF":
        Qi = np.linalg.inv(st["diagonalizer"])
        G = np.einsum("fam,fnm,fbm->nfab", Qi, st["spatial"], Qi.conj())
        out["model covariance"] = np.einsum("nft,nfab->nftab", oracles.nmf(st), G)
        out["activation"] = st["activation"]
    elif fam == "ipsdta":
        for i, (_, Tb) in enumerate(oracles.psdtf_blocks(st, kw["n_blocks"])):
            out["model covariance of block %d" % i] = np.einsum("nkij,nkt->ntij", Tb, st["activation"])
        out["estimate magnitudes"] = np.abs(oracles.demix(st["demix_filter"], st["input"]))
    else:
        lg = oracles.cacg_logprob(st, zoo.floor_fn(spec))
        g = np.exp(lg - lg.max(axis=0))
        out["posterior"] = g / g.sum(axis=0)
        out["mixing"] = st["mixing"]
    return out


def condition(rec, spec, c, st, label):
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    kw = spec["kw"]
    key = "condition:" + cls
    if fam == "ilrma":
        Y, W = oracles.state_YW(spec, st)
        if c["on"] == "projection_back":
            s = np.linalg.inv(W)[:, kw.get("reference_id") or 0, :]
            rec.close(s, np.ones(s.shape), key, rtol=1e-6, msg=label + " back-projection scale", counter=key)
        else:
            p = np.mean(np.abs(Y) ** 2, axis=(1, 2))
            rec.close(p, np.ones(p.shape), key, rtol=1e-6, msg=label + " output power")
        if st.get("latent") is not None:
            rec.close(st["latent"].sum(axis=0), np.ones(st["latent"].shape[1]), key, rtol=1e-8, msg=label + " partition sum")
    elif cls == "FastGaussMNMF":
        p = np.mean(np.abs(oracles.demix(st["diagonalizer"], st["input"])) ** 2, axis=(1, 2))
        rec.close(p, np.ones(p.shape), key, rtol=1e-6, msg=label + " diagonalized power")
    elif fam == "ipsdta":
        tr = sum(np.real(np.trace(Tb, axis1=-2, axis2=-1)) for _, Tb in oracles.psdtf_blocks(st, kw["n_blocks"]))
        rec.close(tr, np.ones(tr.shape), key, rtol=1e-6, msg=label + " trace of the bases")
    else:
        H = st["spatial"] if cls == "GaussMNMF" else st["covariance"]
        tr = np.trace(H, axis1=-2, axis2=-1)
        rec.close(tr, np.ones(tr.shape), key, rtol=1e-6, msg=label + " trace")


def start(spec, X, it, init, trace, rec=None):
    tr = zoo.Tracer()
    m = zoo.build(spec, callbacks=[tr])
    m(X, n_iter=it, **init)
    if rec is not None:
        mono.bare(rec, spec, X, it, m, init)
    return tr.states if trace else tr.states[-1]


def late(c, rec, off, on, X, label):
    """The normalized run itself, far into its iterations: each step is the unnormalized step in another representation."""
    cls = off["cls"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            states = start(on, X, c["it"], {}, True)
        except np.linalg.LinAlgError:  # judged by C01-C03
            rec.skip("degenerate late run")
            return
        for k in range(1, len(states)):
            a = states[k]
            if mono.ill_conditioned(off, a) or not mono.finite_state(a) or floored(off, a):
                rec.skip("degenerate or floored state")
                return
            condition(rec, on, c, a, label + " iteration %d" % k)
            if k not in (9, 10, 11, 12):
                continue
            with rec.sut(label):
                b = start(off, X, 1, init_of(off, a, None, False), False)
            nxt = states[k + 1]
            if mono.ill_conditioned(off, nxt) or floored(off, nxt):
                rec.skip("degenerate or floored state")
                return
            tol = 1e-3 if zoo.FAMILY[cls] == "ipsdta" else 1e-6
            ma, mb = model(off, b), model(on, nxt)
            for name in ma:
                rec.close(mb[name], ma[name], "late:" + cls, rtol=tol, scale=np.max(np.abs(ma[name])), msg="%s %s (iteration %d)" % (label, name, k + 1), counter="late")
    rec.nontrivial("late", label, X.shape, sorted(off["kw"].items()), c["on"])


def run(c, rec):
    base = c["spec"]
    cls = base["cls"]
    X = data.mixture_of(c)
    q = rng_of("C24s", c["seed"])
    label = "%s.%s" % (cls, mono.algo(base))
    off = with_norm(base, False)
    on = with_norm(base, c["on"])
    if c["default"]:
        on["kw"].pop(KEY.get(cls, "normalization"))
    if c.get("mode") == "late":
        late(c, rec, off, on, X, label)
        return
    with rec.sut(label), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if cls == "CACGMM":
            # this method draws its parameters in every call: the twins share the random state
            A = start(off, X, c["it"] + 1, {}, True)[1:]
            B = start(on, X, c["it"] + 1, {}, True)[1:]
        else:
            try:
                s0 = start(off, X, c["it"], {}, False)
            except np.linalg.LinAlgError:  # unnormalized run into a singular state (C01-C03 judge those)
                rec.skip("degenerate burn-in")
                return
            if mono.ill_conditioned(off, s0) or not mono.finite_state(s0) or floored(off, s0):
                rec.skip("degenerate state")
                return
            init = init_of(off, s0, q, c["scaled"])
            cp = lambda: {k: (tuple(a.copy() for a in v) if isinstance(v, tuple) else v.copy()) for k, v in init.items()}  # noqa: E731
            A = start(off, X, 1, cp(), True)
            B = start(on, X, 1, cp(), True, rec if c["seed"] % 3 == 0 else None)
            if zoo.FAMILY[cls] != "ipsdta":
                A, B = A[1:], B[1:]
    full = {**on, "kw": {**on["kw"]}}
    done = 0
    for k, (a, b) in enumerate(zip(A, B)):
        if mono.ill_conditioned(off, a) or not mono.finite_state(a) or floored(off, a):
            rec.skip("degenerate or floored state")
            break
        condition(rec, full, c, b, label)
        ma, mb = model(off, a), model(full, b)
        tol = 1e-3 if zoo.FAMILY[cls] == "ipsdta" else 1e-4 if cls == "CACGMM" else 1e-6
        for name in ma:
            sc = np.max(np.abs(ma[name]))
            rec.close(mb[name], ma[name], "model:" + cls, rtol=tol, scale=sc, msg="%s %s (state %d)" % (label, name, k))
        Ja, Jb = oracles.objective(off, a), oracles.objective(full, b)
        rec.close(Jb, Ja, "likelihood:" + cls, rtol=tol, scale=abs(Ja) + X.shape[1] * X.shape[0], msg=label)
        done += 1
    if done:
        if base["kw"].get("partitioning"):
            rec.count("partition")
        if c["on"] == "projection_back":
            rec.count("projection_back")
        rec.nontrivial(label, X.shape, sorted(base["kw"].items()), c["on"], c["it"], c["scaled"])
        rec.sample({"config": label, "normalization": c["on"], "states": done})


def floored(spec, st):
    """Some non-negative parameter sits at the floor, which is not scale-invariant."""
    if zoo.FAMILY[spec["cls"]] == "ipsdta":
        w = [np.linalg.eigvalsh(np.einsum("nkij,nkt->ntij", Tb, st["activation"])) for _, Tb in oracles.psdtf_blocks(st, spec["kw"]["n_blocks"])]
        return min(np.min(v) for v in w) < 1e-6 * max(1.0, max(np.max(v) for v in w))
    if zoo.FAMILY[spec["cls"]] == "ilrma":
        L = oracles.nmf(st) ** (2 / spec["kw"]["domain"])
        return np.max(L) / np.min(L) > 1e10
    if spec["cls"] == "CACGMM":
        return np.max(np.linalg.cond(st["covariance"])) > 1e4 or np.min(st["mixing"]) < 1e-4
    if spec["cls"] == "GaussMNMF":
        R = np.einsum("nft,nfab->ftab", oracles.nmf(st), st["spatial"])
        return np.min(np.linalg.eigvalsh(R)) < 1e-6
    return False
