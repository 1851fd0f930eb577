"""C11: the log-quadratically penalized quadratic minimization is solved globally."""

import functools
import warnings

import numpy as np

from .. import data, grid, zoo
from ..core import rng_of
from ..intercept import interpose

RULE = (
    "distinct (size, field, instance class, batch size, options) whose returned point was compared with the "
    "independently computed global minimum (secular equation by bisection, hard case included) and with competitor "
    "points; solver calls made inside IPA-based separations are observed through interposition"
)
ASSUMPTIONS = [
    "instances of moderate scale (matrix norm 1e-2..1e2, linear term up to 10); the default flooring treats "
    "components below 1e-10 as zero"
]
MODES = ["generic", "zero", "orthogonal", "near-orthogonal", "repeated", "scaled-identity", "one", "large-v", "small-v", "z-zero", "z-large", "sparse-v", "mixed"]  # fmt: skip
REQUIRED = {"optimal": 1000, "root": 500, "hard": 30, "competitor": 1000}


def cases(tier, seed):
    reps = 200 if tier == "quick" else 2000
    for mode in MODES:
        for r in range(reps):
            yield dict(mode=mode, seed=seed * 10000 + r)
    for r in range(15 if tier == "quick" else 200):
        for cls in ("AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA"):
            c = grid.case(cls, "IPA", "C11", seed, r, it=4, restore=False)
            if c["M"] < 3:
                c["M"] = 3
            c["spec"]["kw"]["newton_iter"] = 50
            c["mode"] = "in-situ"
            yield c


def objective(q, H, v, z):
    w = q + v
    g = np.real(np.einsum("...i,...ij,...j->...", w.conj(), H, w)) + z
    with np.errstate(all="ignore"):
        return np.real(np.sum(np.abs(q) ** 2, axis=-1)) - np.log(np.maximum(g, 1e-300))


def reference(H, v, z):
    """Global minimum of one instance by bisection on the secular equation."""
    phi, S = np.linalg.eigh(H)
    u = S.conj().T @ v
    p1 = phi[-1]

    def f(lam):  # decreasing for lam > p1
        return lam**2 * np.sum(phi * np.abs(u) ** 2 / (lam - phi) ** 2) - lam + z

    lo = p1
    hi = max(p1, z) + 1.0
    while f(hi) > 0:
        hi *= 2
    lo_f = p1 + 1e-13 * max(p1, 1e-300)
    hard = not f(lo_f) > 0
    if not hard:
        lo = lo_f
        for _ in range(300):
            mid = 0.5 * (lo + hi)
            if f(mid) > 0:
                lo = mid
            else:
                hi = mid
        lam = 0.5 * (lo + hi)
        y = phi * u / (lam - phi)
    else:
        lam = p1
        lead = phi > p1 * (1 - 1e-12)
        y = np.where(lead, 0, phi * u / np.where(lead, 1, lam - phi))
        rest = lam - z - np.sum((phi * np.abs(y + u) ** 2)[~lead])
        y[-1] = np.sqrt(max(rest, 0) / p1) - u[-1] * 0
    q = S @ y
    return q, hard


def instance(r, mode):
    m = 1 if mode == "one" else int(r.integers(2, 6)) if r.integers(40) else int(r.integers(6, 11))
    real = r.integers(4) == 0
    B = int(r.integers(1, 5)) if r.integers(40) else int(r.integers(20, 400))
    H = data.rand_psd(r, B, m, cond=[2.0, 50.0, 1e3][int(r.integers(3))], real=real)
    H = H / np.trace(H, axis1=1, axis2=2).real[:, None, None] * 10.0 ** r.uniform(-1, 1)
    v = r.standard_normal((B, m)) if real else data.crandn(r, B, m)
    v = v * 10.0 ** r.uniform(-1, 0.5)
    z = r.random(B) * 10.0 ** r.uniform(-2, 1)
    phi, S = np.linalg.eigh(H)
    SH = np.swapaxes(S, 1, 2).conj()
    u = np.einsum("bij,bj->bi", SH, v)
    if mode == "zero":
        v = np.zeros_like(v)
    elif mode in ("orthogonal", "near-orthogonal"):
        u[:, -1] = 0 if mode == "orthogonal" else 1e-4 * 10.0 ** r.uniform(0, 2)
        v = np.einsum("bij,bj->bi", S, u)
        z = z * 0.1
    elif mode == "repeated":
        phi[:, -1] = phi[:, max(0, m - 2)]
        H = (S * phi[:, None, :]) @ SH
        if r.integers(2):
            u[:, -1] = 0
            v = np.einsum("bij,bj->bi", S, u)
    elif mode == "scaled-identity":
        H = np.tile(np.eye(m), (B, 1, 1)) * 10.0 ** r.uniform(-1, 1)
    elif mode == "large-v":
        v = v * 10
    elif mode == "small-v":
        v = v * 1e-2
    elif mode == "z-zero":
        z = np.zeros(B)
    elif mode == "z-large":
        z = z + 10.0
    elif mode == "sparse-v":
        v = v * (np.arange(m) == int(r.integers(m)))
        H = np.tile(np.diag(np.sort(r.random(m) + 0.1)[r.permutation(m)]), (B, 1, 1)).astype(H.dtype)
    elif mode == "mixed" and B > 1:
        v[0] = 0
        u[1, -1] = 0
        v[1] = S[1] @ u[1]
        z[1] *= 0.01
    return H, v, z


def judge(rec, H, v, z, q, key, r, ncomp=40):
    for b in range(H.shape[0]):
        ref, hard = reference(H[b], v[b], z[b])
        jr = float(objective(ref, H[b], v[b], z[b]))
        if hard:
            rec.count("hard")
        if not rec.finite(q[b], key, "solution"):
            return
        jq = float(objective(q[b], H[b], v[b], z[b]))
        # the default flooring (1e-10 on phi*|v|^2) perturbs the objective by up to about 1e-5
        lim = 1e-8 * (1 + abs(jr)) + (2e-4 if near(H[b], v[b]) else 0.0)
        rec.check(
            jq <= jr + lim, key, lambda: "objective %.12g above the global minimum %.12g (hard=%s)" % (jq, jr, hard)
        )
        # competitors around and away from the returned point
        m = H.shape[-1]
        d = data.crandn(r, ncomp, m) * (10.0 ** r.uniform(-4, 1, size=(ncomp, 1)))
        jc = objective(q[b] + d, H[b], v[b], z[b])
        rec.check(
            np.all(jc >= jq - lim), "competitor",
            lambda: "a competitor has objective %.12g < %.12g" % (float(np.min(jc)), jq),
        )  # fmt: skip


def near(H, v):
    """True when some eigencomponent of v lies in the range the default flooring treats as zero."""
    phi, S = np.linalg.eigh(H)
    u = np.abs(S.conj().T @ v)
    e = phi * u**2
    return bool(np.any((e < 1e-8)))


def run(c, rec):
    from ssspy.linalg import lqpqm2
    from ssspy.special.flooring import add_flooring, max_flooring

    r = rng_of("C11", c["mode"], c["seed"])
    if c["mode"] == "in-situ":
        return in_situ(c, rec, lqpqm2, r)
    H, v, z = instance(r, c["mode"])
    kw = {}
    if r.integers(3) == 0:
        kw["singular_fn"] = [lambda x: x < 1e-10, "flooring", None, lambda x: x <= 1e-12][int(r.integers(4))]
    if r.integers(3) == 0:
        if c["mode"] not in ("zero", "orthogonal", "sparse-v", "mixed") and r.integers(2):
            kw["flooring_fn"] = None  # no protection: nothing degenerate in these instances
        else:
            kw["flooring_fn"] = [
                functools.partial(max_flooring, eps=1e-12), functools.partial(add_flooring, eps=1e-11), max_flooring
            ][int(r.integers(3))]  # fmt: skip
    with warnings.catch_warnings(), rec.sut("lqpqm2"):
        warnings.simplefilter("ignore")
        q = lqpqm2(H.copy(), v.copy(), z.copy(), max_iter=200, **kw)
    if rec.check(q.shape == v.shape, "shape", "%s" % (q.shape,)):
        judge(rec, H, v, z, q, "optimal", r)
    if c["mode"] in ("generic", "one", "large-v", "small-v", "z-zero", "z-large", "near-orthogonal"):
        secular(rec, H, v, z, r)
    rec.nontrivial(c["mode"], H.shape, H.dtype, len(kw), c["seed"] % 7)
    rec.sample({"mode": c["mode"], "shape": H.shape, "objective": objective(q, H, v, z).tolist()})


def secular(rec, H, v, z, r):
    """The documented root finder in eigen-coordinates, with and without its normalization."""
    from ssspy.linalg.lqpqm import solve_equation

    phi, S = np.linalg.eigh(H)
    u = np.einsum("bji,bj->bi", S.conj(), v)
    ok = phi[:, -1] * np.abs(u[:, -1]) ** 2 > 1e-6  # the leading component is present: a root beyond it exists
    if not np.any(ok):
        return
    phi, u, z = phi[ok], u[ok], z[ok]
    for norm in (True, False):
        with warnings.catch_warnings(), rec.sut("solve_equation"):
            warnings.simplefilter("ignore")
            lam = solve_equation(phi.copy(), u.copy(), z.copy(), max_iter=500, normalization=norm)
        if not rec.check(lam.shape == z.shape, "root-shape", "%s" % (lam.shape,)):
            return
        p = phi[:, -1]
        for s in (1 - 1e-5, 1 + 1e-5):  # the function decreases through zero at the root
            x = p + (lam - p) * s
            f = x**2 * np.sum(phi * np.abs(u) ** 2 / (x[:, None] - phi) ** 2, axis=1) - x + z
            rec.check(
                np.all((f > 0) == (s < 1)) and np.all(lam > p), "root",
                lambda: "normalization=%s: not the largest root of the secular equation (%s)" % (norm, f),
            )  # fmt: skip


def in_situ(c, rec, lqpqm2, r):
    def spy(H, v, z, **kw):
        q = lqpqm2(H, v, z, **kw)
        if np.all(np.isfinite(H)) and np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e3 and np.all(z > -1e-9):
            sc = np.trace(H, axis1=1, axis2=2).real
            ok = (sc > 1e-2) & (sc < 1e2)
            if np.any(ok):
                judge(rec, H[ok], v[ok], np.maximum(z[ok], 0), q[ok], "in-situ", r, 10)
        return q

    spec = c["spec"]
    X = zoo.input_for(spec, c)
    with interpose({lqpqm2: spy}), rec.sut(spec["cls"] + " call"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        zoo.build(spec)(X, n_iter=c["it"])
    rec.nontrivial("in-situ", spec["cls"], str(spec["kw"]))
