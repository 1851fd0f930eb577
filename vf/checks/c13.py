"""C13: proximal operators return the minimizer they name."""

import numpy as np

from .. import data, grid, zoo
from ..core import rng_of
from ..intercept import interpose

RULE = (
    "distinct (operator, shape, axis, field, step size, sparsity) whose result was checked against first-order "
    "optimality conditions and against competitors; calls made inside real separations are observed too"
)
KINDS = ["l1", "l21", "neg_log", "neg_logdet"]
REQUIRED = {k: 300 for k in KINDS}
REQUIRED.update({"competitor": 1000})


def cases(tier, seed):
    for k in KINDS:
        for r in range(2500 if tier == "quick" else 1500):
            yield dict(op=k, seed=seed * 10000 + r, n=15)
    for r in range(6 if tier == "quick" else 60):
        for cls in ("PDSBSS", "PDSIVA", "ADMMBSS", "ADMMIVA", "MaskingPDSBSS", "MaskingADMMHVA"):
            c = grid.case(cls, None, "C13", seed, r, it=4, restore=False)
            c["op"] = "in-situ"
            yield c


def check_group(rec, x, y, s, axis, key):
    """y = argmin s * sum of group norms + 1/2 |y - x|^2; axis None: each entry is a group"""
    nrm = (lambda a: np.abs(a)) if axis is None else (lambda a: np.sqrt(np.sum(np.abs(a) ** 2, axis=axis, keepdims=True)))
    nx = nrm(x)
    with np.errstate(all="ignore"):
        want = np.where(nx > s, (1 - s / np.where(nx == 0, 1, nx)), 0.0) * x
    sc = max(np.max(np.abs(x)), 1e-300)
    rec.close(y, want, key, rtol=0, atol=1e-10 * sc, msg="%s step %g" % (key, s))
    # subgradient condition, without the closed form
    ny = nrm(y)
    big = np.broadcast_to(ny > 1e-8 * sc, x.shape)
    with np.errstate(all="ignore"):
        g = np.where(big, (y - x) + s * y / np.where(ny == 0, 1, ny), 0)
    rec.check(np.max(np.abs(g)) <= 1e-7 * max(sc, s), key, "%s: stationarity violated by %.3g" % (key, np.max(np.abs(g))))
    dead = np.broadcast_to(ny == 0, nx.shape)
    rec.check(np.all(nx[dead] <= s * (1 + 1e-9)), key, "%s: a group above the threshold was removed" % key)


def run(c, rec):
    from ssspy.linalg import prox

    if c.get("op") == "in-situ":
        return in_situ(c, rec, prox)
    k = c["op"]
    r = rng_of("C13", k, c["seed"])
    for i in range(c["n"]):
        s = float(10.0 ** r.uniform(-4, 2))
        default = r.integers(6) == 0
        if default:
            s = 1.0
        kw = {} if default else dict(step_size=s)
        if r.integers(8) == 0 and not default:
            s = int(r.integers(1, 4))
            kw = dict(step_size=s)
        sig = (k, default)
        if k in ("l1", "l21"):
            nd = int(r.integers(1, 5))
            shape = tuple(int(v) for v in r.integers(1, 6, size=nd))
            if r.integers(30) == 0:
                shape = shape[:-1] + (int(r.integers(100, 1500)),) if r.integers(2) else (int(r.integers(20, 200)),) + shape[1:]
            x = r.standard_normal(shape) * s * 10.0 ** r.uniform(-1, 1)
            if r.integers(2):
                x = x * np.exp(1j * r.uniform(-np.pi, np.pi, size=shape))
            if r.integers(3) == 0:
                x = x * (r.random(shape) < 0.5)
            if r.integers(10) == 0:
                x = np.sign(x.real) * s  # exactly on the threshold
            axis = None
            if k == "l21":
                axis = int(r.integers(-nd, nd))
                if nd >= 3 and axis == nd - 1:
                    pass
                if r.integers(4) == 0:
                    axis = -1
                else:
                    kw["axis2"] = axis
            with rec.sut(k):
                y = getattr(prox, k)(x, **kw)
            if not rec.check(y.shape == x.shape, k, "shape %s -> %s" % (x.shape, y.shape)):
                continue
            check_group(rec, x, y, s, axis, k)
            pen = (lambda u: np.sum(np.abs(u))) if k == "l1" else (lambda u: np.sum(np.sqrt(np.sum(np.abs(u) ** 2, axis=axis))))
            sig += (shape, axis, np.iscomplexobj(x))
            draw = lambda: r.standard_normal(shape) + (1j * r.standard_normal(shape) if np.iscomplexobj(x) else 0)  # noqa: E731
        elif k == "neg_log":
            shape = tuple(int(v) for v in r.integers(1, 6, size=int(r.integers(1, 4))))
            if r.integers(30) == 0:
                shape = shape[:-1] + (int(r.integers(100, 1500)),)
            x = r.random(shape) * 10.0 ** r.uniform(-2, 2)
            if r.integers(3) == 0:
                x = x * (r.random(shape) < 0.5)
            with rec.sut(k):
                y = prox.neg_log(x, **kw)
            rec.check(np.all(y > 0), k, "neg_log result is not positive")
            rec.close(y * (y - x), np.full(shape, float(s)), k, rtol=1e-8, scale=s + np.max(x) ** 2, msg="stationarity")
            pen = lambda u: np.sum(-np.log(np.maximum(u, 1e-300))) if np.all(u > 0) else np.inf  # noqa: E731
            draw = lambda: r.standard_normal(shape)  # noqa: E731
            sig += (shape,)
        else:
            F, n = int(r.integers(0, 4)), int(r.integers(1, 6))
            if r.integers(30) == 0:
                F, n = [(int(r.integers(20, 200)), n), (F, int(r.integers(6, 12)))][int(r.integers(2))]
            shape = (F, n, n) if F else (n, n)
            x = r.standard_normal(shape) + (1j * r.standard_normal(shape) if r.integers(2) else 0)
            x = x * 10.0 ** r.uniform(-2, 2)
            if r.integers(6) == 0:
                x = x * 0  # ADMM starts from there
            with rec.sut(k):
                y = prox.neg_logdet(x, **kw)
            if not rec.check(y.shape == x.shape, k, "shape"):
                continue
            rec.check(np.iscomplexobj(y) == np.iscomplexobj(x), k, "field changed")
            # Y - X - s Y^{-H} = 0 and Y = P H with H positive: check through the singular values
            G = y - x - s * np.swapaxes(np.linalg.inv(y), -1, -2).conj()
            sc = np.max(np.abs(x)) + np.sqrt(s)
            rec.check(np.max(np.abs(G)) <= 1e-6 * sc, k, "stationarity violated by %.3g" % np.max(np.abs(G)))
            sx = np.linalg.svd(x, compute_uv=False)
            sy = np.linalg.svd(y, compute_uv=False)
            rec.close(sy, (sx + np.sqrt(sx**2 + 4 * s)) / 2, k, rtol=1e-9, scale=sc, msg="singular values")
            pen = lambda u: -np.sum(np.log(np.abs(np.linalg.det(u)) + 1e-300))  # noqa: E731
            draw = lambda: r.standard_normal(shape) + (1j * r.standard_normal(shape) if np.iscomplexobj(x) else 0)  # noqa: E731
            sig += (shape, np.iscomplexobj(x))
        J = lambda u: s * pen(u) + 0.5 * np.sum(np.abs(u - x) ** 2)  # noqa: E731
        j0 = J(y)
        for _ in range(4):
            d = draw() * 10.0 ** r.uniform(-3, 0.5) * np.sqrt(s)
            jc = J(y + d)
            rec.check(jc >= j0 - 1e-9 * (abs(j0) + s), "competitor", lambda: "%s: competitor %.12g < %.12g" % (k, jc, j0))
        rec.nontrivial(*sig)
        if i == 0:
            rec.sample({"operator": k, "step_size": s, "shape": list(np.shape(x))})


def in_situ(c, rec, prox):
    raw = prox.neg_logdet

    def spy(X, step_size=1):
        y = raw(X, step_size=step_size)
        s = step_size
        G = y - X - s * np.swapaxes(np.linalg.inv(y), -1, -2).conj()
        sc = np.max(np.abs(X)) + np.sqrt(s)
        rec.check(np.max(np.abs(G)) <= 1e-6 * sc, "in-situ", "neg_logdet stationarity")
        return y

    raw1 = prox.l21

    def spy21(x, step_size=1, axis1=-2, axis2=-1):
        y = raw1(x, step_size=step_size, axis2=axis2)
        check_group(rec, x, y, step_size, axis2, "in-situ")
        return y

    spec = c["spec"]
    X = zoo.input_for(spec, c)
    with interpose({raw: spy, raw1: spy21}), rec.sut(spec["cls"] + " call"):
        zoo.build(spec)(X, n_iter=c["it"])
    rec.nontrivial("in-situ", spec["cls"], str(spec["kw"]))
