"""C07: the returned estimate is the final filter applied to the input, for every method and option."""

import numpy as np

from .. import data, grid, mono, oracles, zoo
from ..core import rng_of

RULE = (
    "distinct (class, algorithm, options, shape, iteration count): the returned array, the output attribute, the final "
    "filter and the input were checked for consistency after the call, and separate() was checked with arbitrary "
    "filters and inputs"
)
REQUIRED = {"shape": 300, "filter": 200, "span": 100, "separate": 300, "given": 50, "second": 50}
ASSUMPTIONS = ["runs whose final state is singular by definition (first ADMM iterate) are skipped"]


def cases(tier, seed):
    reps = 70 if tier == "quick" else 2000
    for i, c in enumerate(grid.sweep("C07", seed, reps, long=0.05)):
        r = rng_of("C07", seed, i)
        c["again"] = bool(r.integers(3) == 0)
        c["given"] = bool(r.integers(3) == 0)
        if c["given"] and r.integers(2):
            c["it"] = 0
        if r.integers(6) == 0:  # a very quiet recording
            c["gain"] = float(10.0 ** r.uniform(-6, -3))
        yield c


def apply(W, X):
    return W @ X if X.ndim == 2 else np.einsum("fnm,mft->nft", W, X)


def run(c, rec):
    spec = c["spec"]
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    label = cls + "." + mono.algo(spec)
    X = zoo.input_for(spec, c)
    r = rng_of("C07r", c["seed"])
    fast = cls in ("FastICA", "FastIVA", "FasterIVA")
    with rec.sut(label + " construction"):
        m = zoo.build(spec)
    kw = {}
    M = X.shape[0]
    if c["given"] and fam not in ("mnmf", "cacgmm"):
        if fam == "ica":
            W0 = np.linalg.qr(r.standard_normal((M, M)))[0]
            if not fast:
                W0 = W0 * r.uniform(0.5, 2, size=(M, 1))
        else:
            W0 = np.linalg.qr(data.crandn(r, X.shape[1], M, M))[0]
            if not fast:
                W0 = W0 * r.uniform(0.5, 2, size=(X.shape[1], M, 1))
        kw["demix_filter"] = W0
    with rec.sut(label + " call"):
        buf = X.copy()
        out = m(buf, n_iter=c["it"], **kw)
    finish(c, rec, spec, m, X, out, label, "filter")
    if kw and c["it"] == 0 and not spec["kw"].get("scale_restoration") and not spec["kw"].get("permutation_alignment"):
        base = X
        if fast:
            from ssspy.transform import whiten

            base = whiten(X)
        rec.close(out, apply(W0, base), "given", rtol=1e-10, msg=label + ": zero iterations from a given filter")
    if kw:
        rec.check(True, "given")
    if c["again"] and fam not in ("mnmf", "cacgmm") and not (c["it"] == 0 and spec["kw"].get("scale_restoration")):
        # a second call on another recording of the same shape: everything must follow the new input
        X2 = zoo.input_for(spec, dict(c, seed=c["seed"] + 1))
        with rec.sut(label + " second call", mono.excuse(spec, [zoo.snap(m)])):
            buf[...] = X2  # the caller refills its buffer
            out = m(buf, n_iter=1)
        finish(c, rec, spec, m, X2, out, label, "second")
    rec.nontrivial(label, X.shape, c["it"], sorted((k, str(v)) for k, v in spec["kw"].items()), bool(kw))
    # separate() with arbitrary filters, inputs, numbers of sources and frames
    if fam not in ("mnmf", "cacgmm"):
        for _ in range(2):
            n, mm, t, f = (int(v) for v in (r.integers(1, 5), r.integers(2, 5), r.integers(1, 20), r.integers(1, 6)))
            if fam == "ica":
                W, Z = r.standard_normal((n, mm)), r.standard_normal((mm, t))
            else:
                W, Z = data.crandn(r, f, n, mm), data.crandn(r, mm, f, t)
            kws = {}
            if fast:
                kws["use_whitening"] = False
            with rec.sut(label + " separate"):
                Y = m.separate(Z, demix_filter=W, **kws)
            rec.close(Y, apply(W, Z), "separate", rtol=1e-10, msg=label + ": separate(input, filter)")
        if fast:
            from ssspy.transform import whiten

            W = data.crandn(r, X.shape[1], M, M) if fam != "ica" else r.standard_normal((M, M))
            for kws in ({}, {"use_whitening": True}):
                with rec.sut(label + " separate with whitening"):
                    Y = m.separate(X, demix_filter=W, **kws)
                rec.close(Y, apply(W, whiten(X)), "separate", rtol=1e-9, msg=label + ": separate with whitening")


def finish(c, rec, spec, m, X, out, label, key):
    fam = zoo.FAMILY[spec["cls"]]
    n_src = spec["kw"].get("n_sources") or X.shape[0]
    want = (n_src,) + X.shape[1:]
    if not rec.check(np.shape(out) == want, "shape", "%s: output shape %s, expected %s" % (label, np.shape(out), want)):
        return
    W = getattr(m, "demix_filter", None)
    degenerate = False
    if W is not None:
        with np.errstate(all="ignore"):
            degenerate = not np.all(np.isfinite(W)) or not np.max(np.linalg.cond(W)) < 1e10
    if degenerate and not np.all(np.isfinite(out)):
        rec.skip("singular final filter")
        return
    rec.check(np.array_equal(np.asarray(m.input), X), "input", label + ": stored input differs from the given one")
    if not rec.check(np.all(np.isfinite(out)), "finite", label + ": output not finite"):
        return
    rec.check(np.array_equal(out, m.output), "returned", label + ": returned array is not the output attribute")
    if fam in ("mnmf", "cacgmm"):
        rec.check(np.iscomplexobj(out), "field", label + ": output field")
        return
    rec.check(np.iscomplexobj(out) == np.iscomplexobj(X), "field", label + ": output field")
    if spec["cls"] in ("FastICA", "FastIVA", "FasterIVA"):
        from ssspy.transform import whiten

        base = whiten(X)
    else:
        base = X
    if W is not None:
        W = np.asarray(W)
        rec.check(W.shape == ((X.shape[0],) * 2 if X.ndim == 2 else (X.shape[1],) + (X.shape[0],) * 2), "shape", label + ": filter shape")
        tol = 1e-9 if not degenerate else 1e-5
        sc = np.max(np.abs(W)) * np.max(np.abs(base))
        rec.close(out, apply(W, base), key, rtol=tol, scale=sc, msg=label + ": output is not the final filter times the input")
    else:
        fit = oracles.fit_filter(out, X)
        rec.close(oracles.demix(fit, X), out, "span", rtol=1e-7, msg=label + ": output outside the span of the input")
        if key == "second":
            rec.check(True, "second")
