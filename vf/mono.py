"""Monotone-descent monitor shared by C01-C03."""

import numpy as np

from . import data, oracles, zoo
from .core import StopCase

TOL = 1e-8


def run_monotone(c, rec, tol=TOL, guard=None):
    spec = c["spec"]
    X = data.mixture_of(c)
    tr = zoo.Tracer()
    with rec.sut("%s construction" % spec["cls"]):
        m = zoo.build(spec, callbacks=[tr])
    try:
        m(X, n_iter=c["it"])
    except (np.linalg.LinAlgError, FloatingPointError, ValueError):
        # a numerical failure is excusable only if the last observed state was already degenerate
        if guard is not None and tr.states and guard(spec, tr.states[-1]):
            rec.skip("degenerate state (numerical failure)")
            return
        with rec.sut("%s call" % spec["cls"]):
            raise
    except Exception:  # noqa: BLE001
        with rec.sut("%s call" % spec["cls"]):
            raise
    st = tr.states
    if not rec.check(len(st) == c["it"] + 1, "history", "%d states" % len(st)):
        raise StopCase
    prev = None
    dropped = 0.0
    label = spec["cls"] + "." + str(algo(spec))
    for k, s in enumerate(st):
        if not finite_state(s):
            if guard is not None and prev is not None and guard(spec, prev[1]):
                rec.skip("degenerate state")
                return
            rec.check(False, "finite", "%s: non-finite state at iteration %d" % (label, k))
            return
        J = oracles.objective(spec, s)
        if prev is not None:
            if guard is not None and guard(spec, prev[1]):
                rec.skip("degenerate state")
                return
            if not np.isfinite(J):
                rec.check(False, "finite", "%s: objective %r at iteration %d" % (label, J, k))
                return
            lim = tol * (abs(prev[0]) + X.shape[0] * X.shape[1])
            ok = rec.check(
                J <= prev[0] + lim,
                "increase:" + label,
                lambda: "objective rose %.12g -> %.12g (+%.3g) at iteration %d"
                % (prev[0], J, J - prev[0], k),
                counter="steps:" + label,
            )
            if not ok:
                return
            dropped += prev[0] - J
        prev = (J, s)
    if c["it"] >= 5:
        # the run did make progress: an update that does nothing would be vacuously monotone
        rec.check(
            dropped > 1e-3 * (1 + 0.0 * abs(prev[0])),
            "progress:" + label,
            lambda: "objective dropped only %.3g in %d iterations" % (dropped, c["it"]),
        )
    rec.nontrivial(label, *[X.shape, spec.get("pair"), sorted(spec["kw"].items()), c["kind"]])
    rec.sample({"config": label, "objective": [oracles.objective(spec, s) for s in st[:6]]})


def bare(rec, spec, X, it, m, init=None, key="bare"):
    if spec.get("rng") == "none":
        return  # another random initialization
    return _bare(rec, spec, X, it, m, init, key)


def _bare(rec, spec, X, it, m, init, key):
    """The run repeated with nobody looking - no callbacks, recording the other way round - ends in the same state."""
    if not finite_state(zoo.snap(m)) or ill_conditioned(spec, zoo.snap(m)):
        rec.skip("degenerate state")
        return
    kw = dict(spec["kw"])
    if spec["cls"] not in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA") and spec.get("with_penalty", True):
        kw["record_loss"] = not kw.get("record_loss", True)
    with rec.sut(spec["cls"] + " without callbacks"):
        b = zoo.build(dict(spec, kw=kw))
        b(X, n_iter=it, **{k: tuple(a.copy() for a in v) if isinstance(v, tuple) else v.copy() for k, v in (init or {}).items()})
    sm, sb = zoo.snap(m), zoo.snap(b)
    for k in STATE:
        v, w = sm.get(k), sb.get(k)
        v, w = (x if isinstance(x, tuple) else (x,) for x in (v, w))
        for x, y in zip(v, w):
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.all(np.isfinite(x)):
                rec.close(y, x, key, rtol=1e-7, atol=1e-14, msg="%s: final %s of an unobserved run" % (spec["cls"], k))
            else:
                rec.check(type(x) is type(y), key, "%s: final %s of an unobserved run" % (spec["cls"], k))


STATE = (
    "demix_filter", "basis", "activation", "latent", "spatial", "diagonalizer", "dual", "auxiliary1", "auxiliary2", "dual1",
    "dual2", "mixing", "covariance", "posterior", "output",
)  # fmt: skip


def algo(spec):
    kw = spec["kw"]
    return "-".join(
        str(kw[k])
        for k in ("spatial_algorithm", "diagonalizer_algorithm", "source_algorithm")
        if k in kw
    )


def finite_state(s):
    for v in s.values():
        for a in v if isinstance(v, tuple) else (v,):
            if isinstance(a, np.ndarray) and not np.all(np.isfinite(a)):
                return False
    return True


def excuse(spec, states):
    """For Recorder.sut: was the last state of this trace degenerate?"""
    return lambda: bool(states) and (not finite_state(states[-1]) or ill_conditioned(spec, states[-1]))


def ill_conditioned(spec, s):
    """Weights spread over more than 10 decades or a nearly singular filter: round-off dominates."""
    X = s["input"]
    W = s.get("demix_filter")
    if W is None and "output" in s and "covariance" not in s and "spatial" not in s:
        W = oracles.fit_filter(s["output"], X)
    if isinstance(W, np.ndarray) and not np.all(np.isfinite(W)):
        return True
    if isinstance(W, np.ndarray) and W.ndim == 3 and np.max(np.linalg.cond(W)) > 1e7:
        return True
    fam = zoo.FAMILY[spec["cls"]]
    if fam in ("fdica", "iva"):
        Y = s["output"] if W is None else oracles.demix(W, X)
        r = np.abs(Y) if fam == "fdica" else np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
        if np.min(r / np.sqrt(np.mean(r**2, axis=-1, keepdims=True))) < 1e-5:
            return True
    if "basis" in s and not isinstance(s["basis"], tuple) and s["basis"].ndim <= 3:
        L = oracles.nmf(s)
        p = spec["kw"].get("domain", 2)
        if np.min(L) <= 0 or 2 / p * np.log10(np.max(L) / np.min(L)) > 9:
            return True
        if spec["cls"] == "GGDILRMA":
            # the weight |y|^(beta - 2) of an output at zero is infinite
            Y = oracles.demix(oracles.fit_filter(s["output"], X) if W is None else W, X)
            r = np.abs(Y) / L ** (1 / p)
            if np.min(r) < 1e-8 * np.sqrt(np.mean(r**2)):
                return True
    if fam == "ipsdta":
        for _, T in oracles.psdtf_blocks(s, spec["kw"]["n_blocks"]):
            R = np.einsum("nkab,nkt->ntab", T, s["activation"])
            if not np.all(np.isfinite(R)):
                return True
            e = np.linalg.eigvalsh(R)
            if np.min(e) <= 0 or np.max(e) / np.min(e) > 1e6:
                return True
    if fam == "cacgmm":
        e = np.linalg.eigvalsh(s["covariance"])
        if np.min(e) <= 0 or np.max(e[..., -1] / e[..., 0]) > 1e6 or np.min(s["mixing"]) < 1e-6:
            return True
    return False
