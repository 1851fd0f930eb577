"""C04: every reported loss equals the documented objective of the state in force."""

import numpy as np

from .. import grid, mono, oracles, zoo

RULE = (
    "distinct (class, algorithm, options, shape) configurations for which every recorded loss and every "
    "on-demand loss was compared with an independently written objective of the snapshot taken at that moment"
)
ASSUMPTIONS = ["objectives written from the documentation; relative tolerance 1e-8"]
REQUIRED = {"recorded": 500, "on-demand": 500, "after-call": 100, "second-call": 50}

NO_OBJECTIVE = ("MaskingPDSHVA", "MaskingADMMHVA", "HVA")


def cases(tier, seed):
    reps = 150 if tier == "quick" else 1200
    for c in grid.sweep("C04", seed, reps, long=0.05):
        if c["spec"]["cls"] in NO_OBJECTIVE:
            continue
        # a projected-back identity filter (no iteration) is singular: nothing to continue from
        c["silent"] = c["seed"] % 7 == 2 and c["spec"].get("floor") != "none" and c["spec"].get("contrast") != "power"
        c["again"] = c["seed"] % 3 == 0 and c["F"] > 1 and (c["it"] > 0 or not c["spec"]["kw"].get("scale_restoration"))
        yield c


def run(c, rec):
    spec = c["spec"]
    X = zoo.input_for(spec, c)
    if c["silent"]:
        X[..., [0, 1, X.shape[-1] // 2]] = 0
    states, losses, nlog = [], [], []

    def watch(m):
        states.append(zoo.snap(m))
        nlog.append(len(m.loss))
        losses.append(m.compute_loss())

    with rec.sut(spec["cls"] + " call", mono.excuse(spec, states)):
        m = zoo.build(spec, callbacks=[watch])
        m(X, n_iter=c["it"])
        first = len(states)
    label = spec["cls"] + "." + mono.algo(spec)
    rec.check(len(m.loss) == c["it"] + 1, "length", "%s: %d losses" % (label, len(m.loss)))

    def compare(k, val, key, st):
        if not mono.finite_state(st):
            rec.skip("non-finite state")
            return
        with np.errstate(all="ignore"):
            if mono.ill_conditioned(spec, st) and singular(st):
                rec.skip("singular filter")
                return
            J = oracles.objective(spec, st)
        if not np.isfinite(J):
            rec.skip("objective not finite")
            return
        n = X.shape[0] * (X.shape[1] if X.ndim == 3 else 1)
        rec.check(isinstance(val, float), "type", "%s loss type %r" % (label, type(val)))
        rec.close(
            np.float64(val), np.float64(J), "loss:" + key, rtol=tol(spec, st), scale=abs(J) + 10 * n,
            msg="%s state %d" % (label, k), counter=key,
        )  # fmt: skip

    for k in range(first):
        compare(k, m.loss[k], "recorded", states[k])
        compare(k, losses[k], "on-demand", states[k])
        rec.check(nlog[k] == k + 1, "order", "%s: %d losses at callback %d" % (label, nlog[k], k))
    with rec.sut(spec["cls"] + " compute_loss after the call"):
        after = m.compute_loss()
    compare(first, after, "after-call", zoo.snap(m))
    if c["again"]:
        base = len(m.loss)
        with rec.sut(spec["cls"] + " second call", mono.excuse(spec, states)):
            m(X, n_iter=2)
        rec.check(len(m.loss) == base + 3, "length", "%s: second call %d losses" % (label, len(m.loss)))
        for k in range(first, len(states)):
            compare(k, m.loss[base + k - first], "second-call", states[k])
    rec.nontrivial(label, X.shape, sorted((k, str(v)) for k, v in spec["kw"].items()))
    rec.sample({"config": label, "loss": m.loss[:4]})


def singular(st):
    W = st.get("demix_filter")
    if W is None:
        if "output" not in st or "covariance" in st or "spatial" in st:
            return False
        W = oracles.fit_filter(st["output"], st["input"])
    return not np.max(np.linalg.cond(W)) < 1e9


def tol(spec, st):
    if spec["cls"] == "CACGMM":  # quadratic forms and determinants lose as many digits as the condition number has
        e = np.linalg.eigvalsh(st["covariance"])
        return 1e-8 + 1e-14 * float(np.max(e[..., -1] / np.maximum(e[..., 0], 1e-300)))
    return 1e-6 if spec["cls"] == "GaussMNMF" else 1e-8
