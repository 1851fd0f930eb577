"""C20: one-step conformance of the model-based methods to the documented update rules."""

import warnings

import numpy as np

from .. import grid, mono, oracles, refsource, refspatial as rs, zoo

RULE = (
    "distinct (class, algorithm, shape, options) with at least one iteration whose complete next state (source model, "
    "spatial model, normalization) was compared with the reference map applied to the observed previous state"
)
ASSUMPTIONS = [
    "steps from states where the reference is numerically undetermined (nearly singular model covariances, two equally good "
    "pairwise minimizers) are skipped and counted",
    "rows of a filter are compared up to a unit phase, which the objective does not determine",
]
MODELS = ["GaussILRMA", "TILRMA", "GGDILRMA", "GaussMNMF", "FastGaussMNMF", "GaussIPSDTA", "TIPSDTA", "CACGMM"]
STRATA = [s for s in grid.STRATA if s[0] in MODELS]
REQUIRED = {"step:%s" % m: 100 for m in MODELS}
REQUIRED.update({"partition": 50, "ME": 50, "projection_back": 50})


def cases(tier, seed):
    for r in range(280 if tier == "quick" else 6000):
        for cls, alg in STRATA:
            c = grid.case(cls, alg, "C20", seed, r, long=0.05, it=4, restore=False, align=False)
            kw = c["spec"]["kw"]
            if alg == "IPA":
                kw["newton_iter"] = 100
            if "IPSDTA" in cls:
                c["T"] = 60 + r % 3
                c["F"] = [4, 5, 6, 7][r % 4]
                kw["n_blocks"] = [4, 3, 6, 2, 1, 5][r % 6]
                kw["n_blocks"] = min(kw["n_blocks"], c["F"])
                c["M"] = 2 + r % 2
            c["silent"] = r % 8 == 5 and c["spec"].get("floor") != "none"
            yield c


def run(c, rec):
    spec = c["spec"]
    kw = spec["kw"]
    X = zoo.input_for(spec, c)
    if c["silent"]:
        X[..., [0, 1, X.shape[-1] // 2]] = 0
    tr = zoo.Tracer()
    label = "%s.%s" % (spec["cls"], kw.get("spatial_algorithm") or kw.get("diagonalizer_algorithm") or "")
    with rec.sut(label), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = zoo.build(spec, callbacks=[tr])
        m(X, n_iter=c["it"])
    if not rec.check(len(tr.states) == c["it"] + 1, "history", "%d states for %d iterations" % (len(tr.states), c["it"])):
        return
    if c["seed"] % 3 == 0:
        mono.bare(rec, spec, X, c["it"], m)
    done = 0
    for k in range(c["it"]):
        a, b = tr.states[k], tr.states[k + 1]
        if mono.ill_conditioned(spec, a) or not mono.finite_state(a):
            rec.skip("degenerate state")
            break
        try:
            with np.errstate(all="ignore"):
                want = refsource.step(spec, a)
        except (rs.Ambiguous, refsource.Degenerate, np.linalg.LinAlgError):
            rec.skip("undetermined step")
            continue
        if not all(np.all(np.isfinite(v)) for v in want.values() if isinstance(v, np.ndarray)):
            rec.skip("undetermined step")
            continue
        compare(c, rec, spec, label, k, b, want)
        done += 1
    if done:
        rec.nontrivial(label, X.shape, spec.get("pair"), spec.get("floor"), sorted(kw.items()))
        rec.sample({"config": label, "options": kw, "steps": done})


def compare(c, rec, spec, label, k, b, want):
    kw = spec["kw"]
    cnt = "step:" + spec["cls"]
    msg = "iteration %d" % k
    for name in ("latent", "basis", "activation", "mixing", "posterior"):
        if name in want:
            rec.close(b[name], want[name], "%s:%s" % (name, label), rtol=1e-3 if "IPSDTA" in label else 1e-5, msg=msg, counter=cnt)
            # entries far below the largest one
            # (an added floor is felt by the update of a source the normalization made small)
            added = str(c["spec"].get("floor")).startswith("add") and kw.get("normalization") == "projection_back"
            if np.shape(b[name]) == want[name].shape and name != "posterior" and not added:
                lo = np.maximum(want[name], 1e-12)
                rel = np.abs(b[name] - want[name]) / lo
                rec.check(np.max(rel) < 1e-3, "%s:%s" % (name, label), lambda: "%s: an entry of %s is off by a factor (%.3g relative)" % (msg, name, np.max(rel)), counter=cnt)
    if "covariance" in want:
        rec.close(b["covariance"], want["covariance"], "covariance:" + label, rtol=1e-5, msg=msg, counter=cnt)
    if "spatial" in want:
        rec.close(b["spatial"], want["spatial"], "spatial:" + label, rtol=1e-5, msg=msg, counter=cnt)
    if "blocks" in want:
        got = oracles.psdtf_blocks(b, kw["n_blocks"])
        want["blocks_at"] = got
        for (r, g), w in zip(got, want["blocks"]):
            rec.close(g, w, "basis:" + label, rtol=1e-3, msg="%s block %s" % (msg, r), counter=cnt)
    for name in ("demix_filter", "diagonalizer", "output"):
        if name in want:
            tol = 1e-3 if kw.get("spatial_algorithm") == "IPA" else 1e-4
            if kw.get("normalization") == "projection_back":
                rec.close(b[name], want[name], "%s:%s" % (name, label), rtol=tol, msg=msg, counter=cnt)
            elif "IPSDTA" in spec["cls"]:
                # a bin that shares its block with others has a determined phase
                for (lo, hi), _ in want["blocks_at"]:
                    A, B = b[name][lo:hi], want[name][lo:hi]
                    if hi - lo > 1:
                        rec.close(A, B, "%s:%s" % (name, label), rtol=1e-3, msg=msg, counter=cnt)
                    else:
                        rs.rows_close(rec, A, B, "%s:%s" % (name, label), msg, tol=1e-3, counter=cnt)
            else:
                rs.rows_close(rec, b[name], want[name], "%s:%s" % (name, label), msg, tol=tol, counter=cnt)
    if kw.get("partitioning"):
        rec.count("partition")
    if kw.get("source_algorithm") == "ME":
        rec.count("ME")
    if kw.get("normalization") == "projection_back":
        rec.count("projection_back")
