"""C06: caller arrays are never modified or aliased; runs are reproducible."""

import sys
import threading

import numpy as np

from .. import data, grid, mono, zoo
from ..core import rng_of
from . import c25

RULE = (
    "distinct (entry point, options, memory layout): caller arrays passed read-only / strided / F-ordered and "
    "byte-compared after the call; stored state checked for aliasing; twin runs compared; global random state watched"
)
REQUIRED = {"omitted": 20, "mutation": 400, "alias": 300, "twin": 300, "global-rng": 300, "fn-mutation": 200, "given-mutation": 100, "neighbour": 300, "refill": 100, "threads": 150}

LAYOUTS = ["c", "f", "strided", "reversed"]
FUNCS = [
    "projection_back", "projection_back_ref", "mdp", "corr", "corr_args", "score", "score_args", "whiten2",
    "whiten3", "whiten3r", "whiten4", "pca2", "pca3", "pca3r", "pca4", "eigh", "eigh_b", "eigh2_b", "inv2", "sqrtmh",
    "invsqrtmh", "gmeanmh", "solve", "cbrt", "solve_cubic", "solve_cubic4", "quadratic", "lqpqm2", "l1", "l21",
    "neg_log", "neg_logdet", "softmax", "logsumexp", "to_psd", "max_flooring", "add_flooring", "ip1", "ip2",
    "ip2_pair", "iss1", "iss2", "ipa", "vcd", "wavwrite",
]  # fmt: skip
OVERWRITE = ("corr", "corr_args", "score", "score_args", "ip1", "ip2", "vcd")


def cases(tier, seed):
    reps = 150 if tier == "quick" else 1200
    for i, c in enumerate(grid.sweep("C06", seed, reps, long=0.05)):
        c["layout"] = LAYOUTS[i % 4]
        c["spec"]["with_penalty"] = bool(c["seed"] % 5)
        c["crowd"] = i % 7 == 3
        yield c
    for rep in range(8 if tier == "quick" else 60):
        for f in FUNCS:
            yield dict(fn=f, seed=seed * 100 + rep, layout=LAYOUTS[(rep + len(f)) % 4])


def layout(a, kind):
    """Same values, other memory layout, read-only."""
    if kind == "f":
        b = np.asfortranarray(a)
    elif kind == "strided":
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b = big[..., ::2]
        b[...] = a
    elif kind == "reversed":
        b = np.ascontiguousarray(a[::-1])[::-1]
    else:
        b = a.copy()
    b.flags.writeable = False
    return b


def run(c, rec):
    if "fn" in c:
        return run_fn(c, rec)
    spec = c["spec"]
    label = spec["cls"] + "." + mono.algo(spec)
    X = zoo.input_for(spec, c)
    Xp = layout(X, c["layout"])
    before = X.copy()
    fam = zoo.FAMILY[spec["cls"]]

    np.random.seed(c["seed"] % 1000)
    g0 = np.random.get_state()[1].copy(), np.random.get_state()[2]
    with rec.sut("%s on a read-only %s array" % (label, c["layout"])):
        m = zoo.build(spec)
        out = m(Xp, n_iter=c["it"])
    g1 = np.random.get_state()[1].copy(), np.random.get_state()[2]
    rec.check(np.array_equal(Xp, before), "mutation", label + ": the input array was modified")
    rec.check(
        np.array_equal(g0[0], g1[0]) and g0[1] == g1[1], "global-rng", label + ": process-global random state advanced"
    )

    if fam in ("ilrma", "mnmf", "ipsdta", "cacgmm") and c["seed"] % 4 == 0:  # the generator left to the library
        with rec.sut(label + " without rng"):
            zoo.build(dict(spec, rng="none"))(Xp, n_iter=1)
        g2 = np.random.get_state()[1].copy(), np.random.get_state()[2]
        rec.check(
            np.array_equal(g1[0], g2[0]) and g1[1] == g2[1], "global-rng",
            label + ": process-global random state advanced when rng is omitted",
        )  # fmt: skip
        rec.count("omitted")

    # aliasing: the caller may reuse its buffer right after (or between) calls
    Xw = X.copy()
    tr = zoo.Tracer()
    # half of the time, another object works on another recording in between
    other = zoo.input_for(spec, dict(c, seed=c["seed"] + 1))
    nested = bool(c["seed"] % 2) and spec["cls"] not in ("GaussIPSDTA", "TIPSDTA")

    def neighbour(_):
        if nested:
            try:
                zoo.build(dict(spec, rng=12345))(other, n_iter=1)
            except (np.linalg.LinAlgError, FloatingPointError):
                rec.skip("degenerate neighbour")

    with rec.sut(label + " call"):
        m2 = zoo.build(spec, callbacks=[tr, neighbour])
        np.random.seed((c["seed"] + 7) % 1000)
        out2 = m2(Xw, n_iter=c["it"])
    kept = out2.copy()
    for name in ("input", "output", "whitened_input", "unit_input"):
        v = getattr(m2, name, None)
        if isinstance(v, np.ndarray):
            rec.check(not np.shares_memory(v, Xw), "alias", "%s: %s shares memory with the caller's array" % (label, name))
    Xw[...] = 0
    neighbour(m2)
    if nested:
        rec.count("neighbour")
    rec.check(np.array_equal(m2.input, before), "alias", label + ": stored input changed with the caller's array")
    rec.check(
        np.array_equal(np.nan_to_num(out2), np.nan_to_num(kept)), "alias", label + ": result changed with the caller's array"
    )
    # twin run: same values, same seeds, other global random state and memory layout
    if np.all(np.isfinite(out)):
        rec.close(out2, out, "twin", rtol=1e-6 if c["layout"] != "c" else 1e-9, atol=1e-12, msg=label + (": twin runs differ" + " with a neighbour" * nested))
    # initial parameters are copied, not adopted
    if fam != "cacgmm" and c["it"] > 0:
        init = c25.given(spec, X, rng_of("C06W", c["seed"]))
        lay = lambda v: tuple(layout(a, c["layout"]) for a in v) if isinstance(v, tuple) else layout(v, c["layout"])  # noqa: E731
        kept = {k: tuple(a.copy() for a in v) if isinstance(v, tuple) else v.copy() for k, v in init.items()}
        init = {k: lay(v) for k, v in init.items()}
        held = zoo.Tracer()
        try:
            m3 = zoo.build(spec, callbacks=[held, lambda m: shared(rec, m, init, label)])
            m3(X, n_iter=c["it"], **init)
            shared(rec, m3, init, label)
        except (np.linalg.LinAlgError, FloatingPointError):
            rec.skip("degenerate run")
        except Exception as e:  # noqa: BLE001
            rec.check(
                bool(held.states) and not mono.finite_state(held.states[-1]), "given-mutation",
                "%s with read-only initial parameters %s: %r" % (label, sorted(init), e),
            )  # fmt: skip
        for k, v in kept.items():
            for x, y in zip(v, init[k]) if isinstance(v, tuple) else [(v, init[k])]:
                rec.check(np.array_equal(x, y), "given-mutation", "%s: the given %s was modified" % (label, k))
    if c.get("crowd"):
        crowd(c, rec, label)
    rec.nontrivial(label, c["layout"], X.shape, c["it"])
    rec.sample({"config": label, "layout": c["layout"], "input_sum": float(np.abs(before).sum())})


def crowd(c, rec, label):
    """Objects of one configuration at work in several threads give what they give one after another."""
    spec = dict(c["spec"], rng=12345) if c["spec"].get("rng") == "none" else c["spec"]
    inputs = [zoo.input_for(spec, dict(c, seed=c["seed"] + k)) for k in range(3)]
    n_iter = max(2, min(c["it"], 5))

    def work(X):
        try:
            return zoo.build(spec)(X, n_iter=n_iter)
        except (np.linalg.LinAlgError, FloatingPointError):
            return None
        except Exception as e:  # noqa: BLE001
            return e

    alone = [work(X) for X in inputs]
    together = [None] * len(inputs)
    gate = threading.Barrier(len(inputs))

    def member(k):
        gate.wait()
        together[k] = work(inputs[k])

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=member, args=(k,)) for k in range(len(inputs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(interval)
    for a, b in zip(alone, together):
        if not isinstance(a, np.ndarray) or not np.all(np.isfinite(a)):
            rec.skip("degenerate run alone")
            continue
        rec.check(isinstance(b, np.ndarray), "threads", "%s: among threads: %r" % (label, b))
        if isinstance(b, np.ndarray):
            rec.close(b, a, "threads", rtol=1e-6, atol=1e-12, msg=label + ": result differs when other threads separate")


def shared(rec, m, init, label):
    for k, v in init.items():
        now = getattr(m, k, None)
        for x, y in zip(v, now) if isinstance(v, tuple) and isinstance(now, (tuple, list)) else [(v, now)]:
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                rec.check(not np.shares_memory(x, y), "given-mutation", "%s: the given %s is aliased" % (label, k))


def run_fn(c, rec):
    import ssspy.linalg as la
    from ssspy.algorithm import minimal_distortion_principle, projection_back
    from ssspy.algorithm.permutation_alignment import (
        correlation_based_permutation_solver,
        score_based_permutation_solver,
    )
    from ssspy.bss import _update_spatial_model as us
    from ssspy.linalg import prox
    from ssspy import special as sp
    from ssspy.transform import pca, whiten

    r = rng_of("C06f", c["fn"], c["seed"])
    f = c["fn"]
    F, M, T = int(r.integers(3, 7)), int(r.integers(2, 4)), 40
    X = data.crandn(r, M, F, T)
    W = np.eye(M) + 0.3 * data.crandn(r, F, M, M)
    U = data.rand_psd(r, F, M, M)
    H = data.rand_psd(r, F, M)
    H2 = data.rand_psd(r, F, M)
    P2 = data.rand_psd(r, F, 2)
    amp = r.random((F, M, T))
    wt = r.random((M, F, T)) + 0.1
    kwo = {}
    if f in OVERWRITE:
        kwo["overwrite"] = False
    R = lambda *s: r.standard_normal(s)  # noqa: E731
    table = {
        "projection_back": (projection_back, [W], dict(reference_id=[0, 1, None][c["seed"] % 3])),
        "projection_back_ref": (lambda y, x: projection_back(y, reference=x, reference_id=[0, 1, None][c["seed"] % 3]), [np.einsum("fnm,mft->nft", W, X), X], {}),
        "mdp": (lambda y, x: minimal_distortion_principle(y, reference=x, reference_id=[0, 1, None][c["seed"] % 3]), [np.einsum("fnm,mft->nft", W, X), X], {}),
        "corr": (correlation_based_permutation_solver, [X.transpose(1, 0, 2).copy()], {}),
        "corr_args": (correlation_based_permutation_solver, [amp, W.copy(), R(F, M, 2, 3)], {}),
        "score": (score_based_permutation_solver, [amp], {}),
        "score_args": (score_based_permutation_solver, [amp, W.copy(), R(F, M, 2, 3)], dict(global_iter=2, local_iter=2)),
        "whiten2": (whiten, [R(M, T)], {}),
        "whiten3": (whiten, [X], {}),
        "whiten3r": (whiten, [R(2, M, T)], {}),
        "whiten4": (whiten, [data.crandn(r, 2, M, F, T)], {}),
        "pca2": (pca, [R(M, T)], {}),
        "pca3": (pca, [X], {}),
        "pca3r": (pca, [R(2, M, T)], {}),
        "pca4": (pca, [data.crandn(r, 2, M, F, T)], {}),
        "eigh": (la.eigh, [H], {}),
        "eigh_b": (la.eigh, [H, H2], dict(type=1 + c["seed"] % 3)),
        "eigh2_b": (la.eigh2, [P2, data.rand_psd(r, F, 2)], dict(type=1 + c["seed"] % 3)),
        "inv2": (la.inv2, [P2], {}),
        "sqrtmh": (la.sqrtmh, [H], {}),
        "invsqrtmh": (la.invsqrtmh, [H], {}),
        "gmeanmh": (la.gmeanmh, [H, H2], dict(type=1 + c["seed"] % 3)),
        "solve": (la.solve, [H, data.crandn(r, F, M)], {}),
        "cbrt": (la.cbrt, [R(F)], {}),
        "solve_cubic": (la.solve_cubic, [R(F), R(F), R(F)], {}),
        "solve_cubic4": (la.solve_cubic, [R(F) + 3, R(F), R(F), R(F)], {}),
        "quadratic": (la.quadratic, [data.crandn(r, F, M), H], {}),
        "lqpqm2": (la.lqpqm2, [H, data.crandn(r, F, M) * (np.arange(F) % 3 > 0)[:, None], r.random(F)], {}),
        "l1": (prox.l1, [X], dict(step_size=0.5)),
        "l21": (prox.l21, [X], dict(step_size=0.5, axis2=1)),
        "neg_log": (prox.neg_log, [amp], dict(step_size=0.5)),
        "neg_logdet": (prox.neg_logdet, [W], dict(step_size=0.5)),
        "softmax": (sp.softmax, [amp], dict(axis=0)),
        "logsumexp": (sp.logsumexp, [amp], dict(axis=1)),
        "to_psd": (sp.to_psd, [H], {}),
        "max_flooring": (sp.max_flooring, [amp - 0.5], {}),
        "add_flooring": (sp.add_flooring, [amp], {}),
        "ip1": (us.update_by_ip1, [W, U], {}),
        "ip2": (us.update_by_ip2, [W, U], {}),
        "ip2_pair": (us.update_by_ip2_one_pair, [W, U[:, :2]], dict(pair=(0, 1))),
        "iss1": (us.update_by_iss1, [X, wt], {}),
        "iss2": (us.update_by_iss2, [X, wt], {}),
        "ipa": (us.update_by_ipa, [X, wt], {}),
        "vcd": (us.update_by_block_decomposition_vcd, vcd_args(r), {}),
    }
    if f == "wavwrite":
        import os
        import tempfile

        from ssspy.io import wavwrite

        with tempfile.TemporaryDirectory() as d:
            w = layout(r.uniform(-1.5, 1.5, size=(50, 2)), c["layout"])
            k = w.copy()
            with rec.sut("wavwrite on a read-only array"):
                wavwrite(os.path.join(d, "a.wav"), waveform=w, sample_rate=16000)
            rec.check(np.array_equal(w, k), "fn-mutation", "wavwrite modified its waveform")
        rec.nontrivial(f, c["layout"])
        return
    fn, args, kw = table[f]
    kw = dict(kw, **kwo)
    keep = [a.copy() for a in args]
    ro = [layout(a, c["layout"]) for a in args]
    with rec.sut("%s on read-only %s arrays" % (f, c["layout"])):
        res = fn(*ro, **kw)
    for i, (a, k) in enumerate(zip(ro, keep)):
        rec.check(np.array_equal(a, k), "fn-mutation", "%s: argument %d was modified" % (f, i))
    if f in OVERWRITE:
        wr = [a.copy() for a in args]
        with rec.sut(f + " without overwriting"):
            res = fn(*wr, **kw)
        for i, (a, k) in enumerate(zip(wr, keep)):
            rec.check(np.array_equal(a, k), "fn-mutation", "%s: argument %d was modified" % (f, i))
        for x in flat(res):
            rec.check(not any(np.shares_memory(x, a) for a in wr), "fn-mutation", f + ": result aliases an argument")
        wr = [a.copy() for a in args]
        with rec.sut(f + " overwriting"):
            res2 = fn(*wr, **dict(kw, overwrite=True))
        for x, y in zip(flat(res2), flat(res)):
            rec.close(x, y, "overwrite", rtol=1e-9, msg=f + ": overwriting changes the result")
        tgt = wr[: len(flat(res2))]
        for x, y in zip(tgt, flat(res2)):
            rec.close(x, y, "overwrite", rtol=1e-12, msg=f + ": the overwritten argument does not hold the result")
        if f in ("ip1", "ip2", "vcd"):
            rec.check(np.array_equal(wr[1], keep[1]), "fn-mutation", f + ": covariance was modified")
    wr = [a.copy() for a in args]
    with rec.sut(f):
        res3 = fn(*wr, **kw)
    for x, y in zip(flat(res), flat(res3)):
        rec.close(x, y, "fn-twin", rtol=1e-7, atol=1e-12, msg=f + ": depends on the memory layout")
    # the caller refills its buffers with other values and calls again: nothing of the first call is remembered, and what
    # the first call returned stays
    if not (f.startswith("ip") and "pair" in f):
        first = [np.copy(x) for x in flat(res3)]
        perm = {"eigh_b": 1, "gmeanmh": 1}
        new = [2.5 * k if perm.get(f) or f == "vcd" else refill(k) for k in keep]
        for a, n in zip(wr, new):
            a[...] = n
        with rec.sut(f + " on refilled buffers"):
            again = fn(*wr, **kw)
        with rec.sut(f + " on fresh arrays"):
            fresh = fn(*[n.copy() for n in new], **kw)
        for x, y in zip(flat(again), flat(fresh)):
            rec.close(x, y, "refill", rtol=1e-9, atol=1e-12, msg=f + ": a refilled buffer gives an old result")
        if not any(np.shares_memory(x, a) for x in flat(res3) if isinstance(x, np.ndarray) for a in wr):
            for x, y in zip(flat(res3), first):
                rec.close(x, y, "refill", rtol=1e-12, msg=f + ": a later call changed an earlier result")
    rec.nontrivial(f, c["layout"], F, M)


def refill(k):
    """Other values of the same kind (the leading items in reverse order; the last two axes may form matrices)."""
    return 1.5 * k[::-1] if k.ndim != 2 else 1.5 * k[:, ::-1]


def vcd_args(r):
    B, I, M = 2, 2, 2
    W = np.eye(M) + 0.3 * data.crandn(r, B, I, M, M)
    # (n_blocks, n_neighbors, n_neighbors, n_sources, n_channels, n_channels)
    G = data.crandn(r, B, M, 2 * I * M, I * M)
    C = np.einsum("bnki,bnkj->bnij", G, G.conj()).reshape(B, M, I, M, I, M)
    return [W, np.ascontiguousarray(C.transpose(0, 2, 4, 1, 3, 5))]


def flat(res):
    out = []
    for x in res if isinstance(res, (tuple, list)) else [res]:
        out += flat(x) if isinstance(x, (tuple, list)) else [x]
    return out
