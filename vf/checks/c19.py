"""C19: source-pair schedules, and what a method does with the schedule it is given."""

import functools
import warnings

import numpy as np

from .. import data, grid, zoo
from ..core import rng_of

RULE = (
    "distinct (schedule function, sources, stop, step, sort) expanded and compared with the definition, and distinct "
    "(class, algorithm, sources, schedule) whose one-iteration footprint showed exactly the scheduled pairs"
)
REQUIRED = {"sequential": 1000, "combination": 100, "row footprint": 200, "span footprint": 100, "empty schedule": 50, "composition": 50, "schedule use": 200, "schedule reuse": 200}
ASSUMPTIONS = ["sequential schedule: pairs (k mod N, k+1 mod N) for k = 0, step, 2 step, ... < stop (default N)"]
IP2 = ["AuxFDICA", "AuxLaplaceFDICA", "AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA", "TILRMA", "GGDILRMA", "FastGaussMNMF"]
ISS2 = ["AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA", "TILRMA", "GGDILRMA"]


def cases(tier, seed):
    q = tier == "quick"
    for n in range(2, 10):
        yield dict(op="functions", n=n)
    for r in range(1600 if q else 4000):
        for alg, classes in (("IP2", IP2), ("ISS2", ISS2)):
            for cls in classes:
                c = grid.case(cls, alg, "C19", seed, r, it=1, restore=False, align=False)
                kw = c["spec"]["kw"]
                if cls == "FastGaussMNMF":
                    c["M"] = [2, 3, 4, 5][r % 4]
                    kw.pop("n_sources", None)
                    if r % 3 == 0:
                        kw["n_sources"] = 2
                else:
                    c["M"] = [2, 3, 4, 5][r % 4]
                if "normalization" in kw:
                    kw["normalization"] = False
                if "reference_id" in kw:
                    kw["reference_id"] = max(-2, min(1, kw["reference_id"]))
                c["op"] = "class"
                yield c
        if r % 4 == 0:
            yield dict(op="reuse", seed=seed * 10000 + r)
        for k in ("ip2", "iss2", "aux"):
            yield dict(op=k, seed=seed * 10000 + r)


def run(c, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + {"ip2": "kernel", "iss2": "kernel"}.get(c["op"], c["op"])](c, rec)


def run_functions(c, rec):
    from ssspy.bss import _select_pair as old
    from ssspy.utils import select_pair as new

    n = c["n"]
    for name, mod in (("new", new), ("deprecated", old)):
        for stop in (None, 0, 1, 2, n - 1, n, n + 1, 2 * n, 2 * n + 3):
            for step in (1, 2, 3, n):
                for sort in (None, False, True):
                    kw = dict(stop=stop, step=step)
                    if sort is not None:
                        kw["sort"] = sort
                    if step == 1 and stop is None and sort is None:
                        kw = {}
                    with rec.sut("sequential"):
                        got = [tuple(int(v) for v in p) for p in mod.sequential_pair_selector(n, **kw)]
                    want = []
                    k = 0
                    while k < (n if stop is None else stop):
                        p = (k % n, (k + 1) % n)
                        want.append(tuple(sorted(p)) if sort else p)
                        k += step
                    rec.check(got == want, "sequential", "%s n=%d %s: %s, expected %s" % (name, n, kw, got, want))
                    rec.nontrivial("seq", n, stop, step, sort)
        for sort in (None, False, True):
            kw = {} if sort is None else dict(sort=sort)
            for _ in range(3):
                with rec.sut("combination"):
                    got = [tuple(int(v) for v in p) for p in mod.combination_pair_selector(n, **kw)]
                want = [(i, j) for i in range(n) for j in range(i + 1, n)]
                rec.check(got == want, "combination", "%s n=%d %s: %s" % (name, n, kw, got))
            rec.nontrivial("comb", n, sort)
        # positional use and partial consumption
        with rec.sut("sequential"):
            got = [tuple(p) for p in mod.sequential_pair_selector(n, n + 1, 2, True)]
            it = iter(mod.combination_pair_selector(n, True))
            first = tuple(next(it))
        rec.check(got == [tuple(sorted((k % n, (k + 1) % n))) for k in range(0, n + 1, 2)], "sequential", "positional %s" % got)
        rec.check(first == (0, 1), "combination", "first pair %s" % (first,))


def schedule(r, N):
    """A schedule whose pairs leave something untouched, if possible"""
    k = int(r.integers(5))
    i, j = [int(v) for v in r.permutation(N)[:2]]
    if k == 0:
        return []
    if k == 1 or N == 2:
        return [(i, j)]
    if k == 2:
        return [(i, j), (j, i)]
    third = int([v for v in range(N) if v not in (i, j)][0])
    if k == 3:
        return [(i, j), (j, third)]
    return [(i, j), (i, third), (i, j)]


def run_class(c, rec):
    spec = c["spec"]
    alg = "IP2" if spec["cls"] == "FastGaussMNMF" else spec["kw"]["spatial_algorithm"]
    r = rng_of("C19c", c["seed"], spec["cls"])
    X = zoo.input_for(spec, c)
    M = X.shape[0]
    pairs = schedule(r, M)
    seen = []

    def selector(n, *a, **k):
        seen.append((n, a, k))
        out = [tuple(p) for p in pairs]
        return iter(out) if r_iter else out

    r_iter = bool(r.integers(2))
    spec["pair"] = None
    spec["kw"]["pair_selector"] = selector
    tr = zoo.Tracer()
    with rec.sut(spec["cls"]):
        m = zoo.build(spec, callbacks=[tr])
        m(X, n_iter=1)
    del spec["kw"]["pair_selector"]
    label = spec["cls"] + "." + alg
    a, b = tr.states
    rec.check(len(seen) >= 1 and all(s[0] == M for s in seen), "schedule use", "%s called the schedule with %s for %d sources" % (label, seen, M))
    hit = sorted(set(v for p in pairs for v in p))
    idle = [v for v in range(M) if v not in hit]
    W0, W1 = (a.get("diagonalizer"), b.get("diagonalizer")) if spec["cls"] == "FastGaussMNMF" else (a.get("demix_filter"), b.get("demix_filter"))
    rec.nontrivial(label, M, str(pairs), c["F"], spec.get("floor"), spec["kw"].get("partitioning"))
    if alg == "IP2":
        if not pairs:
            rec.check(np.array_equal(W0, W1), "empty schedule", label + ": filter changed without any scheduled pair")
            return
        rec.check(np.array_equal(W0[:, idle], W1[:, idle]), "row footprint", "%s pairs %s: an idle row changed" % (label, pairs))
        changed = np.max(np.abs(W1 - W0), axis=(0, 2))
        rec.check(np.all(changed[hit] > 0), "row footprint", "%s pairs %s: changed rows %s" % (label, pairs, np.flatnonzero(changed)))
        return
    Y0, Y1 = a["output"], b["output"]
    if not pairs:
        rec.check(np.array_equal(Y0, Y1), "empty schedule", label + ": output changed without any scheduled pair")
        return
    if len(set(map(frozenset, pairs))) > 1:
        rec.skip("span footprint needs a single pair")
        return
    i, j = pairs[0]
    B = np.stack([Y0[i], Y0[j]], axis=1).transpose(0, 2, 1)  # (F, T, 2)
    if np.max(np.linalg.cond(B)) > 1e6:
        rec.skip("ill-conditioned pair")
        return
    for k in range(M):
        D = (Y1[k] if k in (i, j) else Y1[k] - Y0[k])[:, :, None]
        res = D - B @ (np.linalg.pinv(B) @ D)
        rec.close(res, np.zeros_like(res), "span footprint", rtol=0, atol=1e-7 * max(np.max(np.abs(Y1[k])), np.max(np.abs(D))), msg="%s pair %s: source %d left the span of the pair" % (label, (i, j), k))


def run_kernel(c, rec):
    """Fixed weights: a schedule acts as the composition of its pairs, in order."""
    from ssspy.bss import _update_spatial_model as us

    r = rng_of("C19k", c["op"], c["seed"])
    N = int(r.integers(2, 6))
    F = int(r.integers(1, 4))
    pairs = [tuple(int(v) for v in r.permutation(N)[:2]) for _ in range(int(r.integers(1, 5)))]
    if c["op"] == "ip2":
        W = np.eye(N) + 0.5 * data.crandn(r, F, N, N)
        U = data.rand_psd(r, F, N, N, cond=20.0)
        f = lambda Z, p: us.update_by_ip2(Z, U, pair_selector=lambda n: p, overwrite=False)  # noqa: E731
        Z0 = W
    else:
        Z0 = data.crandn(r, N, F, 50)
        w = r.gamma(1.0, 1.0, size=(N, F, 50)) + 0.05
        f = lambda Z, p: us.update_by_iss2(Z, w, pair_selector=lambda n: p)  # noqa: E731
    with rec.sut(c["op"]):
        whole = f(Z0, pairs)
        Z = Z0
        for p in pairs:
            Z = f(Z, [p])
        none = f(Z0, [])
        gen = f(Z0, iter(pairs))
    sc = np.max(np.abs(Z))
    rec.close(np.abs(whole), np.abs(Z), "composition", rtol=1e-6, msg="%s N=%d %s" % (c["op"], N, pairs), scale=sc)
    rec.close(gen, whole, "composition", rtol=1e-9, msg="generator schedule")
    rec.close(none, Z0, "empty schedule", rtol=1e-12, msg=c["op"])
    rec.nontrivial(c["op"], N, str(pairs))


def run_aux(c, rec):
    """AuxIVA/AuxFDICA recompute the weights for every pair: one iteration over a schedule is the sequence of
    one-pair iterations."""
    r = rng_of("C19a", c["seed"])
    cls = ["AuxLaplaceIVA", "AuxIVA", "AuxFDICA", "AuxLaplaceFDICA"][int(r.integers(4))]
    k = grid.case(cls, "IP2", "C19a", c["seed"], it=1, restore=False, align=False)
    spec = k["spec"]
    spec["pair"] = None
    k["M"] = int(r.integers(2, 6))
    X = zoo.input_for(spec, k)
    N = k["M"]
    pairs = [tuple(int(v) for v in r.permutation(N)[:2]) for _ in range(int(r.integers(1, 4)))]
    with rec.sut(cls):
        spec["kw"]["pair_selector"] = lambda n: pairs
        m = zoo.build(spec)
        m(X, n_iter=1)
        todo = []
        spec["kw"]["pair_selector"] = lambda n: [todo[0]]
        m2 = zoo.build(spec)
        for p in pairs:
            todo[:] = [p]
            m2(X, n_iter=1)
    rec.close(np.abs(m2.demix_filter), np.abs(m.demix_filter), "composition", rtol=1e-6, msg="%s %s" % (cls, pairs))
    rec.nontrivial(cls, N, str(pairs))


def run_reuse(c, rec):
    """One selector object serves recordings with different numbers of sources: nothing of the first is kept."""
    from ssspy.utils import select_pair as sp

    r = rng_of("C19r", c["seed"])
    pick = lambda o: o[int(r.integers(len(o)))]  # noqa: E731
    alg, classes = pick([("IP2", IP2), ("ISS2", ISS2)])
    cls = pick(classes)
    sel = pick([None, sp.sequential_pair_selector, sp.combination_pair_selector, functools.partial(sp.sequential_pair_selector, step=2, sort=True)])
    plain = sp.sequential_pair_selector if sel is None else sel
    k = grid.case(cls, alg, "C19r", c["seed"], it=1, restore=False, align=False)
    spec = k["spec"]
    spec["pair"] = None
    spec["kw"].pop("n_sources", None)
    if spec["rng"] == "none":
        spec["rng"] = 7
    if "normalization" in spec["kw"]:
        spec["kw"]["normalization"] = False
    if "reference_id" in spec["kw"]:
        spec["kw"]["reference_id"] = 0
    k["T"] = min(k["T"], 80)
    k["F"] = min(k["F"], 8)
    for N in [int(v) for v in r.permutation([2, 3, 4, 5])[:3]]:
        k["M"] = N
        X = zoo.input_for(spec, k)
        got = []
        for s in (sel, lambda n: list(plain(n))):
            if s is None:
                spec["kw"].pop("pair_selector", None)
            else:
                spec["kw"]["pair_selector"] = s
            tr = zoo.Tracer()
            with rec.sut(cls):
                zoo.build(spec, callbacks=[tr])(X, n_iter=1)
            got.append(tr.states[-1])
        a, b = got
        name = next(n for n in ("diagonalizer", "demix_filter", "output") if a.get(n) is not None)
        rec.close(a[name], b[name], "schedule reuse", rtol=1e-9, msg="%s.%s N=%d selector %s" % (cls, alg, N, getattr(sel, "__name__", sel)))
    rec.nontrivial("reuse", cls, alg, str(sel)[:40])
