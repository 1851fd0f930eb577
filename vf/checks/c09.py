"""C09: permutation solvers only permute, consistently, and align."""

import itertools

import numpy as np

from .. import data, grid, mono, zoo
from ..core import rng_of

RULE = (
    "distinct (solver, shape, field, companion shapes, overwrite, iterations, flooring) whose result was decomposed into one "
    "permutation per bin and compared with an independent solver, plus shuffled aligned sources and twin separations"
)
REQUIRED = {
    "corr:values": 400, "score:values": 400, "corr:args": 300, "score:args": 300, "corr:reference": 300, "score:reference": 300,
    "overwrite": 300, "aligned:corr": 200, "aligned:score": 200, "fdica": 50, "cacgmm": 50, "errors": 20,
}  # fmt: skip
ASSUMPTIONS = [
    "score-based alignment is claimed when most bins already share their order (it starts from the average over bins)",
    "bins whose two best permutations score within 1e-9 are ambiguous and not compared with the reference solver",
]


def cases(tier, seed):
    q = tier == "quick"
    for mode in ("corr", "score"):
        for r in range(500 if q else 8000):
            yield dict(mode=mode, seed=seed * 1000000 + r, n=4)
        for r in range(150 if q else 3000):
            yield dict(mode="aligned:" + mode, seed=seed * 1000000 + r, n=2)
    for r in range(30):
        yield dict(mode="errors", seed=seed * 100000 + r)
    for r in range(60 if q else 1000):
        for cls, alg in (("AuxFDICA", "IP"), ("AuxLaplaceFDICA", "IP2"), ("GradFDICA", None), ("NaturalGradLaplaceFDICA", None)):
            yield dict(grid.case(cls, alg, "C09", seed, r, it=1 + r % 3), mode="fdica")
        for _ in range(2):
            for opt in ("posterior_score", "amplitude_score", "amplitude_correlation", True):
                yield dict(grid.case("CACGMM", None, "C09", seed, r, opt, it=r % 4), mode="cacgmm", opt=opt)


def floor_of(name):
    if name == "default":
        return {}, lambda x: np.maximum(x, 1e-10)
    if name == "none":
        return dict(flooring_fn=None), lambda x: x
    eps = 1e-6
    return dict(flooring_fn=lambda x: np.maximum(x, eps)), lambda x: np.maximum(x, eps)


class Ambiguous(Exception):
    pass


def best_of(scores):
    o = np.sort(scores)[::-1]
    if len(o) > 1 and o[0] - o[1] <= 1e-9 * (1 + np.max(np.abs(scores))):
        raise Ambiguous
    return int(np.argmax(scores))


def ref_corr(Y, fl):
    """Permutation of every bin: greedy, from the bin whose sources are least alike."""
    F, N, T = Y.shape
    P = np.abs(Y)
    P = P / fl(np.sqrt(np.sum(P**2, axis=1, keepdims=True)))
    like = np.einsum("fit,fjt->f", P, P)
    o = np.sort(like)
    if F > 1 and np.min(np.diff(o)) <= 1e-9 * (1 + np.max(np.abs(o))):
        raise Ambiguous
    order = np.argsort(like)
    perms = list(itertools.permutations(range(N)))
    out = [tuple(range(N))] * F
    acc = P[order[0]].copy()
    for f in order[1:]:
        sc = np.array([np.sum(acc * P[f][list(p)]) for p in perms])
        p = perms[best_of(sc)]
        out[f] = p
        acc += P[f][list(p)]
    return out


def ref_score(Y, fl, g_iter, l_iter):
    F, N, T = Y.shape
    perms = list(itertools.permutations(range(N)))
    S = (Y - Y.mean(axis=-1, keepdims=True)) / fl(Y.std(axis=-1, keepdims=True))
    cur = [list(range(N)) for _ in range(F)]
    sign = 2 * np.eye(N) - 1

    def apply(f, p):
        S[f] = S[f][list(p)]
        cur[f] = [cur[f][k] for k in p]

    cstd = None
    for _ in range(g_iter):
        c = S.mean(axis=0)
        cstd = fl(c.std(axis=-1))
        todo = []
        for f in range(F):
            sc = [np.sum(sign * ((S[f][list(p)] @ c.T) / T / cstd[:, None])) for p in perms]
            todo.append(perms[best_of(np.array(sc))])
        for f, p in enumerate(todo):
            apply(f, p)
    for _ in range(l_iter):
        for f in range(F):
            near = set(range(f - 3, f + 4)) - {f}
            near |= set(range(f // 2 - 1, f // 2 + 2)) | set(range(2 * f - 1, 2 * f + 2))
            near = sorted(k for k in near if 0 <= k < F)
            sc = []
            for p in perms:
                tot = 0.0
                for k in near:
                    tot += np.sum(sign * ((S[f][list(p)] @ S[k].T) / T / cstd[:, None]))
                sc.append(tot)
            apply(f, perms[best_of(np.array(sc))])
    return [tuple(p) for p in cur]


def find_perm(before, after):
    """Permutation p of one bin with after[i] == before[p[i]], bit for bit; None if there is none."""
    N = before.shape[0]
    p, used = [], set()
    for i in range(N):
        for k in range(N):
            if k not in used and np.array_equal(after[i], before[k]):
                p.append(k)
                used.add(k)
                break
        else:
            return None
    return tuple(p)


def solver_of(name, r):
    from ssspy.algorithm import permutation_alignment as pa

    if name == "corr":
        if r.integers(6) == 0:
            from ssspy.bss import _solve_permutation as old

            return old.correlation_based_permutation_solver
        return pa.correlation_based_permutation_solver
    return pa.score_based_permutation_solver


def run(c, rec):
    if c["mode"] == "fdica":
        return fdica(c, rec)
    if c["mode"] == "cacgmm":
        return cacgmm(c, rec)
    if c["mode"] == "errors":
        return errors(c, rec)
    r = rng_of("C09", c["mode"], c["seed"])
    aligned = c["mode"].startswith("aligned")
    name = c["mode"].split(":")[-1]
    for _ in range(c["n"]):
        N = int(r.integers(1, 5)) if not aligned else int(r.integers(2, 5))
        F = int(r.integers(1, 12)) if not aligned else int(r.integers(5, 20))
        T = int(r.integers(4, 30)) if not aligned else int(r.integers(12 * N, 25 * N))
        if r.integers(40) == 0:  # long, many bins, or many sources
            N, F, T = [(2, 6, int(r.integers(300, 1200))), (2, int(r.integers(40, 330)), 60), (5, 8, 90)][int(r.integers(3))]
        if aligned:
            own = r.permutation(np.arange(T) % N)
            act = np.where(own[None] == np.arange(N)[:, None], 1.0, 0.05)
            true = act[None] * r.uniform(0.6, 1.4, size=(F, N, T))
            perm0 = [r.permutation(N) for _ in range(F)]
            if name == "score":
                base = r.permutation(N)
                perm0 = [base if k >= max(1, F // 4) else r.permutation(N) for k in range(F)]
                perm0 = [perm0[k] for k in r.permutation(F)]
            Y0 = np.stack([true[f][perm0[f]] for f in range(F)])
            if name == "corr":
                Y0 = Y0 * r.uniform(0.1, 10, size=(F, 1, 1)) * np.exp(1j * r.uniform(0, 6, size=Y0.shape))
        else:
            Y0 = r.standard_normal((F, N, T)) * np.exp(r.standard_normal((F, 1, 1)))
            if name == "corr" and r.integers(3):
                Y0 = Y0 + 1j * r.standard_normal((F, N, T))
            elif r.integers(2):
                Y0 = np.abs(Y0)
                Y0 = Y0 / Y0.sum(axis=1, keepdims=True) + 0.0
                if N == 1:
                    Y0 = r.random((F, N, T))
        silent = []
        if aligned and r.integers(3) == 0:
            # bins without any signal (a band-limited recording): their order is immaterial, the rest must still align
            silent = [int(f) for f in r.choice(F, size=int(r.integers(1, max(2, F // 4))), replace=False)]
            Y0[silent] = 0
            rec.count("silent bins", len(silent))
        n_args = int(r.integers(0, 4))
        trail = [[(), (3,), (2, 2), (T,), (1,)][int(r.integers(5))] for _ in range(n_args)]
        args0 = []
        for s in trail:
            a = r.standard_normal((F, N) + s)
            if r.integers(2):
                a = a + 1j * r.standard_normal((F, N) + s)
            if r.integers(4) == 0:
                a = np.arange(F * N * int(np.prod(s, dtype=int))).reshape((F, N) + s)
            args0.append(a)
        floor = ["default", "default", "none", "custom"][int(r.integers(4)) if not silent else 0]
        kwf, fl = floor_of(floor)
        if r.integers(4) == 0 and not (aligned and floor == "custom"):  # faint and loud recordings
            Y0 = Y0 * 10.0 ** r.uniform(-6, 6)
            rec.count("gain")
        kw = dict(kwf)
        over = [None, True, False][int(r.integers(3))]
        if over is not None:
            kw["overwrite"] = over
        g = l = 1
        if name == "score":
            if r.integers(2):
                g = int(r.integers(1, 4))
                kw["global_iter"] = g
            if r.integers(2):
                l = int(r.integers(0, 4))
                kw["local_iter"] = l
            if aligned and g == 1 and l == 0:
                l = 1
                kw["local_iter"] = 1
        Y, args = Y0.copy(), [a.copy() for a in args0]
        fn = solver_of(name, r)
        with rec.sut(name + " solver"):
            res = fn(Y, *args, **kw)
        if n_args == 0:
            out, oargs = res, ()
        elif n_args == 1:
            rec.check(isinstance(res, tuple) and len(res) == 2, name + ":args", "return structure")
            out, oargs = res[0], (res[1],)
        else:
            rec.check(isinstance(res, tuple) and len(res) == 2, name + ":args", "return structure")
            out, oargs = res[0], tuple(res[1])
        if not rec.check(np.shape(out) == Y0.shape and len(oargs) == n_args, name + ":values", "shape %s" % (np.shape(out),)):
            continue
        found = []
        for f in range(F):
            p = find_perm(Y0[f], out[f])
            if not rec.check(p is not None, name + ":values", "bin %d is not a permutation of the input sources" % f):
                return
            found.append(p)
        for a0, a in zip(args0, oargs):
            want = np.stack([a0[f][list(found[f])] if f not in silent else a[f] for f in range(F)])
            for f in silent:
                rec.check(find_perm(a0[f], a[f]) is not None, name + ":args", "companion of a silent bin is not permuted")
            rec.check(a.dtype == a0.dtype and np.array_equal(a, want), name + ":args", "companion array permuted differently (trailing shape %s)" % (a0.shape[2:],))
        if over is False:
            rec.check(np.array_equal(Y, Y0), "overwrite", "sequence modified although overwrite=False")
            for a0, a in zip(args0, args):
                rec.check(np.array_equal(a, a0), "overwrite", "companion modified although overwrite=False")
        else:
            rec.check(np.array_equal(Y, out), "overwrite", "sequence not overwritten")
            for a, o in zip(args, oargs):
                rec.check(np.array_equal(a, o), "overwrite", "companion not overwritten")
        if aligned:
            # the order of the true sources must be the same in all bins
            got = [tuple(perm0[f][list(found[f])]) for f in range(F) if f not in silent]
            if name == "score":
                rec.check(len(set(got)) == 1, "aligned:score", lambda: "orders %s from %s" % (set(got), perm0))
            else:
                rec.check(len(set(got)) == 1, "aligned:corr", lambda: "orders %s" % (set(got),))
        try:
            want = ref_corr(Y0, fl) if name == "corr" else ref_score(Y0, fl, g, l)
            rec.check(
                [tuple(map(int, p)) for p in want] == found, name + ":reference",
                lambda: "%s F=%d N=%d T=%d global %d local %d: permutations %s, expected %s" % (name, F, N, T, g, l, found, want),
            )  # fmt: skip
        except Ambiguous:
            rec.skip("ambiguous permutation")
        rec.nontrivial(c["mode"], F, N, tuple(trail), over, g, l, sorted(kwf))


def errors(c, rec):
    r = rng_of("C09e", c["seed"])
    from ssspy.algorithm import permutation_alignment as pa

    F, N, T = (int(v) for v in r.integers(2, 6, size=3))
    Y = r.random((F, N, T))
    for fn in (pa.correlation_based_permutation_solver, pa.score_based_permutation_solver):
        bad = [r.random((F + 1, N, T)), r.random((F, N + 1))][int(r.integers(2))]
        good = r.random((F, N))
        rec.expect_raise(lambda: fn(Y.copy(), bad), ValueError, "errors", "mismatched companion")
        rec.expect_raise(lambda: fn(Y.copy(), good, bad), ValueError, "errors", "mismatched second companion")
        rec.expect_raise(lambda: fn(Y[0]), AssertionError, "errors", "2-D sequence")


def fdica(c, rec):
    spec = c["spec"]
    label = spec["cls"] + "." + mono.algo(spec)
    X = zoo.input_for(spec, c)
    fl = zoo.floor_fn(spec)
    off = dict(spec, kw=dict(spec["kw"], permutation_alignment=False, scale_restoration=False))
    for opt in (True, "spectrogram_correlation"):
        on = dict(spec, kw=dict(spec["kw"], permutation_alignment=opt, scale_restoration=False))
        with rec.sut(label + " twins"):
            a, b = zoo.build(off), zoo.build(on)
            Y0 = a(X, n_iter=c["it"])
            Y1 = b(X, n_iter=c["it"])
        W0, W1 = a.demix_filter, b.demix_filter
        try:
            want = ref_corr(np.swapaxes(Y0, 0, 1), fl)
        except Ambiguous:
            rec.skip("ambiguous permutation")
            continue
        F = X.shape[1]
        WW = np.stack([W0[f][list(want[f])] for f in range(F)])
        YY = np.stack([Y0[list(want[f]), f] for f in range(F)], axis=1)
        rec.close(W1, WW, "fdica", rtol=1e-9, msg=label + ": aligned filter")
        rec.close(Y1, YY, "fdica", rtol=1e-9, msg=label + ": aligned output")
    rec.nontrivial(label, X.shape, c["it"])


def cacgmm(c, rec):
    spec = c["spec"]
    X = data.mixture_of(c)
    fl = zoo.floor_fn(spec)
    r = rng_of("C09c", c["seed"])
    off = dict(spec, kw=dict(spec["kw"], permutation_alignment=False))
    on = dict(spec, kw=dict(spec["kw"], permutation_alignment=c["opt"]))
    g = l = 1
    if c["opt"] != "amplitude_correlation":
        if r.integers(2):
            g = on["kw"]["global_iter"] = int(r.integers(1, 4))
        if r.integers(2):
            l = on["kw"]["local_iter"] = int(r.integers(0, 3))
    with rec.sut("CACGMM twins"):
        a, b = zoo.build(off), zoo.build(on)
        Y0 = a(X, n_iter=c["it"])
        Y1 = b(X, n_iter=c["it"])
    F = X.shape[1]
    if c["opt"] in (True, "posterior_score"):
        target = np.swapaxes(a.posterior, 0, 1)
    else:
        target = np.abs(np.swapaxes(Y0, 0, 1))
    try:
        want = ref_corr(target, fl) if c["opt"] == "amplitude_correlation" else ref_score(target, fl, g, l)
    except Ambiguous:
        rec.skip("ambiguous permutation")
        return
    for key in ("mixing", "covariance", "posterior", "output"):
        A, B = getattr(a, key), getattr(b, key)
        W = np.stack([A[list(want[f]), f] for f in range(F)], axis=1)
        rec.close(B, W, "cacgmm", rtol=1e-9, msg="CACGMM %s: aligned %s" % (c["opt"], key))
    rec.close(Y1, b.output, "cacgmm", rtol=0, msg="returned")
    rec.nontrivial("CACGMM", c["opt"], X.shape, g, l, c["it"], str(spec["kw"].get("n_sources")))
