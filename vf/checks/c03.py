"""C03: MNMF, FastMNMF, IPSDTA and cACGMM never increase their objective."""

from .. import mono
from ..core import rng_of

RULE = (
    "distinct (class, algorithm, shape, options) whose objective, recomputed independently after every "
    "iteration, was compared with the previous one"
)
ASSUMPTIONS = ["relative tolerance 1e-7 (flooring of eigenvalues at 1e-10 enters the model)"]
REQUIRED = {
    "steps:GaussMNMF.": 20,
    "steps:FastGaussMNMF.IP2": 20,
    "steps:GaussIPSDTA.": 20,
    "steps:TIPSDTA.": 20,
    "steps:CACGMM.": 20,
}


def cases(tier, seed):
    q = tier == "quick"
    for r in range(40 if q else 400):
        for M in (2, 3) if r % 4 else (2, 3, 4 + r // 4 % 2):
            other = 5 - M if M < 4 else M - 1
            for cls, alg, N in (
                ("GaussMNMF", None, M),
                ("GaussMNMF", None, other),
                ("FastGaussMNMF", "IP", M),
                ("FastGaussMNMF", "IP1", other),
                ("FastGaussMNMF", "IP1", M),
                ("FastGaussMNMF", "IP2", M),
                ("FastGaussMNMF", "IP2", other),
                ("CACGMM", None, M),
                ("CACGMM", None, other),
                ("GaussIPSDTA", "even", M),
                ("GaussIPSDTA", "uneven", M),
                ("TIPSDTA", "even", M),
                ("TIPSDTA", "uneven", M),
            ):
                g = rng_of("C03", seed, r, M, cls, alg, N)
                pick = lambda *o: o[int(g.integers(len(o)))]  # noqa: E731
                kw = {}
                spec = dict(cls=cls, kw=kw, rng=int(g.integers(1 << 30)) if g.integers(12) else "none", floor=pick(None, None, "max:1e-12"))
                F, T = int(g.integers(2, 8)), pick(30, 40, 60)
                it = pick(6, 12, 12, 40) if q else pick(12, 25, 80)
                if "MNMF" in cls:
                    kw["n_basis"] = pick(1, 2, 3)
                    kw["n_sources"] = N
                if cls != "CACGMM":
                    kw["reference_id"] = pick(0, 1)
                if "IPSDTA" in cls:
                    shapes = [(8, 4), (6, 3), (6, 6), (5, 1)] if alg == "even" else [(7, 3), (5, 2), (5, 3), (8, 3), (9, 5), (4, 3)]
                    F, nb = pick(*shapes)
                    kw.update(n_basis=pick(1, 2, 3), n_blocks=nb, source_normalization=pick(True, False), scale_restoration=False)
                    if cls == "TIPSDTA":
                        kw["dof"] = pick(1, 5, 100)
                    T = pick(40, 60, 90)
                elif cls == "CACGMM":
                    kw.update(n_sources=N, normalization=pick(True, False), permutation_alignment=False)
                    T = pick(60, 100)
                else:
                    kw["normalization"] = pick(True, False)
                if cls == "FastGaussMNMF":
                    kw["diagonalizer_algorithm"] = alg
                    if alg == "IP2":
                        spec["pair"] = pick("default", "comb", "rev")
                yield dict(spec=spec, seed=seed * 100000 + r, M=M, F=F, T=T, kind=pick("nmf", "nmf", "laplace"), gain=pick(1.0, 1.0, 1e-2, 1e2), it=it)


def run(c, rec):
    mono.run_monotone(c, rec, tol=1e-7, guard=mono.ill_conditioned)
