"""C01: majorization-based FDICA/IVA updates never increase their objective."""

from .. import mono
from ..core import rng_of

RULE = (
    "distinct (class, spatial algorithm, shape, pair schedule, options, source kind) whose objective, "
    "recomputed independently from the snapshot after every iteration, was compared with the previous one"
)
ASSUMPTIONS = ["objective recomputed from public state; relative tolerance 1e-8"]
REQUIRED = {
    "steps:AuxLaplaceIVA.IPA": 20,
    "steps:AuxGaussIVA.ISS2": 20,
    "steps:AuxLaplaceFDICA.IP2": 20,
    "steps:AuxIVA.IP": 20,
}


GAUSS = ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"]
GRID = [
    ("AuxLaplaceFDICA", ["IP", "IP1", "IP2"], [None]),
    ("AuxFDICA", ["IP", "IP1", "IP2"], ["smooth", "student", "power", "laplace"]),
    ("AuxLaplaceIVA", GAUSS, [None]),
    ("AuxGaussIVA", GAUSS, [None]),
    ("AuxIVA", GAUSS, ["smooth", "power", "laplace"]),
]


def cases(tier, seed):
    """Every (class, algorithm, contrast) in every round; the other dimensions are drawn independently."""
    for r in range(30 if tier == "quick" else 300):
        for cls, algs, contrasts in GRID:
            for a in algs:
                for con in contrasts:
                    for M in (2, 3, 4) if con is None else (2, 3):
                        g = rng_of("C01", seed, r, cls, a, str(con), M)
                        pick = lambda *o: o[int(g.integers(len(o)))]  # noqa: E731
                        kw = {"spatial_algorithm": a, "scale_restoration": False}
                        if "FDICA" in cls:
                            kw["permutation_alignment"] = False
                        if a == "IPA":
                            kw["newton_iter"] = pick(1, 1, 3, 10)
                            kw["lqpqm_normalization"] = pick(True, False)
                            for k in ("newton_iter", "lqpqm_normalization"):
                                if g.integers(6) == 0:
                                    del kw[k]
                        spec = dict(cls=cls, kw=kw, floor=pick(None, "max:1e-12", "none") if a != "IPA" else None)
                        if a in ("IP2", "ISS2"):
                            spec["pair"] = pick("default", "comb", "rev", "seq2", "seqsort")
                        if con is not None:
                            spec["contrast"] = con
                        yield dict(
                            spec=spec,
                            seed=seed * 100000 + r,
                            M=M + (2 if r % 7 == 6 else 0),
                            F=int(g.integers(5 if cls == "AuxGaussIVA" else 1, 11)),
                            T=pick(41, 60, 90, 150),
                            kind=pick("laplace", "nmf", "gauss"),
                            gain=pick(1.0, 1.0, 1e-3, 1e3),
                            it=pick(8, 15, 15, 30, 60) if tier == "quick" else pick(15, 30, 100),
                        )


def run(c, rec):
    mono.run_monotone(c, rec, guard=mono.ill_conditioned)
