"""C02: ILRMA (Gauss / Student's t / GGD) never increases its objective."""

from .. import mono
from ..core import rng_of

RULE = (
    "distinct (class, algorithms, shape, domain, normalization, source kind) whose objective, recomputed "
    "independently after every iteration, was compared with the previous one"
)
ASSUMPTIONS = [
    "partitioned models are excluded here (renormalising the partition is not a majorization step); "
    "their updates are decided by C20",
]
REQUIRED = {"steps:GaussILRMA.IPA-MM": 10, "steps:TILRMA.ISS2-MM": 10, "steps:GGDILRMA.IP2-MM": 10}

ALG = ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2"]


def cases(tier, seed):
    """Every (class, spatial and source algorithm, number of sources) in every round; the rest drawn independently."""
    for r in range(50 if tier == "quick" else 300):
        for cls in ("GaussILRMA", "TILRMA", "GGDILRMA"):
            for a in ALG + (["IPA"] if cls == "GaussILRMA" else []):
                for src in ("MM", "ME")[: 1 if cls == "GGDILRMA" else 2]:
                    for M in (2, 3):
                        g = rng_of("C02", seed, r, cls, a, src, M)
                        pick = lambda *o: o[int(g.integers(len(o)))]  # noqa: E731
                        kw = dict(
                            n_basis=pick(1, 2, 3, 4),
                            spatial_algorithm=a,
                            source_algorithm=src,
                            domain=2 if src == "ME" else pick(2, 1, 0.5, 1.5),
                            normalization=pick("power", False, "projection_back", True),
                            scale_restoration=False,
                            reference_id=pick(0, 1),
                        )
                        if cls == "TILRMA":
                            kw["dof"] = pick(1, 5, 1000)
                        if cls == "GGDILRMA":
                            kw["beta"] = pick(0.5, 1, 1.5, 1.95)
                        if a == "IPA":
                            kw["newton_iter"] = pick(1, 3, 10)
                            kw["lqpqm_normalization"] = pick(True, False)
                            for k in ("newton_iter", "lqpqm_normalization"):
                                if g.integers(6) == 0:
                                    del kw[k]
                        yield dict(
                            spec=dict(
                                cls=cls,
                                kw=kw,
                                rng=int(g.integers(1 << 30)) if g.integers(12) else "none",
                                pair=pick("default", "comb", "rev", "seq2", "seqsort") if a in ("IP2", "ISS2") else None,
                                floor=pick("max:1e-10", "max:1e-12", "none") if a != "IPA" else None,
                            ),
                            seed=seed * 100000 + r,
                            M=M + (2 if r % 6 == 5 else 0),
                            F=int(g.integers(4, 13)),
                            T=pick(40, 60, 75, 120),
                            kind=pick("nmf", "laplace"),
                            gain=pick(1.0, 1.0, 1e-3, 1e3),
                            it=pick(8, 12, 12, 40) if tier == "quick" else pick(12, 25, 100),
                        )


def run(c, rec):
    mono.run_monotone(c, rec, guard=mono.ill_conditioned)
