"""Random but reproducible configurations of every separation method."""

from .core import rng_of

SPATIAL_IVA = ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"]
SPATIAL_ILRMA = ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2"]

CLASSES = [
    "GradICA", "NaturalGradICA", "FastICA", "GradLaplaceICA", "NaturalGradLaplaceICA",
    "GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA",
    "AuxLaplaceFDICA",
    "GradIVA", "NaturalGradIVA", "FastIVA", "FasterIVA", "AuxIVA", "PDSIVA", "ADMMIVA",
    "GradLaplaceIVA", "GradGaussIVA", "NaturalGradLaplaceIVA", "NaturalGradGaussIVA",
    "AuxLaplaceIVA", "AuxGaussIVA",
    "GaussILRMA", "TILRMA", "GGDILRMA",
    "GaussMNMF", "FastGaussMNMF",
    "GaussIPSDTA", "TIPSDTA",
    "CACGMM",
    "PDSBSS", "MaskingPDSBSS", "ADMMBSS", "MaskingADMMBSS",
    "MaskingPDSHVA", "MaskingADMMHVA", "HVA",
]  # fmt: skip

# (class, main algorithm) strata: every one is visited in every sweep
STRATA = []
for _c in CLASSES:
    if _c in ("AuxFDICA", "AuxLaplaceFDICA"):
        STRATA += [(_c, a) for a in ("IP", "IP1", "IP2")]
    elif _c in ("AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA"):
        STRATA += [(_c, a) for a in SPATIAL_IVA]
    elif _c == "GaussILRMA":
        STRATA += [(_c, a) for a in SPATIAL_IVA]
    elif _c in ("TILRMA", "GGDILRMA"):
        STRATA += [(_c, a) for a in SPATIAL_ILRMA]
    elif _c == "FastGaussMNMF":
        STRATA += [(_c, a) for a in ("IP", "IP1", "IP2")]
    else:
        STRATA.append((_c, None))

FAM = {}


def family(cls):
    from .zoo import FAMILY

    return FAMILY[cls]


def pick(r, seq):
    return seq[int(r.integers(len(seq)))]


def case(cls, alg, *keys, it=None, restore=None, align=None, small=False, long=0, **fixed):
    """One random configuration of ``cls``/``alg``; keys seed it.  Returns the case dict."""
    r = rng_of("grid", cls, alg, *keys)
    fam = family(cls)
    M = pick(r, [2, 2, 3, 3, 4])
    F = pick(r, [1, 2, 5, 6, 7, 9])
    T = pick(r, [40, 55, 64, 81])
    kw = {}
    spec = dict(cls=cls, kw=kw, rng=int(r.integers(1 << 30)))
    ref = pick(r, [0, 0, 1, -1])
    kind = pick(r, ["nmf", "laplace"])
    if fam == "ica":
        F = 1
        T = pick(r, [50, 101, 200])
        if "Fast" not in cls:
            kw["step_size"] = pick(r, [0.01, 0.1, 0.2])
            kw["is_holonomic"] = pick(r, [True, False])
        if "Laplace" not in cls:
            spec["contrast"] = pick(r, ["logcosh", "smoothabs"])
    elif fam == "fdica":
        kw["permutation_alignment"] = bool(r.integers(2)) if align is None else align
        if "Aux" in cls:
            kw["spatial_algorithm"] = alg
        else:
            kw["step_size"] = pick(r, [0.01, 0.05, 0.1])
            kw["is_holonomic"] = pick(r, [True, False])
        if "Laplace" not in cls:
            spec["contrast"] = pick(r, ["laplace", "smooth", "student", "power"])
    elif cls in ("PDSIVA", "PDSBSS", "MaskingPDSBSS", "MaskingPDSHVA", "HVA"):
        kw["mu1"] = pick(r, [1, 0.5, 0.8])
        kw["mu2"] = pick(r, [1, 0.7, 1.2])
        kw["relaxation"] = pick(r, [1, 1.5, 0.6])
    elif cls in ("ADMMIVA", "ADMMBSS", "MaskingADMMBSS", "MaskingADMMHVA"):
        kw["rho"] = pick(r, [1, 0.5, 2.5])
        kw["relaxation"] = pick(r, [1, 1.5, 0.6])
    elif fam == "iva":
        if "Aux" in cls:
            kw["spatial_algorithm"] = alg
            if alg == "IPA":
                kw["newton_iter"] = pick(r, [1, 3])
                kw["lqpqm_normalization"] = pick(r, [True, False])
        elif "Grad" in cls:
            kw["step_size"] = pick(r, [0.01, 0.05, 0.1])
            kw["is_holonomic"] = pick(r, [True, False])
        if cls in ("GradIVA", "NaturalGradIVA", "AuxIVA", "FastIVA", "FasterIVA"):
            spec["contrast"] = pick(r, ["laplace", "smooth", "power"])
        if "Gauss" in cls:
            F = pick(r, [5, 6, 7, 9])
            T = pick(r, [64, 81])
    elif fam == "ilrma":
        dom = pick(r, [2, 2, 1, 0.5, 1.5])
        part = pick(r, [False, False, True])
        src = pick(r, ["MM", "MM", "ME"])
        if cls == "GGDILRMA":
            src = "MM"
            kw["beta"] = pick(r, [0.8, 1, 1.5, 1.95])
        if src == "ME":
            dom = 2
        if cls == "TILRMA":
            kw["dof"] = pick(r, [1, 5, 100])
        norms = [True, False, "power", "projection_back"]
        if part:
            norms = [True, False, "power"]
        kw.update(
            n_basis=pick(r, [1, 2, 3, 4]),
            spatial_algorithm=alg,
            source_algorithm=src,
            domain=dom,
            partitioning=part,
            normalization=pick(r, norms),
        )
        if alg == "IPA":
            kw["newton_iter"] = pick(r, [1, 3])
            kw["lqpqm_normalization"] = pick(r, [True, False])
        if part:
            kw["n_basis"] = pick(r, [3, 4, 6])
            if alg in ("IP", "IP1", "ISS", "ISS1") and r.integers(5) == 0:
                kw["n_basis"] = 1  # proportional variances: leaves pairwise updates undetermined
        F = pick(r, [5, 6, 8])
    elif fam == "mnmf":
        part = pick(r, [False, True]) if cls == "GaussMNMF" else False
        M = pick(r, [2, 3])
        kw.update(n_basis=pick(r, [1, 2, 4]), normalization=pick(r, [True, False]))
        if part:
            kw["partitioning"] = True
            kw["n_basis"] = pick(r, [3, 5])
        ns = pick(r, [None, None, 2, 3])
        if ns is not None:
            kw["n_sources"] = ns
        if cls == "FastGaussMNMF":
            kw["diagonalizer_algorithm"] = alg
        F = pick(r, [1, 4, 5, 7])
        T = pick(r, [30, 41])
    elif fam == "ipsdta":
        M = pick(r, [2, 3])
        F = pick(r, [4, 5, 6, 7, 8])
        nb = int(r.integers(1, F + 1))
        kw.update(
            n_basis=pick(r, [1, 2, 3]),
            n_blocks=nb,
            source_normalization=pick(r, [True, False]),
        )
        if cls == "TIPSDTA":
            kw["dof"] = pick(r, [1, 5, 100])
        T = pick(r, [40, 51])
    elif fam == "cacgmm":
        M = pick(r, [2, 3])
        F = pick(r, [1, 4, 6])
        T = pick(r, [50, 61])
        ns = pick(r, [None, 2, 3])
        if ns is not None:
            kw["n_sources"] = ns
        kw["normalization"] = pick(r, [True, False])
        kw["permutation_alignment"] = bool(r.integers(2)) if align is None else align
    if cls in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA"):
        kw["mask_iter"] = pick(r, [1, 2])
        kw["attenuation"] = pick(r, [None, 0.5, 1.0, 0.3])
        F = pick(r, [3, 5, 8, 9])
    if cls in ("PDSBSS", "ADMMBSS"):
        spec["penalty"] = pick(r, [["l21"], ["l1"], ["half_l21", "l1"], ["l21", "l1", "l2sq"], ["l2sq"],
                                   ["time"], ["fro", "l21"], ["cross", "time"]])  # fmt: skip
    if cls in ("PDSIVA", "ADMMIVA") and r.integers(2):
        spec["penalty"] = ["half_l21"]
    if cls in ("MaskingPDSBSS", "MaskingADMMBSS"):
        spec["mask"] = pick(r, ["wiener", "shrink", "level"])
    if alg in ("IP2", "ISS2"):
        spec["pair"] = pick(r, ["default", "comb", "rev", "seq2", "seqsort"])
    if fam in ("fdica", "ilrma", "mnmf", "ipsdta", "cacgmm") or (
        fam == "iva" and cls not in ("PDSIVA", "ADMMIVA")
    ):
        spec["floor"] = pick(r, [None, None, "max:1e-12", "add:1e-9"])
    if fam not in ("ica", "mnmf", "cacgmm"):
        opts = [True, False, "projection_back", "minimal_distortion_principle", "PB", "MDP",
                "projection-back", "minimal-distortion-principle"]  # fmt: skip
        kw["scale_restoration"] = pick(r, opts) if restore is None else restore
    if fam != "ica":
        kw["reference_id"] = ref
    c = dict(
        spec=spec,
        seed=int(r.integers(1 << 20)),
        M=M,
        F=F,
        T=T,
        kind=kind,
        it=pick(r, [0, 1, 2, 3, 5]) if it is None else it,
        gain=pick(r, [1.0, 1.0, 0.05, 20.0]) if fam != "ica" else 1.0,
    )
    if "ADMM" in cls and c["it"] == 1 and kw.get("scale_restoration"):
        c["it"] = 3  # the very first ADMM iterate is the zero filter: no scale to restore
    if "Grad" in cls:
        c["gain"] = pick(r, [1.0, 0.05])
    widen(c, fam, rng_of("widen", cls, alg, *keys))
    q = rng_of("long", cls, alg, *keys)
    # (a source model rich enough to fit every cell has no optimum: nothing to follow for long)
    if q.random() < long and (fam == "ica" or settled(c, fam, kw)):
        c["it"] = int(q.choice([11, 12, 12, 22]))  # what happens every tenth or twentieth iteration
    c.update(fixed)
    return c


def settled(c, fam, kw):
    """Enough data for the number of parameters: many iterations still meet well-conditioned states."""
    if c["spec"].get("floor") == "none" or c["gain"] < 0.01 or c["F"] >= 100 or fam == "cacgmm":
        return False
    if fam in ("ilrma", "mnmf"):
        return c["F"] > 3 * kw["n_basis"] and c["T"] >= 30 * c["M"] and kw.get("n_sources") in (None, c["M"])
    return c["T"] >= 20 * c["M"] and fam != "ipsdta"


def widen(c, fam, q):
    """Now and then: unusual sizes (many channels, bins or frames), option values off the usual list."""
    kw = c["spec"]["kw"]
    u = q.random()
    heavy = fam in ("mnmf", "ipsdta", "cacgmm")
    if u < 0.04:
        c["M"] = 4 if heavy else int(q.integers(5, 7))
        if kw.get("n_sources"):
            kw["n_sources"] = int(q.integers(2, 5))
        if "n_sources" not in kw and fam == "cacgmm" and q.integers(2):
            kw["n_sources"] = 4
        c["T"] = int(q.integers(60, 80)) * c["M"]
        c["F"] = min(c["F"], 6)
        if "n_blocks" in kw:
            kw["n_blocks"] = min(kw["n_blocks"], c["F"])
        if kw.get("partitioning"):
            kw["n_basis"] = c["M"] + int(q.integers(0, 3))
    elif u < 0.08 and fam != "ica":
        c["F"] = int(q.integers(17, 70)) if q.integers(12) else int(q.integers(130, 300))
        c["M"] = 2
        if "n_blocks" in kw:
            c["F"] = int(q.integers(10, 24))
            kw["n_blocks"] = int(q.integers(c["F"] // 4, c["F"] + 1))
    elif u < 0.12:
        c["T"] = int(q.integers(250, 1100))
        c["F"] = min(c["F"], 4) if fam in ("fdica", "iva", "cacgmm") else c["F"]
        if "Gauss" in c["spec"]["cls"] and fam == "iva":
            c["F"] = 5
    elif u < 0.15 and c["M"] <= 3 and not (fam == "iva" and "Gauss" in c["spec"]["cls"]):
        c["T"] = int(q.integers(10, 30))  # a short recording
    elif u < 0.165 and fam == "ilrma":
        c["F"] = 1
    elif u < 0.18 and not heavy and kw.get("spatial_algorithm") not in ("IP2", "ISS2", "IPA"):
        c["M"] = 1  # nothing to separate: scale and model only
        if "reference_id" in kw:
            kw["reference_id"] = int(q.integers(-1, 1))
    v = q.random()
    if v < 0.1 and "Grad" not in c["spec"]["cls"] and fam in ("fdica", "iva", "ilrma", "mnmf", "ipsdta", "cacgmm"):
        if c["spec"]["cls"] not in ("PDSIVA", "ADMMIVA") and kw.get("spatial_algorithm") != "IPA":
            c["gain"] = 2e4 if v < 0.06 else 2e-3  # a recording in 16-bit integer units; a very quiet one
            if c["gain"] < 0.01 and c["spec"].get("floor"):
                c["spec"]["floor"] = "max:1e-12"
    if fam in ("cacgmm", "ipsdta", "ilrma", "fdica", "iva") and c["spec"]["cls"] not in ("PDSIVA", "ADMMIVA") and kw.get("spatial_algorithm") != "IPA" and q.random() < 0.06:
        c["spec"]["floor"] = "none"
    if q.random() < 0.35:
        for k, lo, hi in (
            ("step_size", 0.004, 0.1), ("relaxation", 0.3, 1.7), ("rho", 0.3, 3.0), ("mu1", 0.3, 1.0), ("mu2", 0.4, 1.3),
            ("dof", 0.8, 60.0), ("beta", 0.6, 1.98), ("attenuation", 0.05, 1.5),
        ):  # fmt: skip
            if isinstance(kw.get(k), (int, float)) and not isinstance(kw[k], bool):
                kw[k] = round(float(q.uniform(lo, hi)), 4)
        if kw.get("domain") not in (None, 2):
            kw["domain"] = round(float(q.uniform(0.4, 1.99)), 4)
        if "n_basis" in kw and not kw.get("partitioning"):
            kw["n_basis"] = int(q.integers(1, 9 if fam != "ipsdta" else 5))
            if fam == "ilrma" and q.integers(8) == 0:
                kw["n_basis"] = int(q.integers(9, 25))
        if "newton_iter" in kw:
            kw["newton_iter"] = int(q.integers(1, 6))
            for k in ("newton_iter", "lqpqm_normalization"):
                if q.integers(3) == 0:
                    del kw[k]
        if "mask_iter" in kw:
            kw["mask_iter"] = int(q.integers(1, 5))
        if "reference_id" in kw:
            kw["reference_id"] = int(q.integers(-c["M"], c["M"]))


def sweep(tag, seed, reps, **kw):
    for r in range(reps):
        for cls, alg in STRATA:
            yield case(cls, alg, tag, seed, r, **kw)
