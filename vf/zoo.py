"""Builds separation methods from JSON-able specifications and takes snapshots of their public state."""

import functools

import numpy as np

from ssspy.bss import admmbss, cacgmm, fdica, hva, ica, ilrma, ipsdta, iva, mnmf, pdsbss
from ssspy.linalg import prox
from ssspy.special.flooring import add_flooring, max_flooring
from ssspy.utils.select_pair import combination_pair_selector, sequential_pair_selector

MODS = dict(ica=ica, fdica=fdica, iva=iva, ilrma=ilrma, mnmf=mnmf, ipsdta=ipsdta, cacgmm=cacgmm)
MODS.update(pdsbss=pdsbss, admmbss=admmbss, hva=hva)

FAMILY = {}
for _f, _names in dict(
    ica="GradICA NaturalGradICA FastICA GradLaplaceICA NaturalGradLaplaceICA",
    fdica="GradFDICA NaturalGradFDICA AuxFDICA GradLaplaceFDICA NaturalGradLaplaceFDICA "
    "AuxLaplaceFDICA",
    iva="GradIVA NaturalGradIVA FastIVA FasterIVA AuxIVA PDSIVA ADMMIVA GradLaplaceIVA GradGaussIVA "
    "NaturalGradLaplaceIVA NaturalGradGaussIVA AuxLaplaceIVA AuxGaussIVA",
    ilrma="GaussILRMA TILRMA GGDILRMA",
    mnmf="GaussMNMF FastGaussMNMF",
    ipsdta="GaussIPSDTA TIPSDTA",
    cacgmm="CACGMM",
    pdsbss="PDSBSS MaskingPDSBSS",
    admmbss="ADMMBSS MaskingADMMBSS",
    hva="MaskingPDSHVA MaskingADMMHVA HVA",
).items():
    for _n in _names.split():
        FAMILY[_n] = _f


def get_class(name):
    return getattr(MODS[FAMILY[name]], name)


# ---- super-Gaussian contrasts: (G, G', G'') of the amplitude r ------------------------------------
def amp_contrast(name):
    if name == "laplace":
        return (lambda r: 2 * r, lambda r: 2 * np.ones_like(r), lambda r: np.zeros_like(r))
    if name == "smooth":
        d = 0.1
        return (
            lambda r: 2 * np.sqrt(r**2 + d),
            lambda r: 2 * r / np.sqrt(r**2 + d),
            lambda r: 2 * d / (r**2 + d) ** 1.5,
        )
    if name == "student":
        return (
            lambda r: 2 * np.log(1 + r**2),
            lambda r: 4 * r / (1 + r**2),
            lambda r: 4 * (1 - r**2) / (1 + r**2) ** 2,
        )
    if name == "power":
        return (lambda r: 2 * r**1.5, lambda r: 3 * r**0.5, lambda r: 1.5 / np.sqrt(r))
    if name == "gauss":
        return (lambda r: r**2, lambda r: 2 * r, lambda r: 2 * np.ones_like(r))
    raise ValueError(name)


def real_contrast(name):
    """(G, score, d_score) of a real signal."""
    if name == "logcosh":
        return (
            lambda y: np.logaddexp(y, -y) - np.log(2),
            np.tanh,
            lambda y: 1 - np.tanh(y) ** 2,
        )
    if name == "smoothabs":
        return (
            lambda y: np.sqrt(y**2 + 0.1),
            lambda y: y / np.sqrt(y**2 + 0.1),
            lambda y: 0.1 / (y**2 + 0.1) ** 1.5,
        )
    if name == "laplace":
        return (np.abs, np.sign, None)
    raise ValueError(name)


def flooring(spec):
    """-> (has_arg, fn).  None means: use the default."""
    f = spec.get("floor")
    if f is None:
        return False, None
    if f == "none":
        return True, None
    kind, eps = f.split(":")
    return True, functools.partial({"max": max_flooring, "add": add_flooring}[kind], eps=float(eps))


def floor_fn(spec):
    """The flooring function the configuration asks for, as our own function."""
    f = spec.get("floor") or "max:1e-10"
    if f == "none":
        return lambda x: x
    kind, eps = f.split(":")
    eps = float(eps)
    if kind == "max":
        return lambda x: np.maximum(x, eps)
    return lambda x: x + eps


def pair_fn(name):
    if name is None or name == "default":
        return None
    if name == "seq":
        return sequential_pair_selector
    if name == "seq2":
        return functools.partial(sequential_pair_selector, step=2)
    if name == "seqsort":
        return functools.partial(sequential_pair_selector, sort=True)
    if name == "comb":
        return combination_pair_selector
    if name == "rev":
        return lambda n: [(j, i) for i in range(n) for j in range(i + 1, n)]
    if name == "last":
        return lambda n: [(n - 1, 0)]
    raise ValueError(name)


def pairs_of(name, n):
    """Independent expansion of the pair schedules used above."""
    if name in (None, "default", "seq"):
        return [(m, (m + 1) % n) for m in range(n)]
    if name == "seq2":
        return [(m, (m + 1) % n) for m in range(0, n, 2)]
    if name == "seqsort":
        return [tuple(sorted((m, (m + 1) % n))) for m in range(n)]
    if name == "comb":
        return [(i, j) for i in range(n) for j in range(i + 1, n)]
    if name == "rev":
        return [(j, i) for i in range(n) for j in range(i + 1, n)]
    if name == "last":
        return [(n - 1, 0)]
    raise ValueError(name)


# ---- penalties / masks for the proximal family -----------------------------------------------------
def penalty(name):
    """-> (penalty_fn, prox_penalty, reference prox)"""
    if name == "l21":
        return (
            lambda y: float(np.sum(np.sqrt(np.sum(np.abs(y) ** 2, axis=1)))),
            lambda y, step_size=1: prox.l21(y, step_size=step_size, axis2=1),
        )
    if name == "l1":
        return (
            lambda y: float(np.sum(np.abs(y))),
            lambda y, step_size=1: prox.l1(y, step_size=step_size),
        )
    if name == "half_l21":
        return (
            lambda y: float(0.5 * np.sum(np.sqrt(np.sum(np.abs(y) ** 2, axis=1)))),
            lambda y, step_size=1: prox.l21(y, step_size=0.5 * step_size, axis2=1),
        )
    if name == "l2sq":
        return (
            lambda y: float(0.5 * np.sum(np.abs(y) ** 2)),
            lambda y, step_size=1: y / (1 + step_size),
        )
    if name in GROUPS:  # groups over frames, over sources, or everything
        ax = GROUPS[name]

        def group(y, step_size=1):
            n = np.sqrt(np.sum(np.abs(y) ** 2, axis=ax, keepdims=True))
            return np.maximum(1 - step_size / np.maximum(n, 1e-300), 0) * y

        return lambda y: float(np.sum(np.sqrt(np.sum(np.abs(y) ** 2, axis=ax)))), group
    if name == "ramp":  # another weight for every entry

        def weighted(y, step_size=1):
            a = np.abs(y)
            return y * np.maximum(1 - step_size * ramp(y.shape) / np.maximum(a, 1e-300), 0)

        return lambda y: float(np.sum(ramp(y.shape) * np.abs(y))), weighted
    raise ValueError(name)


GROUPS = {"time": 2, "cross": 0, "fro": (0, 1, 2)}


def ramp(shape):
    """Positive weights, all different, of a (sources, bins, frames) array."""
    n, f, t = shape
    return (
        (1 + 0.3 * np.arange(n))[:, None, None]
        * (0.5 + 0.5 * np.cos(np.arange(f)) ** 2)[None, :, None]
        * (0.4 + 0.6 * np.arange(1, t + 1) / t)[None, None, :]
    )


def ref_prox(name, y, s):
    if name in ("l21", "half_l21"):
        s = s * (0.5 if name == "half_l21" else 1.0)
        n = np.sqrt(np.sum(np.abs(y) ** 2, axis=1, keepdims=True))
        with np.errstate(all="ignore"):
            g = np.where(n > s, 1 - s / n, 0.0)
        return g * y
    if name == "l1":
        a = np.abs(y)
        with np.errstate(all="ignore"):
            g = np.where(a > s, 1 - s / a, 0.0)
        return g * y
    if name == "l2sq":
        return y / (1 + s)
    if name in GROUPS:
        n = np.sqrt(np.sum(np.abs(y) ** 2, axis=GROUPS[name], keepdims=True))
        with np.errstate(all="ignore"):
            return np.where(n > s, 1 - s / n, 0.0) * y
    if name == "ramp":
        a, w = np.abs(y), s * ramp(y.shape)
        with np.errstate(all="ignore"):
            return np.where(a > w, 1 - w / a, 0.0) * y
    raise ValueError(name)


def mask(name):
    if name == "wiener":

        def fn(y):
            p = np.abs(y) ** 2 + 1e-8
            return p / np.sum(p, axis=0, keepdims=True)

        return fn
    if name == "shrink":

        def fn(y):
            n = np.sqrt(np.sum(np.abs(y) ** 2, axis=1, keepdims=True)) + 1e-12
            return np.maximum(0.0, 1 - 0.5 / n) * np.ones_like(np.abs(y))

        return fn
    if name == "level":  # relative to the energy of the source in the whole recording

        def fn(y):
            p = np.abs(y) ** 2
            return p / (p + 0.02 * np.sum(p, axis=(1, 2), keepdims=True) + 1e-8)

        return fn
    if name == "ramp":

        def fn(y):
            p = np.abs(y) ** 2 * ramp(y.shape) + 1e-8
            return p / np.sum(p, axis=0, keepdims=True) * ramp(y.shape)[:1] / ramp(y.shape).max()

        return fn
    raise ValueError(name)


def build(spec, callbacks=None):
    name = spec["cls"]
    fam = FAMILY[name]
    kw = dict(spec.get("kw", {}))
    has, fl = flooring(spec)
    if has:
        kw["flooring_fn"] = fl
    p = pair_fn(spec.get("pair"))
    if p is not None:
        kw["pair_selector"] = p
    if callbacks is not None:
        kw["callbacks"] = callbacks
    if fam in ("ilrma", "mnmf", "ipsdta", "cacgmm") and spec.get("rng") != "none":
        kw.setdefault("rng", np.random.default_rng(spec.get("rng", 0)))
    con = spec.get("contrast")
    if fam == "ica" and "Laplace" not in name:
        G, s, ds = real_contrast(con or "logcosh")
        kw["contrast_fn"], kw["score_fn"] = G, s
        if name == "FastICA":
            kw["d_score_fn"] = ds
    elif fam == "fdica" and "Laplace" not in name:
        G, dG, _ = amp_contrast(con or "laplace")
        kw["contrast_fn"] = lambda y: G(np.abs(y))
        if name == "AuxFDICA":
            kw["d_contrast_fn"] = dG
        else:
            kw["score_fn"] = lambda y: y * (dG(np.abs(y)) / (2 * np.maximum(np.abs(y), 1e-300)))
    elif name in ("GradIVA", "NaturalGradIVA", "AuxIVA", "FastIVA", "FasterIVA"):
        G, dG, ddG = amp_contrast(con or "laplace")
        if name in ("FastIVA", "FasterIVA"):
            kw["contrast_fn"] = lambda y: G(np.linalg.norm(y, axis=1))
            kw["d_contrast_fn"] = dG
            if name == "FastIVA":
                kw["dd_contrast_fn"] = ddG
        else:
            kw["contrast_fn"] = lambda y: G(np.linalg.norm(y, axis=1))
            if name == "AuxIVA":
                kw["d_contrast_fn"] = dG
            else:

                def score(y):
                    r = np.linalg.norm(y, axis=1, keepdims=True)
                    return y * dG(r) / (2 * np.maximum(r, 1e-300))

                kw["score_fn"] = score
    elif name in ("PDSIVA", "ADMMIVA") and spec.get("penalty"):
        w = 0.5 if spec["penalty"] == ["half_l21"] else 1.0
        kw["contrast_fn"] = lambda y: w * np.linalg.norm(y, axis=1)
        kw["prox_penalty"] = penalty(spec["penalty"][0])[1]
    elif name in ("PDSBSS", "ADMMBSS"):
        pens = spec.get("penalty", ["l21"])
        fns = [penalty(q) for q in pens]
        if len(fns) == 1:
            pf, pp = fns[0]
        else:
            pf, pp = [f[0] for f in fns], [f[1] for f in fns]
        if spec.get("with_penalty", True):
            kw["penalty_fn"] = pf
        elif name == "ADMMBSS":  # records by default and refuses to without a penalty function
            kw.setdefault("record_loss", False)
        kw["prox_penalty"] = pp
    elif name in ("MaskingPDSBSS", "MaskingADMMBSS"):
        kw["mask_fn"] = mask(spec.get("mask", "wiener"))
        if spec.get("with_penalty", True):
            kw["penalty_fn"] = penalty("l21")[0]
    return get_class(name)(**kw)


def snap(m):
    """Deep copy of the public numeric state."""
    out = {}
    for k, v in vars(m).items():
        if k.startswith("_"):
            continue
        if isinstance(v, np.ndarray):
            out[k] = v.copy()
        elif isinstance(v, tuple) and v and all(isinstance(a, np.ndarray) for a in v):
            out[k] = tuple(a.copy() for a in v)
        elif v is None or isinstance(v, (bool, int, float, str)):
            out[k] = v
    return out


class Tracer:
    """Callback recording one snapshot per invocation."""

    def __init__(self, keep=True):
        self.states = []
        self.keep = keep

    def __call__(self, method):
        self.states.append(snap(method))
        return (None, False, True)[len(self.states) % 3]  # what a callback returns means nothing


def uses_filter(spec):
    """False for the configurations whose iterations update the output directly."""
    return spec.get("kw", {}).get("spatial_algorithm") not in ("ISS", "ISS1", "ISS2", "IPA")


def input_for(spec, c):
    from . import data

    if FAMILY[spec["cls"]] == "ica":
        return data.real_mixture(c["seed"], c["M"], c["T"], gain=c.get("gain", 1.0))
    return data.mixture_of(c)
