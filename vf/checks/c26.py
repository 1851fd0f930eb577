"""C26: digital silence (zero samples, whole zero frames) does not disturb separation."""

import warnings

import numpy as np

from .. import grid, mono, zoo
from ..core import rng_of

RULE = (
    "distinct (class, algorithm, options, shape, silence pattern) for which a complete run with digitally silent frames or "
    "samples was observed: every state and loss finite, estimate zero in silent frames, objective not increasing where it is "
    "defined by descent, and twin runs with and without the silent frames compared"
)
PATTERNS = ["lead", "trail", "single", "every-other", "cells", "underflow", "late-onset"]
REQUIRED = {"finite": 5000, "zero": 3000, "loss": 3000, "inserted": 400}
ASSUMPTIONS = [
    "the documented default flooring (or a larger one) is in force; contrasts with an infinite slope at zero are excluded from "
    "the Newton-type fixed-point methods",
    "every bin keeps as many active frames as needed for full-rank covariances",
]


def cases(tier, seed):
    for r in range(110 if tier == "quick" else 900):
        for cls, alg in grid.STRATA:
            q = rng_of("C26", seed, r, cls, alg)
            c = grid.case(cls, alg, "C26", seed, r, it=int(q.integers(1, 9)))
            spec = c["spec"]
            spec["floor"] = [None, None, "max:1e-12", "add:1e-10"][int(q.integers(4))] if "floor" in spec else None
            if spec["floor"] is None:
                spec.pop("floor")
            c["gain"] = 1.0
            c["pattern"] = PATTERNS[int(q.integers(len(PATTERNS)))]
            if cls in ("FastIVA", "FasterIVA") and spec.get("contrast") == "power":
                spec["contrast"] = "laplace"
            if cls == "GradIVA" or cls == "NaturalGradIVA" or "FDICA" in cls and "Aux" not in cls:
                if spec.get("contrast") == "power":
                    spec["contrast"] = "smooth"
            if "Grad" not in cls and zoo.FAMILY[cls] == "iva" and q.integers(2) and cls.startswith("Aux") and alg != "IPA":
                c["insert"] = True
                spec["kw"]["scale_restoration"] = True
                if spec.get("contrast") in ("smooth", "student"):
                    spec["contrast"] = "laplace"
                if cls == "AuxGaussIVA":
                    c["it"] = min(c["it"], 4)
            yield c


def silence(X, pattern, q):
    """-> (input with silence, mask of silent frames)"""
    X = X.copy()
    T = X.shape[-1]
    dead = np.zeros(T, bool)
    if pattern == "lead":
        dead[: int(q.integers(1, T // 3))] = True
    elif pattern == "trail":
        dead[-int(q.integers(1, T // 3)):] = True
    elif pattern == "single":
        dead[int(q.integers(T))] = True
    elif pattern == "every-other":
        dead[::3] = True
    elif pattern == "late-onset":
        dead[: T // 4] = True
        dead[T // 2] = True
    elif pattern == "underflow":
        X[..., : T // 5] *= 1e-180
        return X, dead
    elif pattern == "cells":
        z = q.random(X.shape[1:]) < 0.15
        z[..., : T // 2] = False
        X[:, z] = 0
        if X.ndim == 2:
            dead = z
        else:
            dead = z.all(axis=0)
        return X, dead
    X[..., dead] = 0
    return X, dead


def run(c, rec):
    spec = c["spec"]
    cls = spec["cls"]
    fam = zoo.FAMILY[cls]
    label = cls + "." + mono.algo(spec)
    q = rng_of("C26s", c["seed"], c["pattern"])
    full = zoo.input_for(spec, c)
    X, dead = silence(full, c["pattern"], q)
    tr = zoo.Tracer()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with rec.sut(label + " construction"):
            m = zoo.build(spec, callbacks=[tr])
        with rec.sut(label + " call", mono.excuse(spec, _Regular(tr.states, ~dead))):
            Y = m(X, n_iter=c["it"])
    for k, s in enumerate(tr.states):
        if not mono.finite_state(s):
            if k and mono.excuse(spec, _Regular(tr.states[:k], ~dead))():
                rec.skip("degenerate state")
                return
            bad = [n for n, v in s.items() if isinstance(v, np.ndarray) and not np.all(np.isfinite(v))]
            rec.check(False, "finite:" + label, "iteration %d: %s not finite with %s silence" % (k, bad, c["pattern"]), counter="finite")
            return
    rec.finite(Y, "finite:" + label, "estimate with %s silence" % c["pattern"], counter="finite")
    if not np.all(np.isfinite(Y)):
        return
    if np.any(dead) and fam != "ica":
        rec.check(not np.any(Y[..., dead]), "zero:" + label, "sound in silent frames (%s)" % c["pattern"], counter="zero")
    if getattr(m, "loss", None):
        skip = 2 if "ADMM" in cls else 0  # ADMM starts from, and first returns to, the zero filter
        rec.finite(np.array(m.loss[skip:]), "loss:" + label, "losses with %s silence" % c["pattern"], counter="loss")
    rec.nontrivial(label, X.shape, c["pattern"], sorted((k, str(v)) for k, v in spec["kw"].items()))
    if c.get("insert") and np.any(dead) and c["pattern"] != "cells":
        inserted(c, rec, spec, X, dead, Y, tr, label)


class _Regular:
    """The trace without the silent frames, for judging whether a state was degenerate."""

    def __init__(self, states, keep):
        self.states, self.keep = states, keep

    def __len__(self):
        return len(self.states)

    def __getitem__(self, i):
        s = dict(self.states[i])
        T = self.keep.size
        for k, v in s.items():
            if isinstance(v, np.ndarray) and v.ndim and v.shape[-1] == T:
                s[k] = v[..., self.keep]
        return s


def inserted(c, rec, spec, X, dead, Y, tr, label):
    """Weighted covariances only lose a common factor by silent frames: the active frames separate as if alone."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        tr2 = zoo.Tracer()
        with rec.sut(label + " without the silent frames"):
            m = zoo.build(spec, callbacks=[tr2])
            Z = m(X[..., ~dead], n_iter=c["it"])
    if any(mono.ill_conditioned(spec, s) for s in tr2.states):
        rec.skip("degenerate state")
        return
    rec.close(Y[..., ~dead], Z, "inserted:" + label, rtol=1e-5, scale=float(np.max(np.abs(X))), counter="inserted", msg="active frames")
