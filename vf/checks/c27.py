"""C27: configurations documented as equivalent separate identically; meaningless ones are refused."""

import functools
import inspect
import warnings

import numpy as np

from ssspy.special.flooring import add_flooring, max_flooring
from ssspy.utils.select_pair import sequential_pair_selector

from .. import grid, mono, zoo
from ..core import rng_of
from .c14 import hva_mask

RULE = (
    "distinct (class, options, relation): the two configurations the documentation calls equivalent were both run and "
    "every observed state, loss and output compared; or a configuration the documentation excludes was tried"
)
REQUIRED = {"alias": 100, "default": 100, "special": 100, "limit": 10, "given": 10, "n_iter": 20, "flooring_fn": 100, "refuse": 60}
ASSUMPTIONS = [
    "documented defaults are taken from the constructor docstrings; is_holonomic of the IVA classes is left out, since "
    "its docstring and its signature disagree",
    "refusal means ValueError, AssertionError, NotImplementedError, TypeError or AttributeError before any result",
]

REFUSAL = (ValueError, AssertionError, NotImplementedError, TypeError, AttributeError, IndexError)
FLOOR = functools.partial(max_flooring, eps=1e-10)

LONG = {"PB": "projection_back", "projection-back": "projection_back", True: "projection_back",
        "MDP": "minimal_distortion_principle", "minimal-distortion-principle": "minimal_distortion_principle"}  # fmt: skip


def defaults(cls):
    """Documented defaults of the optional arguments."""
    fam = zoo.FAMILY[cls]
    d = {"record_loss": True, "callbacks": None}
    if fam != "ica":
        d["reference_id"] = 0
    if cls in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA"):
        del d["record_loss"]
    if fam not in ("ica", "mnmf", "cacgmm"):
        d["scale_restoration"] = True
    if "Grad" in cls:
        d["step_size"] = 0.1
        if fam in ("ica", "fdica"):
            d["is_holonomic"] = False
    if fam in ("fdica", "cacgmm"):
        d["permutation_alignment"] = True
    if fam in ("fdica", "ilrma", "mnmf", "ipsdta", "cacgmm", "hva") or fam == "iva" and cls not in ("PDSIVA", "ADMMIVA"):
        d["flooring_fn"] = FLOOR
    if "Aux" in cls or fam == "ilrma":
        d["spatial_algorithm"] = "IP"
        d["pair_selector"] = None
    if fam == "ilrma":
        d.update(source_algorithm="MM", domain=2, partitioning=False, normalization="power")
    if fam == "mnmf":
        d.update(partitioning=False, n_sources=None, normalization=True)
    if cls == "FastGaussMNMF":
        d.update(diagonalizer_algorithm="IP", pair_selector=None)
    if fam == "cacgmm":
        d.update(n_sources=None, normalization=True)
    if fam == "ipsdta":
        d.update(source_algorithm="MM", spatial_algorithm="VCD", source_normalization=True)
    if cls in ("PDSIVA", "PDSBSS", "MaskingPDSBSS", "MaskingPDSHVA", "HVA"):
        d.update(mu1=1, mu2=1, relaxation=1)
    if cls in ("ADMMIVA", "ADMMBSS", "MaskingADMMBSS", "MaskingADMMHVA"):
        d.update(rho=1, relaxation=1)
    if fam == "hva":
        d.update(attenuation=None, mask_iter=1)
    return d


def needs(spec):
    return {k: spec["kw"][k] for k in ("n_basis", "n_blocks", "dof", "beta") if k in spec["kw"]}


# ---- relations -------------------------------------------------------------------------------------
# each takes (case, spec, rng) and returns None (not applicable) or (makeA, makeB, tolerance[, options])


def maker(spec, **over):
    """over: constructor arguments replaced as they are."""

    def make(cbs):
        s = dict(spec, kw=dict(spec["kw"], **over))
        if "flooring_fn" in over:
            s["floor"] = None
        if "pair_selector" in over:
            s["pair"] = None
        return zoo.build(s, callbacks=cbs)

    return make


def r_algorithm(c, spec, q):
    kw = spec["kw"]
    for k in ("spatial_algorithm", "diagonalizer_algorithm"):
        for a, b in (("IP", "IP1"), ("ISS", "ISS1")):
            if kw.get(k) in (a, b):
                return maker(spec, **{k: a}), maker(spec, **{k: b}), 1e-8


def r_normalization(c, spec, q):
    if zoo.FAMILY[spec["cls"]] == "ilrma" and (spec["kw"]["normalization"] in (True, "power")):
        return maker(spec, normalization=True), maker(spec, normalization="power"), 1e-8
    if spec["cls"] == "FastGaussMNMF" and spec["kw"]["normalization"] is True:
        return maker(spec, normalization=True), maker(spec, normalization="power"), 1e-8


def r_restoration(c, spec, q):
    v = spec["kw"].get("scale_restoration")
    if v in LONG:
        names = [k for k in LONG if LONG[k] == LONG[v] and k != v] + [LONG[v]]
        return maker(spec), maker(spec, scale_restoration=grid.pick(q, names)), 1e-8


def r_reference(c, spec, q):
    if "reference_id" in spec["kw"]:
        i = spec["kw"]["reference_id"] % c["M"]
        return maker(spec, reference_id=i), maker(spec, reference_id=i - c["M"]), 1e-8


def r_floor_form(c, spec, q):
    if "flooring_fn" not in defaults(spec["cls"]):
        return None
    eps = grid.pick(q, [1e-10, 1e-8])
    u = q.integers(3)
    if u == 0:
        return maker(spec, flooring_fn=functools.partial(max_flooring, eps=eps)), maker(spec, flooring_fn=lambda x: np.maximum(x, eps)), 1e-8
    if u == 1:
        return maker(spec, flooring_fn=functools.partial(add_flooring, eps=eps)), maker(spec, flooring_fn=lambda x: x + eps), 1e-8
    return maker(spec, flooring_fn=None), maker(spec, flooring_fn=lambda x: x), 1e-8


def r_pairs(c, spec, q):
    if mono.algo(spec).split("-")[0] not in ("IP2", "ISS2") and spec["kw"].get("diagonalizer_algorithm") != "IP2":
        return None
    u = q.integers(3)
    if u == 0:
        return maker(spec, pair_selector=None), maker(spec, pair_selector=sequential_pair_selector), 1e-8
    base = zoo.pair_fn(grid.pick(q, ["seq", "comb", "rev", "seq2"]))
    if u == 1:
        return maker(spec, pair_selector=base), maker(spec, pair_selector=lambda n: list(base(n))), 1e-8
    return maker(spec, pair_selector=base), maker(spec, pair_selector=lambda n: iter(tuple(base(n)))), 1e-8


def r_sources(c, spec, q):
    if spec["cls"] in ("GaussMNMF", "FastGaussMNMF", "CACGMM"):
        return maker(spec, n_sources=None), maker(spec, n_sources=c["M"]), 1e-8


def r_attenuation(c, spec, q):
    if zoo.FAMILY[spec["cls"]] == "hva":
        return maker(spec, attenuation=None), maker(spec, attenuation=1 / c["M"]), 1e-8


def r_record(c, spec, q):
    if spec["cls"] in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA"):
        return None
    return maker(spec, record_loss=True), maker(spec, record_loss=False), 1e-8, {"loss": False}


def r_deprecated(c, spec, q):
    if "relaxation" in spec["kw"]:
        a = spec["kw"]["relaxation"]

        def old(cbs):
            s = dict(spec, kw={k: v for k, v in spec["kw"].items() if k != "relaxation"})
            s["kw"]["alpha"] = a
            return zoo.build(s, callbacks=cbs)

        return old, maker(spec), 1e-8


def r_ipa_defaults(c, spec, q):
    if spec["kw"].get("spatial_algorithm") == "IPA":
        s = dict(spec, kw={k: v for k, v in spec["kw"].items() if k not in ("newton_iter", "lqpqm_normalization")})
        return maker(s), maker(s, newton_iter=1, lqpqm_normalization=True), 1e-8


def r_no_reference(c, spec, q):
    if zoo.FAMILY[spec["cls"]] == "ilrma" and not spec["kw"].get("partitioning"):
        s = dict(spec, kw=dict(spec["kw"], normalization="projection_back", scale_restoration=False))
        return maker(s, reference_id=None), maker(s, reference_id=0), 1e-8


ALIAS = [r_no_reference, r_algorithm, r_normalization, r_restoration, r_reference, r_floor_form, r_pairs, r_sources, r_attenuation, r_record,
         r_deprecated, r_ipa_defaults]  # fmt: skip


def r_defaults(c, spec, q):
    """Some documented defaults left out on one side, spelled out on the other."""
    cls = spec["cls"]
    d = defaults(cls)
    keys = [k for k in sorted(d) if q.integers(2)] or sorted(d)[:1]
    kw = {k: v for k, v in spec["kw"].items() if k not in keys}
    if kw.get("partitioning", "partitioning" in keys and False) is False and "n_basis" in kw:
        pass
    if kw.get("source_algorithm") == "ME":
        kw["domain"] = 2
    if kw.get("partitioning") and kw.get("normalization") == "projection_back":
        kw["normalization"] = "power"
    if kw.get("spatial_algorithm") != "IPA":
        kw.pop("newton_iter", None), kw.pop("lqpqm_normalization", None)
    s = dict(spec, kw=kw)
    if "flooring_fn" in keys:
        s["floor"] = None
    if "pair_selector" in keys:
        s["pair"] = None

    def spelled(cbs):
        over = {k: d[k] for k in keys if k != "callbacks"}
        return zoo.build(dict(s, kw=dict(kw, **over)), callbacks=cbs)

    return maker(s), spelled, 1e-8, {"detail": keys}


# special classes ------------------------------------------------------------------------------------
def r_laplace(c, spec, q):
    cls = spec["cls"]
    if "Laplace" not in cls:
        return None
    base = cls.replace("Laplace", "")
    fam = zoo.FAMILY[cls]
    kw = dict(spec["kw"])
    has, fl = zoo.flooring(spec)
    if has:
        kw["flooring_fn"] = fl
    if zoo.pair_fn(spec.get("pair")) is not None:
        kw["pair_selector"] = zoo.pair_fn(spec["pair"])
    if fam == "ica":
        kw["contrast_fn"] = np.abs
        kw["score_fn"] = np.sign
    elif fam == "fdica":
        kw["contrast_fn"] = lambda y: 2 * np.abs(y)
        if "Aux" in cls:
            kw["d_contrast_fn"] = lambda r: 2 * np.ones_like(r)
        else:
            kw["score_fn"] = lambda y: y / np.maximum(np.abs(y), 1e-10)
    else:
        kw["contrast_fn"] = lambda y: 2 * np.linalg.norm(y, axis=1)
        if "Aux" in cls:
            kw["d_contrast_fn"] = lambda r: 2 * np.ones_like(r)
        else:
            kw["score_fn"] = lambda y: y / np.maximum(np.linalg.norm(y, axis=1, keepdims=True), 1e-10)

    def general(cbs):
        return zoo.get_class(base)(**dict(kw, callbacks=cbs))

    floor_exact = "Grad" not in cls or fam == "ica" or not spec.get("floor")
    return maker(spec), general, 1e-6 if floor_exact else 1e-5


def r_proximal(c, spec, q):
    cls = spec["cls"]
    if cls in ("PDSIVA", "ADMMIVA"):
        base = cls.replace("IVA", "BSS")
        pen = (spec.get("penalty") or ["l21"])[0]
        if not spec.get("penalty"):
            spec = dict(spec, penalty=["l21"])  # the harness passes contrast and prox explicitly

        def general(cbs):
            kw = dict(spec["kw"], callbacks=cbs)
            w = 0.5 if pen == "half_l21" else 1.0
            kw["penalty_fn"] = lambda y: np.sum(np.mean(w * np.linalg.norm(y, axis=1), axis=1), axis=0)
            kw["prox_penalty"] = zoo.penalty(pen)[1]
            kw.setdefault("record_loss", True)
            return zoo.get_class(base)(**kw)

        return maker(spec), general, 1e-6, {"loss": False}
    if cls == "HVA":
        return maker(spec), maker(dict(spec, cls="MaskingPDSHVA")), 1e-8
    if cls in ("MaskingPDSHVA", "MaskingADMMHVA"):
        fl = zoo.floor_fn(spec)
        base = cls.replace("HVA", "BSS")

        def general(cbs):
            kw = {k: v for k, v in spec["kw"].items() if k not in ("attenuation", "mask_iter")}
            kw["mask_fn"] = lambda y: hva_mask(y, spec["kw"], fl)
            return zoo.get_class(base)(**dict(kw, callbacks=cbs))

        return maker(spec), general, 1e-6
    if cls in ("PDSBSS", "ADMMBSS") and len(spec.get("penalty", ["l21"])) == 1:
        pf, pp = zoo.penalty(spec.get("penalty", ["l21"])[0])

        def listed(cbs):
            return zoo.get_class(cls)(**dict(spec["kw"], penalty_fn=[pf], prox_penalty=[pp], callbacks=cbs))

        return maker(spec), listed, 1e-8, {"keys": ("demix_filter",)}
    if cls in ("PDSBSS", "ADMMBSS") and len(spec["penalty"]) > 1:
        # the order of the penalties is irrelevant
        return maker(spec), maker(dict(spec, penalty=spec["penalty"][::-1])), 1e-7, {"keys": ("demix_filter",)}


def r_single_bin(c, spec, q):
    """With a single frequency bin the vector of a source is its bin: IVA and FDICA coincide."""
    cls = spec["cls"]
    if zoo.FAMILY[cls] != "fdica":
        return None
    iva = cls.replace("FDICA", "IVA")
    kw = {k: v for k, v in spec["kw"].items() if k != "permutation_alignment"}
    kw.setdefault("is_holonomic", False)
    if "Grad" not in cls:
        kw.pop("is_holonomic")
    if spec.get("contrast") == "student":
        spec = dict(spec, contrast="smooth")
    a = dict(spec, kw=dict(spec["kw"], permutation_alignment=False))
    return maker(a), maker(dict(spec, cls=iva, kw=kw)), 1e-6 if "Grad" not in cls or "Laplace" not in cls else 1e-5, {"F": 1}


SPECIAL = [r_laplace, r_proximal, r_single_bin]


# limits ---------------------------------------------------------------------------------------------
def r_limit(c, spec, q):
    cls = spec["cls"]
    if cls in ("TILRMA", "GGDILRMA", "TIPSDTA"):
        k = "beta" if cls == "GGDILRMA" else "dof"
        kw = {a: b for a, b in spec["kw"].items() if a != k}
        base = "GaussIPSDTA" if cls == "TIPSDTA" else "GaussILRMA"
        v = 2 - 1e-10 if k == "beta" else 1e15
        return maker(dict(spec, kw=dict(kw, **{k: v}))), maker(dict(spec, cls=base, kw=kw)), 1e-3 if cls == "TIPSDTA" else 1e-5, {"loss": k == "beta", "n_iter": 3}


def r_partition(c, spec, q):
    """A latent variable that assigns every basis to one source is the unpartitioned model."""
    cls = spec["cls"]
    kw = spec["kw"]
    if zoo.FAMILY[cls] != "ilrma" or kw["domain"] != 2:
        return None
    K = int(q.integers(1, 4))
    M, F, T = c["M"], c["F"], c["T"]
    basis = q.uniform(0.1, 1, size=(M, F, K))
    act = q.uniform(0.1, 1, size=(M, K, T))
    latent = np.repeat(np.eye(M), K, axis=1)
    base = {k: v for k, v in kw.items() if k not in ("partitioning", "n_basis", "normalization")}
    base["normalization"] = False
    spec = dict(spec, floor="max:1e-12")
    a = maker(dict(spec, kw=dict(base, partitioning=False, n_basis=K)))
    b = maker(dict(spec, kw=dict(base, partitioning=True, n_basis=M * K)))
    return a, b, 1e-4, {
        "callA": {"basis": basis, "activation": act},
        "callB": {"basis": np.concatenate(list(basis), axis=1), "activation": np.concatenate(list(act), axis=0), "latent": latent},
        "keys": ("demix_filter",), "n_iter": 3,
    }  # fmt: skip


def r_pairwise_optimum(c, spec, q):
    """Two sources: IP2 and ISS2 both jump to the joint optimum of the pair, so the objective agrees."""
    if spec["cls"] in ("AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA") and spec["kw"].get("spatial_algorithm") in ("IP2", "ISS2"):
        s = dict(spec, pair="last")
        return (
            maker(s, spatial_algorithm="IP2"), maker(s, spatial_algorithm="ISS2"), 1e-6,
            {"M": 2, "keys": (), "output": s["kw"].get("scale_restoration") is not False},
        )  # fmt: skip


LIMIT = [r_limit, r_partition, r_pairwise_optimum]


def r_aux_names(c, spec, q):
    if "ADMM" not in spec["cls"] or c["it"] < 1:
        return None
    X = zoo.input_for(spec, c)
    m = zoo.build(dict(spec, kw=dict(spec["kw"], scale_restoration=False)))
    m(X, n_iter=3)
    g = {k: np.array(getattr(m, k)) for k in ("auxiliary1", "auxiliary2")}
    return maker(spec), maker(spec), 1e-8, {"callA": g, "callB": {"aux1": g["auxiliary1"], "aux2": g["auxiliary2"]}}


def r_layout(c, spec, q):
    return maker(spec), maker(spec), 1e-6, {"layout": int(q.integers(4)), "n_iter": 3}


def r_restart_given(c, spec, q):
    """Passing the documented initial filter explicitly changes nothing."""
    if zoo.FAMILY[spec["cls"]] in ("mnmf", "cacgmm"):
        return None
    if not zoo.uses_filter(spec):
        return None
    M, F = c["M"], c["F"]
    W = np.eye(M) if zoo.FAMILY[spec["cls"]] == "ica" else np.tile(np.eye(M, dtype=np.complex128), (F, 1, 1))
    if "ADMM" in spec["cls"] or "PDS" in spec["cls"] or spec["cls"] == "HVA":
        return None
    if spec["cls"] in ("FastICA",):
        return None
    return maker(spec), maker(spec), 1e-8, {"callB": {"demix_filter": W}}


GIVEN = [r_aux_names, r_layout, r_restart_given]

GROUPS = {"alias": ALIAS, "default": [r_defaults], "special": SPECIAL, "limit": LIMIT, "given": GIVEN}


def cases(tier, seed):
    reps = 60 if tier == "quick" else 160
    for i, c in enumerate(grid.sweep("C27", seed, reps)):
        c["mode"] = "equal"
        yield c
    for c in grid.sweep("C27f", seed, 4 if tier == "quick" else 30):
        if "flooring_fn" in defaults(c["spec"]["cls"]):
            c["mode"] = "flooring"
            yield c
    for j in range(1 if tier == "quick" else 4):
        seen = set()
        for c in grid.sweep("C27n", seed, 4 + j, restore=False, align=False):
            if c["spec"]["cls"] not in seen and (c["spec"]["cls"], c["spec"]["kw"].get("spatial_algorithm")) not in seen:
                seen.add(c["spec"]["cls"])
                c.update(mode="n_iter", M=2, F=min(c["F"], 5), T=60, gain=0.05 if "Grad" in c["spec"]["cls"] else 1.0)
                if "n_blocks" in c["spec"]["kw"]:
                    c["spec"]["kw"]["n_blocks"] = c["F"]
                if "reference_id" in c["spec"]["kw"]:
                    c["spec"]["kw"]["reference_id"] = 0
                yield c
    for name in sorted(REFUSE):
        yield dict(mode="refuse", name=name, seed=seed)


def layout(X, kind):
    if kind == 0:
        return np.asfortranarray(X)
    if kind == 1:
        big = np.zeros(X.shape[:-1] + (2 * X.shape[-1],), X.dtype)
        big[..., ::2] = X
        return big[..., ::2]
    if kind == 2:
        return np.ascontiguousarray(X[..., ::-1])[..., ::-1]
    return np.ascontiguousarray(X.swapaxes(0, -1)).swapaxes(0, -1)


def compare(rec, key, label, a, b, tol, names=None, phase=True):
    for k in sorted(set(a) & set(b)):
        if k in ("variance", "output", "loss"):
            continue
        if names is not None and k not in names:
            continue
        va, vb = a[k], b[k]
        ta, tb = (va if isinstance(va, tuple) else (va,)), (vb if isinstance(vb, tuple) else (vb,))
        for x, y in zip(ta, tb):
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.all(np.isfinite(y)):
                if not phase and k in ("demix_filter", "diagonalizer"):
                    x, y = np.abs(x), np.abs(y)
                rec.close(x, y, key, rtol=tol, atol=1e-12, msg="%s: %s" % (label, k))


def default_iterations(c, rec, spec):
    """Called with the recording only, a method runs 100 iterations after the initial callback."""
    X = zoo.input_for(spec, c)
    last = []
    events = [0]

    def cb(m):
        events[0] += 1
        last[:] = [zoo.snap(m)]

    label = spec["cls"] + "." + mono.algo(spec)
    with np.errstate(all="ignore"):
        with rec.sut(label + " default call", mono.excuse(spec, last)):
            zoo.build(spec, callbacks=cb)(X)
    rec.check(events[0] == 101, "n_iter", "%s: %d callback events in a default call, documented 1 + 100" % (label, events[0]))
    rec.nontrivial("n_iter", label)


def flooring_argument(c, rec, spec):
    """update_*(flooring_fn=f) acts as the same update of an object configured with f ('self')."""
    q = rng_of("C27f", c["seed"])
    X = zoo.input_for(spec, c)
    X = X / np.sqrt(np.mean(np.abs(X) ** 2))
    form, eps = grid.pick(q, ["max", "add"]), float(10 ** q.uniform(-4, -0.5))
    f = functools.partial({"max": max_flooring, "add": add_flooring}[form], eps=eps)
    other = grid.pick(q, [None, FLOOR])
    label = spec["cls"] + "." + mono.algo(spec)
    s = dict(spec, kw=dict(spec["kw"], scale_restoration=False), floor=None) if "scale_restoration" in spec["kw"] else dict(spec, floor=None)
    n = int(q.integers(0, 3))
    names = [
        k for k in sorted(dir(zoo.get_class(spec["cls"])))
        if (k.startswith("update_") or k.startswith("normalize")) and callable(getattr(zoo.get_class(spec["cls"]), k))
        and "flooring_fn" in inspect.signature(getattr(zoo.get_class(spec["cls"]), k)).parameters
    ]  # fmt: skip
    for name in names:
        if spec["cls"] == "AuxGaussIVA" and name == "update_once":
            continue  # its source-model update takes no flooring argument: the variance is floored by the object's own
        ms = []
        for own in (f, other):
            with rec.sut(label + " preparation"):
                m = zoo.build(dict(s, kw=dict(s["kw"], flooring_fn=FLOOR)))
                m(X, n_iter=n)
            m.flooring_fn = own if own is not None else (lambda x: x)
            ms.append(m)
        a, b = ms
        with np.errstate(all="ignore"):
            try:
                getattr(a, name)()
            except Exception:  # noqa: BLE001 - an update of another algorithm than the configured one
                continue
            with rec.sut("%s.%s(flooring_fn=f)" % (label, name)):
                getattr(b, name)(flooring_fn=f)
        sa, sb = zoo.snap(a), zoo.snap(b)
        if not mono.finite_state(sb) or mono.ill_conditioned(spec, sb):
            rec.skip("degenerate state")
            continue
        phase = mono.algo(spec).split("-")[0] not in ("IP2", "ISS2") and not name.endswith("2")
        if not phase and "output" in sa:
            sa.pop("output")
        compare(rec, "flooring_fn", "%s.%s" % (label, name), sa, sb, 1e-6, None, phase)
        rec.count("flooring:" + name)
    rec.nontrivial("flooring", label, form, n)


def run(c, rec):
    warnings.simplefilter("ignore")
    if c["mode"] == "refuse":
        REFUSE[c["name"]](rec, c)
        return
    spec = c["spec"]
    if c["mode"] == "n_iter":
        default_iterations(c, rec, spec)
        return
    if c["mode"] == "flooring":
        flooring_argument(c, rec, spec)
        return
    q = rng_of("C27", c["seed"])
    todo = []
    for f in SPECIAL:  # what the specialized classes stand for: always, in the case's own configuration
        got = f(dict(c), spec, q)
        if got is not None:
            todo.append(("special", f.__name__, got))
    for _ in range(2):
        group = grid.pick(q, ["alias", "alias", "default", "limit", "given"])
        rels = GROUPS[group]
        got = None
        for i in q.permutation(len(rels)):
            got = rels[i](dict(c), spec, q)
            if got is not None:
                name = rels[i].__name__
                break
        if got is None:
            group, name, got = "default", "r_defaults", r_defaults(c, spec, q)
        if name not in [t[1] for t in todo]:
            todo.append((group, name, got))
    for group, name, got in todo:
        relate(c, rec, dict(spec, kw=dict(spec["kw"])), group, name, got)


def relate(c, rec, spec, group, name, got):
    A, B, tol = got[:3]
    opt = got[3] if len(got) > 3 else {}
    d = dict(c)
    for k in ("F", "M"):
        if k in opt:
            d[k] = opt[k]
    n = min(c["it"], opt.get("n_iter", 8))
    if "M" in opt and zoo.FAMILY[spec["cls"]] != "ica":
        ref = spec["kw"].get("reference_id", 0)
        if not -2 <= ref <= 1:
            n = None
    if n is None:
        rec.skip("reference channel does not exist")
        return
    if "ADMM" in spec["cls"] and n == 1:
        n = 3
    if "Grad" in spec["cls"] and "step_size" not in spec["kw"]:
        d["gain"] = 0.05
    if group == "limit":
        d["gain"] = min(max(d["gain"], 0.05), 20.0)
    X = zoo.input_for(spec, d)
    X2 = layout(X, opt["layout"]) if "layout" in opt else X
    label = "%s.%s %s%s" % (spec["cls"], mono.algo(spec), name[2:], opt.get("detail", ""))
    # the phase a pairwise update gives a filter row is arbitrary
    phase = mono.algo(spec).split("-")[0] not in ("IP2", "ISS2")
    ta, tb = zoo.Tracer(), zoo.Tracer()
    with np.errstate(all="ignore"):
        with rec.sut(label + " [first form]", mono.excuse(spec, ta.states)):
            a = A([ta])
            outa = a(X, n_iter=n, **opt.get("callA", {}))
        with rec.sut(label + " [second form]", mono.excuse(spec, tb.states)):
            b = B([tb])
            outb = b(X2, n_iter=n, **opt.get("callB", {}))
    rec.nontrivial(label, X.shape, n, sorted((k, str(v)) for k, v in spec["kw"].items()))
    rec.check(len(ta.states) == len(tb.states), group, "%s: %d vs %d states" % (label, len(ta.states), len(tb.states)))
    for j, (s, t) in enumerate(zip(ta.states, tb.states)):
        if not mono.finite_state(t) or mono.ill_conditioned(spec, t):
            rec.skip("degenerate state")
            return
        compare(rec, group, "%s state %d" % (label, j), s, t, tol, opt.get("keys"), phase)
        rec.count("states:" + name)
    if opt.get("loss", True) and a.loss is not None and b.loss is not None:
        la, lb = np.array(a.loss, float), np.array(b.loss, float)
        if np.all(np.isfinite(lb)):
            rec.close(la, lb, group, rtol=tol, atol=tol, msg=label + " losses")
    if not phase and zoo.FAMILY[spec["cls"]] != "mnmf" and (not spec["kw"].get("scale_restoration")):
        outa, outb = np.abs(outa), np.abs(outb)
    if opt.get("output", True) and np.all(np.isfinite(outb)):
        rec.close(outa, outb, group, rtol=max(tol, 1e-8), atol=1e-12, msg=label + " output")
    rec.sample({"relation": label, "states": len(ta.states), "n_iter": n})


# ---- refusals --------------------------------------------------------------------------------------
REFUSE = {}


def refuse(name, build, n_iter=1, M=2, F=5, T=40, real=False, data=None):
    def go(rec, c):
        q = rng_of("C27r", name, c["seed"])
        X = q.normal(size=(M, T)) if real else q.normal(size=(M, F, T)) + 1j * q.normal(size=(M, F, T))

        def attempt():
            m = build()
            m(X, n_iter=n_iter)

        with np.errstate(all="ignore"):
            rec.expect_raise(attempt, REFUSAL, "refuse", name)
        rec.nontrivial("refuse", name)

    REFUSE[name] = go


def _table():
    sp = lambda cls, **kw: (lambda: zoo.build(dict(cls=cls, kw=kw)))  # noqa: E731
    raw = lambda cls, **kw: (lambda: zoo.get_class(cls)(**kw))  # noqa: E731
    nb = dict(n_basis=2)
    extra = {"TILRMA": dict(dof=5), "GGDILRMA": dict(beta=1.5)}
    for cls in ("AuxFDICA", "AuxLaplaceFDICA"):
        for bad in ("ISS", "ISS1", "ISS2", "IPA", "ip", "unknown"):
            refuse("%s spatial_algorithm=%s" % (cls, bad), sp(cls, spatial_algorithm=bad))
    for cls in ("AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA"):
        for bad in ("IP3", "iss", "VCD", None):
            refuse("%s spatial_algorithm=%s" % (cls, bad), sp(cls, spatial_algorithm=bad))
        refuse("%s unknown keyword" % cls, sp(cls, newton_iterations=3))
        refuse("%s IPA unknown keyword" % cls, sp(cls, spatial_algorithm="IPA", newton_iterations=3))
        for alg in ("IP", "ISS", "IP2"):
            refuse("%s %s with IPA keyword" % (cls, alg), sp(cls, spatial_algorithm=alg, newton_iter=3))
    for cls in ("GaussILRMA", "TILRMA", "GGDILRMA"):
        e = dict(nb, **extra.get(cls, {}))
        for bad in ("IP3", "VCD", None):
            refuse("%s spatial_algorithm=%s" % (cls, bad), sp(cls, spatial_algorithm=bad, **e))
        for bad in ("EM", "mm", None):
            refuse("%s source_algorithm=%s" % (cls, bad), sp(cls, source_algorithm=bad, **e))
        for bad in (0, -1, 2.5, 3):
            refuse("%s domain=%s" % (cls, bad), sp(cls, domain=bad, **e))
        for dom in (1, 1.5, 0.5):
            refuse("%s ME domain=%s" % (cls, dom), sp(cls, source_algorithm="ME", domain=dom, **e))
        refuse("%s normalization unknown" % cls, sp(cls, normalization="trace", **e))
        refuse("%s missing n_basis" % cls, sp(cls, **extra.get(cls, {})))
        if cls != "GaussILRMA":
            refuse("%s IPA" % cls, sp(cls, spatial_algorithm="IPA", **e))
            refuse("%s missing shape parameter" % cls, sp(cls, **nb))
        else:
            refuse("%s with IPA keyword" % cls, sp(cls, newton_iter=2, **e))
            refuse("%s unknown keyword" % cls, sp(cls, spatial_algorithm="IPA", newton=2, **e))
    for bad in (0, -0.5, 2, 2.5):
        refuse("GGDILRMA beta=%s" % bad, sp("GGDILRMA", n_basis=2, beta=bad))
    refuse("GGDILRMA ME", sp("GGDILRMA", n_basis=2, beta=1, source_algorithm="ME"))
    refuse("FastGaussMNMF partitioning", sp("FastGaussMNMF", n_basis=4, partitioning=True))
    for bad in ("ISS", "IP3", "IPA"):
        refuse("FastGaussMNMF diagonalizer_algorithm=%s" % bad, sp("FastGaussMNMF", n_basis=2, diagonalizer_algorithm=bad))
    refuse("FastGaussMNMF normalization unknown", sp("FastGaussMNMF", n_basis=2, normalization="projection_back"))
    for cls, e in (("GaussIPSDTA", {}), ("TIPSDTA", dict(dof=5))):
        e = dict(e, n_basis=2, n_blocks=2)
        for bad in ("IP", "ISS", "unknown"):
            refuse("%s spatial_algorithm=%s" % (cls, bad), sp(cls, spatial_algorithm=bad, **e))
        for bad in ("ME", "EM"):
            refuse("%s source_algorithm=%s" % (cls, bad), sp(cls, source_algorithm=bad, **e))
        refuse("%s FPI" % cls, sp(cls, spatial_algorithm="FPI", **e))
    refuse("CACGMM unknown keyword", sp("CACGMM", unknown=1))
    refuse("CACGMM permutation unknown", sp("CACGMM", permutation_alignment="unknown"))
    for cls in ("GradFDICA", "NaturalGradFDICA", "AuxFDICA", "AuxLaplaceFDICA"):
        refuse("%s permutation unknown" % cls, sp(cls, permutation_alignment="unknown"))
    need = {"GaussILRMA": nb, "TILRMA": dict(nb, dof=5), "GGDILRMA": dict(nb, beta=1.5),
            "GaussIPSDTA": dict(nb, n_blocks=2), "TIPSDTA": dict(nb, n_blocks=2, dof=5)}  # fmt: skip
    for cls in grid.CLASSES:
        if zoo.FAMILY[cls] in ("ica", "mnmf", "cacgmm"):
            continue
        e = need.get(cls, {})
        refuse("%s restoration without reference" % cls, sp(cls, scale_restoration=True, reference_id=None, **e))
        refuse("%s unknown restoration" % cls, sp(cls, scale_restoration="unknown", **e), n_iter=2)
    ident = lambda y, step_size=1: y  # noqa: E731
    one = lambda y: np.sum(np.abs(y))  # noqa: E731
    for cls in ("PDSBSS", "ADMMBSS"):
        refuse("%s without prox" % cls, raw(cls, penalty_fn=one))
        refuse("%s record_loss without penalty" % cls, raw(cls, prox_penalty=ident, record_loss=True))
        refuse("%s penalty and prox of different number" % cls, raw(cls, penalty_fn=[one, one], prox_penalty=[ident]))
        refuse("%s alpha and relaxation" % cls, raw(cls, penalty_fn=one, prox_penalty=ident, alpha=1.2, relaxation=1.5))
    for cls in ("MaskingPDSBSS", "MaskingADMMBSS"):
        refuse("%s without mask" % cls, raw(cls))
        refuse("%s uncallable mask" % cls, raw(cls, mask_fn=3.0))
        refuse("%s record_loss without penalty" % cls, raw(cls, mask_fn=np.abs, record_loss=True))
        refuse("%s alpha and relaxation" % cls, raw(cls, mask_fn=np.ones_like, alpha=1.2, relaxation=1.5))
    for cls in ("PDSIVA", "ADMMIVA"):
        refuse("%s without prox" % cls, raw(cls, contrast_fn=one))
        refuse("%s without contrast" % cls, raw(cls, prox_penalty=ident))
    for cls in ("GradICA", "NaturalGradICA"):
        refuse("%s without contrast" % cls, raw(cls, score_fn=np.tanh), real=True)
        refuse("%s without score" % cls, raw(cls, contrast_fn=np.abs), real=True)
    refuse("FastICA without d_score", raw("FastICA", contrast_fn=np.abs, score_fn=np.tanh), real=True)
    for cls in ("GradFDICA", "NaturalGradFDICA", "GradIVA", "NaturalGradIVA"):
        refuse("%s without contrast" % cls, raw(cls, score_fn=lambda y: y))
        refuse("%s without score" % cls, raw(cls, contrast_fn=np.abs))
    refuse("AuxFDICA without contrast", raw("AuxFDICA", d_contrast_fn=np.ones_like))
    refuse("FastIVA without second derivative", raw("FastIVA", contrast_fn=np.abs, d_contrast_fn=np.ones_like))
    refuse("FasterIVA without derivative", raw("FasterIVA", contrast_fn=np.abs))
    for cls in ("AuxLaplaceIVA", "GradLaplaceFDICA"):
        refuse("%s uncallable flooring" % cls, sp(cls, flooring_fn=1e-10))


_table()
