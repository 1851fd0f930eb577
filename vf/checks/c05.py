"""C05: iteration / callback / loss-history protocol, and composition of runs."""

import numpy as np

from .. import grid, mono, zoo
from ..core import rng_of
from . import c25

RULE = (
    "distinct (class, options, history) where history is a sequence of calls (iteration counts, initial call "
    "on/off, recording on/off, number of callbacks): the recorded event log was checked against the protocol, "
    "and split runs were compared with uninterrupted ones"
)
REQUIRED = {"events": 300, "loss-length": 300, "compose": 100, "interrupt": 100, "handover": 50, "reuse": 50, "off": 50, "bare": 50, "assign": 100}

RESTART = ("ISS", "ISS1", "ISS2", "IPA")
PARAMS = (
    "demix_filter", "basis", "activation", "latent", "dual", "auxiliary1", "auxiliary2", "dual1", "dual2",
    "spatial", "diagonalizer",
)  # fmt: skip


def cases(tier, seed):
    reps = 150 if tier == "quick" else 1200
    for i, c in enumerate(grid.sweep("C05", seed, reps, long=0.05, restore=False, align=False)):
        r = rng_of("C05h", seed, i)
        c["gain"] = 1.0
        c["history"] = [[int(r.integers(0, 4)), bool(r.integers(2))] for _ in range(int(r.integers(1, 4)))]
        c["ncb"] = int(r.integers(0, 4))
        c["record"] = bool(r.integers(4))
        c["mode"] = ["protocol", "compose", "handover", "assign"][i % 4] if i % 7 else ["bare", "reuse"][i // 7 % 3 > 0]
        if c["mode"] != "protocol" and r.integers(5) == 0:  # far from the start
            c["history"][0][0] = int(r.integers(6, 13))
        yield c


def can_compose(spec):
    return (
        spec["kw"].get("spatial_algorithm") not in RESTART
        and spec["cls"] != "CACGMM"
    )


def equal_states(rec, a, b, key, label):
    for k in sorted(set(a) | set(b)):
        va, vb = a.get(k), b.get(k)
        ta = va if isinstance(va, tuple) else (va,)
        tb = vb if isinstance(vb, tuple) else (vb,)
        if not isinstance(ta[0], np.ndarray) and not isinstance(tb[0], np.ndarray):
            continue
        if k in ("variance", "output"):  # recomputed on the next iteration or after the call
            continue
        if not rec.check(len(ta) == len(tb), key, "%s %s" % (label, k)):
            continue
        for x, y in zip(ta, tb):
            if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray):
                rec.check(False, key, "%s %s: %s vs %s" % (label, k, type(x), type(y)))
                continue
            if not np.all(np.isfinite(y)):
                rec.skip("non-finite state")
                continue
            rec.close(x, y, key, rtol=1e-8, atol=1e-12, msg="%s: %s differs from one run" % (label, k))


def reuse(c, rec, spec, X, label, record):
    """An object used on a second recording acts like a fresh one given the parameters it holds: nothing else of the
    first recording leaks."""
    q = rng_of("C05r", c["seed"])
    d = dict(c, seed=c["seed"] + 1)
    n0, n1 = int(q.integers(0, 4)), int(q.integers(0, 4))
    tr1, tr2 = zoo.Tracer(), zoo.Tracer()
    if spec["cls"] == "CACGMM":
        return
    with rec.sut(label + " first recording", mono.excuse(spec, tr1.states)):
        m = zoo.build(spec, callbacks=[tr1])
        buf = X.copy()
        m(buf, n_iter=n0)
    given = {k: v for k, v in zoo.snap(m).items() if k in PARAMS and v is not None}
    if not any(isinstance(v, tuple) or X.shape[-1] in v.shape[-1:] for v in given.values()) and q.integers(2):
        d["T"] = c["T"] + int(q.integers(1, 20))
    X2 = zoo.input_for(spec, d)
    if X2.shape == buf.shape and X2.dtype == buf.dtype:  # the caller refills its buffer
        buf[...] = X2
    else:
        buf = X2.copy()
    if "demix_filter" in given and np.max(np.linalg.cond(given["demix_filter"])) > 1e6:
        rec.skip("degenerate state")
        return
    n_loss = len(m.loss) if record else 0
    del tr1.states[:]
    with rec.sut(label + " second recording", mono.excuse(spec, tr1.states)):
        out1 = m(buf, n_iter=n1)
    with rec.sut(label + " fresh object on the second recording", mono.excuse(spec, tr2.states)):
        f = zoo.build(spec, callbacks=[tr2])
        out2 = f(X2, n_iter=n1, **given)
    rec.check(len(tr1.states) == len(tr2.states), "reuse", "%s: %d vs %d events" % (label, len(tr1.states), len(tr2.states)))
    for j, (a, b) in enumerate(zip(tr1.states, tr2.states)):
        if mono.finite_state(b) and mono.ill_conditioned(spec, b):
            rec.skip("degenerate state")
            return
        equal_states(rec, a, b, "reuse", "%s second recording, state %d" % (label, j))
    if record and np.all(np.isfinite(f.loss)):
        rec.close(np.array(m.loss[n_loss:]), np.array(f.loss), "reuse", rtol=1e-8, atol=1e-9, msg=label + " losses")
    if np.all(np.isfinite(out2)):
        rec.close(out1, out2, "reuse", rtol=1e-8, atol=1e-12, msg=label + " output")


def format_change(c, rec, spec, X, label, record):
    """After a recording of another format (channels, bins, frames) an object given all its parameters acts like new."""
    fam = zoo.FAMILY[spec["cls"]]
    q = rng_of("C05f", c["seed"])
    if fam == "cacgmm" or (fam == "mnmf" and spec["kw"].get("n_sources") is None):
        return  # the number of sources is settled by the first recording
    M = [m for m in (2, 3, 4) if m != X.shape[0]][int(q.integers(2))]
    F = X.shape[1] + int(q.integers(0, 3)) if X.ndim == 3 and fam != "ipsdta" else c["F"]
    d = dict(c, M=M, F=F, T=X.shape[-1] + int(q.integers(0, 9)), seed=c["seed"] + 1)
    spec = dict(spec, kw=dict(spec["kw"]))
    if spec["kw"].get("reference_id"):
        spec["kw"]["reference_id"] = int(q.integers(-min(M, X.shape[0]), min(M, X.shape[0])))
    if spec["kw"].get("partitioning"):
        spec["kw"]["n_basis"] = max(spec["kw"]["n_basis"], M + 1)
    if spec["kw"].get("spatial_algorithm") == "IPA" or fam == "mnmf" and q.integers(2):
        d["M"] = X.shape[0]
    X2 = zoo.input_for(spec, d)
    tr0, tr1, tr2 = zoo.Tracer(), zoo.Tracer(), zoo.Tracer()
    with rec.sut(label + " first recording", mono.excuse(spec, tr0.states)):
        m = zoo.build(spec, callbacks=[tr0, tr1])
        m(X, n_iter=int(q.integers(0, 3)))
    init = c25.given(spec, X2, q, every=True)
    del tr0.states[:], tr1.states[:]
    n = int(q.integers(0, 4))
    n_loss = len(m.loss) if record else 0
    cp = lambda v: tuple(a.copy() for a in v) if isinstance(v, tuple) else v.copy()  # noqa: E731
    with rec.sut(label + " recording of another format", mono.excuse(spec, tr1.states)):
        out1 = m(X2, n_iter=n, **{k: cp(v) for k, v in init.items()})
    with rec.sut(label + " fresh object", mono.excuse(spec, tr2.states)):
        f = zoo.build(spec, callbacks=[tr2])
        out2 = f(X2, n_iter=n, **{k: cp(v) for k, v in init.items()})
    for j, (a, b) in enumerate(zip(tr1.states, tr2.states)):
        if mono.finite_state(b) and mono.ill_conditioned(spec, b):
            rec.skip("degenerate state")
            return
        equal_states(rec, a, b, "format", "%s recording of another format, state %d" % (label, j))
    if record and np.all(np.isfinite(f.loss)):
        rec.close(np.array(m.loss[n_loss:]), np.array(f.loss), "format", rtol=1e-8, atol=1e-9, msg=label + " losses")
    if np.all(np.isfinite(out2)):
        rec.close(out1, out2, "format", rtol=1e-8, atol=1e-12, msg=label + " output")


def assign(c, rec, spec, X, label):
    """A callback that assigns other parameters makes the run go on as a fresh object started from those."""
    n0, n1 = sum(n for n, _ in c["history"][:1]), int(c["seed"]) % 3 + 1
    em = spec["cls"] == "CACGMM"
    names = ("mixing", "covariance") if em else PARAMS
    q = rng_of("C05a", c["seed"])
    X1 = zoo.input_for(spec, dict(c, seed=c["seed"] + 1))  # a state unrelated to the run
    trd, tr1, tr2 = zoo.Tracer(), zoo.Tracer(), zoo.Tracer()
    with rec.sut(label + " donor", mono.excuse(spec, trd.states)):
        donor = zoo.build(dict(spec, rng=7), callbacks=[trd])
        donor(X1, n_iter=int(q.integers(1, 3)))
    P = {k: v for k, v in zoo.snap(donor).items() if k in names and v is not None}
    if trd.states and mono.finite_state(trd.states[-1]) and mono.ill_conditioned(spec, trd.states[-1]) or not P:
        rec.skip("degenerate state")
        return
    if not all(np.all(np.isfinite(a)) for v in P.values() for a in (v if isinstance(v, tuple) else (v,))):
        rec.skip("degenerate state")
        return
    steering = "demix_filter" not in P and spec["kw"].get("spatial_algorithm") in RESTART
    if steering:  # the state is the output, not the filter
        P["demix_filter"] = np.linalg.inv(donor_filter(q, X))
    dup = lambda v: tuple(a.copy() for a in v) if isinstance(v, tuple) else v.copy()  # noqa: E731
    events = []

    def at(k):
        def cb(m):
            if len(events) == k:
                for n, v in P.items():
                    if n == "demix_filter" and steering:
                        m.output = (v @ X.transpose(1, 0, 2)).transpose(1, 0, 2)
                    else:
                        setattr(m, n, list(dup(v)) if isinstance(getattr(m, n, None), list) else dup(v))
            events.append(1)

        return cb

    with rec.sut(label + " run with an assignment", mono.excuse(spec, tr1.states)):
        one = zoo.build(spec, callbacks=[at(n0), tr1])
        out1 = one(X, n_iter=n0 + n1)
    del events[:]
    with rec.sut(label + " fresh run from the assigned state", mono.excuse(spec, tr2.states)):
        if em:
            two = zoo.build(spec, callbacks=[at(0), tr2])
            out2 = two(X, n_iter=n1)
        else:
            two = zoo.build(spec, callbacks=[tr2])
            out2 = two(X, n_iter=n1, **{k: dup(v) for k, v in P.items()})
    if any(mono.finite_state(b) and mono.ill_conditioned(spec, b) for b in tr2.states):
        rec.skip("degenerate state")
        return
    if em:
        for t in tr1.states[n0 : n0 + 1] + tr2.states[:1]:
            t.pop("posterior", None)  # of the state before
    for j, (a, b) in enumerate(zip(tr1.states[n0:], tr2.states)):
        equal_states(rec, a, b, "assign", "%s state %d after the assignment" % (label, j))
    if np.all(np.isfinite(out2)):
        rec.close(out1, out2, "assign", rtol=1e-7, atol=1e-12, msg=label + " output")


def donor_filter(q, X):
    M = X.shape[0]
    return np.eye(M) + 0.3 * (q.standard_normal((X.shape[1], M, M)) + 1j * q.standard_normal((X.shape[1], M, M)))


def bare(c, rec, spec, X, label):
    """Without callbacks, and without recording where there is a choice, a run does the same."""
    n = sum(n for n, _ in c["history"]) + 1
    tr = zoo.Tracer()
    with rec.sut(label + " observed run", mono.excuse(spec, tr.states)):
        one = zoo.build(spec, callbacks=[tr])
        out1 = one(X, n_iter=n)
    kw = dict(spec["kw"])
    if "record_loss" in kw:
        kw["record_loss"] = not kw["record_loss"]
    if tr.states and mono.finite_state(tr.states[-1]) and mono.ill_conditioned(spec, tr.states[-1]):
        rec.skip("degenerate state")
        return
    two = zoo.build(dict(spec, kw=kw), callbacks=None)
    with rec.sut(label + " bare run", mono.excuse(spec, _Live(two))):
        out2 = two(X, n_iter=n)
    equal_states(rec, zoo.snap(two), zoo.snap(one), "bare", label + " final state")
    if np.all(np.isfinite(out1)):
        rec.close(out2, out1, "bare", rtol=1e-8, atol=1e-12, msg=label + " output")


class _Live:
    """The current state of a model, as a one-entry trace."""

    def __init__(self, m):
        self.m = m

    def __len__(self):
        return 1 if hasattr(self.m, "input") else 0

    def __getitem__(self, _):
        return zoo.snap(self.m)


class Halt(Exception):
    pass


def interrupted(c, rec, spec, X, label, record, one, out1, tr1, hist):
    """A callback raises at some iteration (a user interrupt): the exception arrives unchanged, nothing else happens, and
    the object goes on from the state of that iteration as if nothing had happened."""
    tr2 = zoo.Tracer()
    k = hist[0]
    halt = Halt("iteration %d" % k) if c["seed"] % 2 else KeyboardInterrupt("iteration %d" % k)

    def breaker(m):
        if len(tr2.states) == k + 1 and not fired:
            fired.append(1)
            raise halt

    fired = []
    caught = None
    with rec.sut(label + " interrupted run", mono.excuse(spec, tr2.states)):
        two = zoo.build(spec, callbacks=[tr2, breaker])
        try:
            two(X, n_iter=sum(hist))
        except (Halt, KeyboardInterrupt) as e:
            caught = e
    if not rec.check(caught is halt, "interrupt", "%s: exception of a callback became %r" % (label, caught)):
        return
    rec.check(len(tr2.states) == k + 1, "interrupt", "%s: %d events before the interrupt at %d" % (label, len(tr2.states), k))
    with rec.sut(label + " resumed run", mono.excuse(spec, tr2.states)):
        out2 = two(X, n_iter=sum(hist) - k, initial_call=False)
    states = tr2.states
    rec.check(len(states) == len(tr1.states), "interrupt", "%s: %d vs %d events" % (label, len(states), len(tr1.states)))
    for j, (a, b) in enumerate(zip(states, tr1.states)):
        equal_states(rec, a, b, "interrupt", "%s state %d" % (label, j))
    if record and np.all(np.isfinite(one.loss)):
        rec.close(np.array(two.loss), np.array(one.loss), "interrupt", rtol=1e-8, atol=1e-9, msg=label + " loss history")
    if np.all(np.isfinite(out1)):
        rec.close(out2, out1, "interrupt", rtol=1e-8, atol=1e-12, msg=label + " output")


def run(c, rec):
    spec = c["spec"]
    X = zoo.input_for(spec, c)
    label = spec["cls"] + "." + mono.algo(spec)
    spec = dict(spec, kw=dict(spec["kw"]))
    can_record = spec["cls"] not in ("MaskingPDSHVA", "MaskingADMMHVA", "HVA")
    record = c["record"] and can_record
    if can_record:
        spec["kw"]["record_loss"] = record
        if not record and c["seed"] % 3 == 0:  # no penalty function: no loss unless asked for
            spec["with_penalty"] = False
            if "BSS" in spec["cls"]:
                del spec["kw"]["record_loss"]
    mode = c["mode"]
    if mode in ("compose", "handover") and not can_compose(spec):
        mode = "reuse" if spec["cls"] != "CACGMM" else "protocol"
    rec.nontrivial(label, mode, c["history"], c["ncb"], record, sorted((k, str(v)) for k, v in spec["kw"].items()))

    if mode == "protocol":
        log = []

        def make(i):
            def cb(m):
                log.append((i, m, None if m.loss is None else len(m.loss)))

            return cb

        cbs = [make(i) for i in range(c["ncb"])]
        if len(cbs) > 1 and c["seed"] % 5 == 0:  # the same callback twice
            cbs[-1] = cbs[0]
        arg = None if not cbs else (cbs[0] if len(cbs) == 1 and c["seed"] % 2 else cbs)
        with rec.sut(label + " construction"):
            m = zoo.build(spec, callbacks=arg)
        excuse = mono.excuse(spec, _Live(m))
        total = 0
        for n, init in c["history"]:
            del log[:]
            with rec.sut(label + " call", excuse):
                if init and c["seed"] % 3 == 0:
                    m(X, n_iter=n)  # the initial call is the default
                else:
                    m(X, n_iter=n, initial_call=init)
            moments = n + (1 if init else 0)
            ids = list(range(c["ncb"]))
            if len(cbs) > 1 and cbs[-1] is cbs[0]:
                ids[-1] = 0
            want = [i for _ in range(moments) for i in ids]
            rec.check(
                [e[0] for e in log] == want, "events",
                lambda: "%s n_iter=%d initial=%s: callbacks %s, expected %s" % (label, n, init, [e[0] for e in log], want),
            )  # fmt: skip
            rec.check(all(e[1] is m for e in log), "events", label + ": callback got another object")
            if record:
                for j, e in enumerate(log):
                    rec.check(
                        e[2] == total + j // c["ncb"] + 1, "loss-length",
                        "%s: %d losses at event %d after %d" % (label, e[2], j, total),
                    )  # fmt: skip
                total += moments
                rec.check(len(m.loss) == total, "loss-length", "%s: %d losses, expected %d" % (label, len(m.loss), total))
            else:
                rec.check(m.loss is None, "off", "%s: loss recorded although off: %r" % (label, m.loss))
        rec.sample({"config": label, "history": c["history"], "events_last_call": [e[0] for e in log]})
        return

    if mode == "assign":
        assign(c, rec, spec, X, label)
        return
    if mode == "bare":
        bare(c, rec, spec, X, label)
        return
    if mode == "reuse":
        reuse(c, rec, spec, X, label, record)
        format_change(c, rec, spec, X, label, record)
        return
    hist = [n for n, _ in c["history"]] + [1]
    tr1, tr2 = zoo.Tracer(), zoo.Tracer()
    with rec.sut(label + " uninterrupted run", mono.excuse(spec, tr1.states)):
        one = zoo.build(spec, callbacks=[tr1])
        out1 = one(X, n_iter=sum(hist))
    if mode == "compose" and c["seed"] % 3 == 0:
        interrupted(c, rec, spec, X, label, record, one, out1, tr1, hist)
        return
    if mode == "compose":
        with rec.sut(label + " split run", mono.excuse(spec, tr2.states)):
            two = zoo.build(spec, callbacks=[tr2])
            for j, n in enumerate(hist):
                out2 = two(X, n_iter=n, initial_call=(j == 0))
        rec.check(len(tr1.states) == len(tr2.states), "compose", "%s: %d vs %d events" % (label, len(tr1.states), len(tr2.states)))
        for j, (a, b) in enumerate(zip(tr2.states, tr1.states)):
            equal_states(rec, a, b, "compose", "%s state %d" % (label, j))
        if record:
            if np.all(np.isfinite(one.loss)):
                rec.close(np.array(two.loss), np.array(one.loss), "compose", rtol=1e-8, atol=1e-9, msg=label + " loss history")
        if np.all(np.isfinite(out1)):
            rec.close(out2, out1, "compose", rtol=1e-8, atol=1e-12, msg=label + " output")
    else:
        n0 = hist[0]
        with rec.sut(label + " first part"):
            src = zoo.build(spec)
            src(X, n_iter=n0)
        given = {k: v for k, v in zoo.snap(src).items() if k in PARAMS and v is not None}
        keep = {k: (tuple(a.copy() for a in v) if isinstance(v, tuple) else v.copy()) for k, v in given.items()}
        with rec.sut(label + " second part from given parameters", mono.excuse(spec, tr2.states)):
            dst = zoo.build(spec, callbacks=[tr2])
            out2 = dst(X, n_iter=sum(hist) - n0, **given)
        for j, (a, b) in enumerate(zip(tr2.states, tr1.states[n0:])):
            equal_states(rec, a, b, "handover", "%s state %d" % (label, j))
        if np.all(np.isfinite(out1)):
            rec.close(out2, out1, "handover", rtol=1e-8, atol=1e-12, msg=label + " output")
        for k, v in given.items():
            for x, y in zip(v if isinstance(v, tuple) else (v,), keep[k] if isinstance(v, tuple) else (keep[k],)):
                rec.check(np.array_equal(x, y), "given-mutated", "%s: given %s was modified" % (label, k))
