"""Runtime-monitoring core: runs workloads ("cases") against the real ssspy code and collects what the
monitors observed.  A case is a JSON-able dict, so every violation can be replayed on its own."""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
from collections import Counter
from contextlib import contextmanager

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEADLINE = {"quick": 420.0, "thorough": 2400.0}


class StopCase(Exception):
    """Abort the current case; what it observed so far is kept."""


class Recorder:
    def __init__(self, case):
        self.case = case
        self.evaluations = 0
        self.signatures = set()
        self.counters = Counter()
        self.skipped = Counter()
        self.violations = []
        self.samples = []
        self.worst = {}

    # -- observations ------------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def skip(self, reason, n=1):
        self.skipped[reason] += n

    def nontrivial(self, *sig):
        self.signatures.add("/".join(str(s) for s in sig))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- oracles ----------------------------------------------------------------------
    def violation(self, key, msg):
        if len(self.violations) < 20:
            self.violations.append({"key": key, "msg": str(msg)[:1500], "case": self.case})

    def check(self, cond, key, msg="", counter=None):
        """One oracle evaluation."""
        self.evaluations += 1
        self.counters[counter or key] += 1
        if not bool(cond):
            self.violation(key, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, actual, expected, key, rtol=1e-7, atol=0.0, msg="", counter=None, scale=None):
        """||actual-expected||_max <= atol + rtol * scale, with scale = max|expected| by default."""
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.shape != e.shape:
            return self.check(
                False, key, "%s shape %s, expected %s" % (msg, a.shape, e.shape), counter
            )
        if a.size == 0:
            return self.check(True, key, counter=counter)
        with np.errstate(all="ignore"):
            fin = np.all(np.isfinite(e))
            if not fin:
                raise AssertionError("oracle value not finite: " + key)
            err = np.max(np.abs(a - e)) if np.all(np.isfinite(a)) else np.inf
            s = float(np.max(np.abs(e))) if scale is None else float(scale)
        lim = atol + rtol * s
        if lim > 0 and np.isfinite(err):
            r = float(err / lim)
            k = counter or key
            if r > self.worst.get(k, -1.0):
                self.worst[k] = r
        return self.check(
            err <= lim,
            key,
            lambda: "%s max error %.6g > limit %.3g (scale %.3g)" % (msg, err, lim, s),
            counter,
        )

    def finite(self, arr, key, msg="", counter=None):
        return self.check(
            np.all(np.isfinite(np.asarray(arr))), key, "%s: not finite" % (msg,), counter
        )

    @contextmanager
    def sut(self, label, excuse=None):
        """Code under test: an exception out of it, on an input the property covers, refutes it.
        `excuse()` tells whether the last observed state was numerically degenerate; only then is a numerical
        failure no refutation."""
        try:
            yield
        except (StopCase, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            if excuse is not None and isinstance(e, np.linalg.LinAlgError) and excuse():
                self.skip("degenerate state (numerical failure)")
                raise StopCase from None
            tb = traceback.extract_tb(e.__traceback__)
            loc = ""
            for fr in reversed(tb):
                if "/ssspy/" in fr.filename:
                    loc = "%s:%s" % (os.path.basename(fr.filename), fr.name)
                    break
            self.violation(
                "exception:%s:%s" % (label, type(e).__name__),
                "%s raised %s: %s (%s)" % (label, type(e).__name__, e, loc),
            )
            raise StopCase from None

    def expect_raise(self, fn, exc, key, msg=""):
        try:
            fn()
        except exc:
            return self.check(True, key)
        except Exception as e:  # noqa: BLE001
            return self.check(False, key, "%s raised %r instead of %r" % (msg, e, exc))
        return self.check(False, key, "%s did not raise %r" % (msg, exc))


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size < 50 else "array%s" % (o.shape,)
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return str(o)


def rng_of(*keys):
    h = hashlib.sha256(repr(keys).encode()).digest()
    return np.random.default_rng(np.frombuffer(h[:16], dtype=np.uint32))


_MOD = None


def _init(modname):
    global _MOD
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    _MOD = importlib.import_module(modname)


def _work(case):
    rec = Recorder(case)
    t0 = time.time()
    err = None
    try:
        _MOD.run(case, rec)
    except StopCase:
        pass
    except (ValueError, IndexError, ArithmeticError, AssertionError, np.linalg.LinAlgError) as e:
        # what the code returned has a shape or content no oracle can be evaluated on; this never
        # happens while the property holds
        rec.violation("unevaluable:" + type(e).__name__, "oracle could not evaluate the observed state: " + traceback.format_exc()[-900:])
    except Exception:  # noqa: BLE001  harness error (sut() turns those of the code into violations)
        err = traceback.format_exc()
    return dict(
        case=case,
        ev=rec.evaluations,
        sig=list(rec.signatures),
        cnt=dict(rec.counters),
        skp=dict(rec.skipped),
        vio=rec.violations,
        smp=[jsonable(s) for s in rec.samples],
        worst=rec.worst,
        err=err,
        t=time.time() - t0,
    )


def load_known():
    """known_findings.txt: 'finding: property=ID key=KEY description' / 'fixed: property=ID COMMIT text'."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:") :].strip().split(None, 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out.append((prop, key, parts[2] if len(parts) > 2 else ""))
    return out


def main(argv, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VF_WORKERS", "0")))
    ap.add_argument("--only", help="substring of the case json (debugging)")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")

    import ssspy

    if not os.path.realpath(ssspy.__file__).startswith(os.path.realpath(repo) + os.sep):
        print("harness error: ssspy imported from %s, not from %s" % (ssspy.__file__, repo))
        return 4

    t0 = time.time()
    modname = "vf.checks." + a.prop.lower()
    mod = importlib.import_module(modname)

    if a.replay:
        cases = [json.load(open(a.replay))["case"]]
    else:
        cases = list(mod.cases(a.tier, a.seed))
        if a.only:
            cases = [c for c in cases if a.only in json.dumps(c)]
        # spread the kinds: a deadline must not starve one of them
        order = np.random.default_rng(12345).permutation(len(cases))
        cases = [cases[i] for i in order]
    planned = len(cases)

    n_workers = a.workers or max(1, min(8, os.cpu_count() or 1, planned))
    ev = 0
    sigs = set()
    cnt = Counter()
    skp = Counter()
    vio = []
    samples = []
    errors = []
    worst = {}
    done = 0
    slow = []
    failfast = bool(os.environ.get("VF_FAILFAST"))  # for mutation campaigns: stop at the first violation
    deadline = t0 + float(os.environ.get("VF_DEADLINE", DEADLINE[a.tier]))

    def absorb(r):
        nonlocal ev, done
        done += 1
        ev += r["ev"]
        sigs.update(r["sig"])
        cnt.update(r["cnt"])
        skp.update(r["skp"])
        vio.extend(r["vio"])
        if r["err"]:
            errors.append((r["case"], r["err"]))
        for k, v in r["worst"].items():
            if v > worst.get(k, (-1, None))[0]:
                worst[k] = (v, r["case"])
        if len(samples) < 4 and r["smp"]:
            samples.append({"case": jsonable(r["case"]), "observed": r["smp"][0]})
        slow.append((r["t"], r["case"]))

    if n_workers == 1 or planned == 1:
        _init(modname)
        for c in cases:
            if time.time() > deadline or (failfast and vio):
                break
            absorb(_work(c))
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(n_workers, _init, (modname,))
        it = pool.imap_unordered(_work, cases)
        while done < planned:
            left = deadline - time.time()
            if left <= 0 or (failfast and vio):
                break
            try:
                absorb(it.next(timeout=max(0.1, left)))
            except StopIteration:
                break
            except mp.TimeoutError:
                break
        pool.terminate()
        pool.join()

    # ---- verdict -------------------------------------------------------------------------
    known = [k for k in load_known() if k[0] == a.prop]
    hit = Counter()
    unlisted = []
    for v in vio:
        m = next((k for k in known if k[1] == v["key"]), None)
        if m:
            hit[m[1]] += 1
        else:
            unlisted.append(v)

    required = dict(getattr(mod, "REQUIRED", {}))
    missing = [] if a.replay else [k for k, n in required.items() if cnt.get(k, 0) < n]

    evid = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": int(ev),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no sample recorded"}],
            "cases_planned": planned,
            "cases_run": done,
            "monitor_hits": {k: int(v) for k, v in sorted(cnt.items())},
            "skipped": {k: int(v) for k, v in sorted(skp.items())},
            "worst_error_over_limit": {k: float("%.3g" % v[0]) for k, v in sorted(worst.items())},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(unlisted),
    }
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        out = os.path.join(HERE, "evidence", a.prop + ".json")
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(jsonable(evid), f, indent=1)
        os.replace(tmp, out)

    print(
        "%s tier=%s seed=%d cases=%d/%d evaluations=%d distinct=%d skipped=%d wall=%.1fs"
        % (
            a.prop,
            a.tier,
            a.seed,
            done,
            planned,
            ev,
            len(sigs),
            sum(skp.values()),
            time.time() - t0,
        )
    )
    if a.v:
        for k, n in sorted(cnt.items()):
            w = worst.get(k)
            print("  %-60s %8d  worst=%s" % (k, n, "%.3g" % w[0] if w else "-"))
        for k, n in sorted(skp.items()):
            print("  skipped %-52s %8d" % (k, n))
        for t, c in sorted(slow, key=lambda x: -x[0])[:5]:
            print("  slow %.2fs %s" % (t, json.dumps(jsonable(c))[:200]))
    for prop, key, desc in known:
        if hit[key] or not a.replay:
            print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (prop, desc, key, hit[key]))

    if unlisted:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        shown = Counter()
        for v in unlisted:
            shown[v["key"]] += 1
            if shown[v["key"]] > 1 or len(shown) > 10:
                continue
            h = hashlib.sha1(json.dumps(jsonable(v), sort_keys=True).encode()).hexdigest()[:10]
            rel = os.path.join("replays", "%s-%s.json" % (a.prop, h))
            with open(os.path.join(HERE, rel), "w") as f:
                json.dump(jsonable(v), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, rel))
            print("  %s: %s" % (v["key"], v["msg"]))
            print("  case %s" % json.dumps(jsonable(v["case"]))[:600])
        for k, n in shown.most_common():
            print("  violations of %s: %d" % (k, n))
        return 1
    if errors:
        print("harness error in %d cases; first:" % len(errors))
        print(json.dumps(jsonable(errors[0][0]))[:600])
        print(errors[0][1])
        return 4
    if missing or ev == 0:
        print("INCONCLUSIVE property=%s monitors not reached: %s" % (a.prop, missing))
        return 3
    return 0
