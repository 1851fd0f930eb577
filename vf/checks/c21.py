"""C21: dataset helpers against a local stand-in for the remote archives."""

import email.message
import io
import os
import shutil
import tempfile
import urllib.request
import urllib.response
import zipfile

import numpy as np

from ..core import rng_of
from .c17 import build as build_wav

RULE = (
    "distinct (cache state, position in the history, tag, sources, reverberation, duration, convolution) whose returned "
    "samples equalled those computed from the stand-in archives"
)
REQUIRED = {"samples": 200, "rate": 200, "repeat": 50, "no second download": 100, "sisec archive": 50, "mird archive": 50, "rejected": 50}
ASSUMPTIONS = [
    "archives are stand-ins with the layout the helpers expect; resampling 48 kHz -> 16 kHz is scipy's polyphase resampler",
    "an interrupted download or conversion is out of scope",
]
TAGS = {"dev1_female3": 3, "dev1_female4": 4}
REVERB = [0.16, 0.36, 0.61]
DEGREES = [30, 345, 0, 60, 315]
CHANNELS = [3, 4, 2, 5]


def cases(tier, seed):
    for r in range(160 if tier == "quick" else 400):
        yield dict(seed=seed * 100000 + r, n=14 if tier == "quick" else 20)


class Server(urllib.request.BaseHandler):
    """Answers every http(s) request from memory and logs it."""

    handler_order = 1

    def __init__(self, files):
        self.files = files
        self.log = []

    def _open(self, req):
        name = os.path.basename(urllib.request.unquote(req.full_url))
        self.log.append(req.full_url)
        if name not in self.files:
            raise OSError("stand-in server has no %s" % req.full_url)
        b = self.files[name]
        h = email.message.Message()
        h["Content-Length"] = str(len(b))
        return urllib.response.addinfourl(io.BytesIO(b), h, req.full_url, 200)

    http_open = https_open = ftp_open = _open


class World:
    def __init__(self, seed):
        from scipy.io import savemat
        from scipy.signal import resample_poly

        r = rng_of("C21w", seed)
        self.src, self.rir, self.files = {}, {}, {}
        T = int(r.integers(800, 4000))
        z = io.BytesIO()
        with zipfile.ZipFile(z, "w") as f:
            for tag, n in TAGS.items():
                f.writestr("%s_inst_matrix.mat" % tag, b"matrix")
                for i in range(n):
                    q = r.integers(-(2**15), 2**15, size=(T, 1))
                    f.writestr("%s_src_%d.wav" % (tag, i + 1), build_wav(q, 16000, 16))
                    self.src[tag, i] = q[:, 0] / 2**15
        self.files["dev1.zip"] = z.getvalue()
        for rv in REVERB:
            L = int(48000 * rv * r.choice([0.02, 0.5, 1.1]))
            z = io.BytesIO()
            with zipfile.ZipFile(z, "w") as f:
                for d in sorted(DEGREES + [15, 90]):
                    h = (r.standard_normal((L, 8)) * np.exp(-np.arange(L) / 300.0)[:, None])
                    b = io.BytesIO()
                    savemat(b, {"impulse_response": h})
                    f.writestr("Impulse_response_Acoustic_Lab_Bar-Ilan_University_(Reverberation_%.3fs)_3-3-3-8-3-3-3_1m_%03d.mat" % (rv, d), b.getvalue())
                    if d in DEGREES:
                        self.rir[rv, d] = resample_poly(h, 16000, 48000, axis=0).T
            self.files["Impulse_response_Acoustic_Lab_Bar-Ilan_University__Reverberation_%.3fs__3-3-3-8-3-3-3.zip" % rv] = z.getvalue()

    def rirs(self, rv, n, i):
        return self.rir[rv, DEGREES[i]][CHANNELS[:n], : int(16000 * rv)]

    def expected(self, tag, n, dur, rv, conv):
        from scipy.signal import fftconvolve

        k = int(16000 * dur)
        out = []
        if not conv:
            A = np.random.default_rng(42).standard_normal((n, n))
        for i in range(n):
            s = self.src[tag, i][:k]
            if conv:
                out.append(np.stack([fftconvolve(s, h)[: len(s)] for h in self.rirs(rv, n, i)]))
            else:
                out.append(A[:, i][:, None] * s)
        return np.stack(out, axis=1)


def request(r):
    tag = str(r.choice(list(TAGS)))
    return dict(
        tag=tag,
        n=int(r.integers(1, TAGS[tag] + 1)),
        dur=float(r.choice([10, 0.02, 0.1, 0.0625, 0.05001])),
        rv=float(r.choice(REVERB)),
        conv=bool(r.integers(2)),
    )


def run(c, rec):
    d = tempfile.mkdtemp(prefix="vf21_")
    cwd = os.getcwd()
    old = urllib.request._opener
    try:
        os.chdir(d)
        w = World(c["seed"])
        srv = Server(w.files)
        op = urllib.request.OpenerDirector()
        op.add_handler(srv)
        urllib.request.install_opener(op)
        history(c, rec, w, srv, d)
    finally:
        urllib.request.install_opener(old)
        os.chdir(cwd)
        shutil.rmtree(d)


def history(c, rec, w, srv, d):
    from ssspy.utils.dataset import download_sample_speech_data as get
    from ssspy.utils.dataset import mird, sisec2010

    r = rng_of("C21", c["seed"])
    state = str(r.choice(["empty", "zips", "same root", "default root"]))
    roots = [os.path.join(d, "s"), os.path.join(d, "m")]
    if state == "same root":
        roots = [os.path.join(d, "x", "y")] * 2
    elif state == "default root":
        roots = [".data/SiSEC2010", ".data/MIRD"]
    if state == "zips":
        for root in roots:
            os.makedirs(root)
            for name, b in w.files.items():
                with open(os.path.join(root, name), "wb") as f:
                    f.write(b)
    asked = {}
    for k in range(c["n"]):
        if asked and r.integers(4) == 0:
            q = asked[list(asked)[int(r.integers(len(asked)))]][0]
        else:
            q = request(r)
        key = str(q)
        kw = dict(n_sources=q["n"], sisec2010_tag=q["tag"], max_duration=q["dur"], conv=q["conv"])
        if q["conv"] or r.integers(2):
            kw["reverb_duration"] = q["rv"]
        if state != "default root":
            kw.update(sisec2010_root=roots[0], mird_root=roots[1])
        for name, default in (("n_sources", 3), ("sisec2010_tag", "dev1_female3"), ("max_duration", 10), ("reverb_duration", 0.16), ("conv", True)):
            if kw.get(name) == default and r.integers(2):
                kw.pop(name)
        what = "request %d %s (%s) after %s" % (k, q, state, [v[0] for v in list(asked.values())[-3:]])
        n0 = len(srv.log)
        with rec.sut("download_sample_speech_data"):
            x, sr = get(**kw)
        want = w.expected(q["tag"], q["n"], q["dur"], q["rv"], q["conv"])
        rec.check(sr == 16000, "rate", "%s: %s" % (what, sr))
        rec.close(x, want, "samples", rtol=1e-9, msg=what)
        if key in asked:
            rec.check(np.array_equal(asked[key][1], x), "repeat", what + ": a repeated request returned different data")
            rec.check(len(srv.log) == n0, "no second download", what + ": fetched again")
        dup = [u for u in set(srv.log) if srv.log.count(u) > 1]
        rec.check(not dup, "no second download", "%s: fetched more than once: %s" % (what, dup))
        if state == "zips":
            rec.check(not srv.log, "no second download", "cached archive was fetched: %s" % srv.log)
        asked.setdefault(key, (q, x.copy()))
        rec.nontrivial(state, min(k, 3), q["tag"], q["n"], q["rv"] if q["conv"] else "-", q["dur"], q["conv"])
        try:
            x[...] = 0  # what a caller does to its copy must not reach the cache
        except ValueError:
            pass
        # the two underlying helpers, possibly for something never requested before
        if r.integers(3) == 0:
            q2 = request(r)
            with rec.sut("sisec2010.download"), np.load(sisec2010.download(root=roots[0], n_sources=q2["n"], tag=q2["tag"])) as z:
                ok = z["sample_rate"].item() == 16000 and z["n_sources"].item() == q2["n"] and all(np.array_equal(z["src_%d" % (i + 1)], w.src[q2["tag"], i]) for i in range(q2["n"]))
            rec.check(ok, "sisec archive", "%s" % q2)
            with rec.sut("mird.download"), np.load(mird.download(root=roots[1], n_sources=q2["n"], reverb_duration=q2["rv"])) as z:
                ok = z["sample_rate"].item() == 16000 and z["n_channels"].item() == q2["n"]
                for i in range(q2["n"]):
                    h, g = z["src_%d" % (i + 1)], w.rirs(q2["rv"], q2["n"], i)
                    ok = ok and h.shape == g.shape and np.allclose(h, g, rtol=1e-6, atol=1e-9)
            rec.check(ok, "mird archive", "%s" % q2)
        if r.integers(4) == 0:
            rec.expect_raise(lambda: get(sisec2010_root=roots[0], mird_root=roots[1], sisec2010_tag="dev1_male3"), AssertionError, "rejected", "unknown tag")
            rec.expect_raise(lambda: get(sisec2010_root=roots[0], mird_root=roots[1], reverb_duration=0.2), AssertionError, "rejected", "unknown reverberation")
            rec.expect_raise(lambda: get(sisec2010_root=roots[0], mird_root=roots[1], sisec2010_tag="dev1_female4", n_sources=5), Exception, "rejected", "too many sources")
            rec.expect_raise(lambda: get(sisec2010_root=roots[0], mird_root=roots[1], sisec2010_tag="dev1_female3", n_sources=4), Exception, "rejected", "no fourth source")
    rec.sample({"state": state, "requests": c["n"], "fetches": len(srv.log)})
