"""C17: wav reading and writing against an independent RIFF parser/builder."""

import os
import shutil
import struct
import tempfile
import wave

import numpy as np

from ..core import rng_of

RULE = (
    "distinct (direction, sample format, channels, layout options, segment class, value class) for which every sample, "
    "the sampling rate and every header field agreed with the independent parser"
)
REQUIRED = {"written header": 200, "written samples": 200, "round trip": 200, "read": 500, "segment": 500, "range error": 200, "bad file": 100, "bad argument": 100, "overwrite": 50}
ASSUMPTIONS = ["files live in a scratch directory made and removed by the check", "no pad byte is demanded after an odd-sized last chunk"]
FLOATS = ["f2", "f4", "f8", "g", "<f4", "<f8"]
INTS = ["i1", "i2"]


def cases(tier, seed):
    n = 3000 if tier == "quick" else 20000
    for r in range(n):
        yield dict(op="write", seed=seed * 1000000 + r)
        yield dict(op="read", seed=seed * 1000000 + r)
    for r in range(30 if tier == "quick" else 500):
        yield dict(op="bad", seed=seed * 1000000 + r)


# ---- independent implementation -------------------------------------------------------------
def parse(b):
    """-> dict(rate, channels, bits, align, byte_rate, fmt, q(frames, channels)); asserts structure"""
    assert b[:4] == b"RIFF" and b[8:12] == b"WAVE", "markers"
    assert struct.unpack("<I", b[4:8])[0] == len(b) - 8, "RIFF size %d, file %d" % (struct.unpack("<I", b[4:8])[0], len(b))
    p, out = 12, {}
    while p < len(b):
        cid, n = b[p : p + 4], struct.unpack("<I", b[p + 4 : p + 8])[0]
        body = b[p + 8 : p + 8 + n]
        assert len(body) == n, "chunk %r truncated" % cid
        assert cid not in out, "chunk %r repeated" % cid
        out[cid] = body
        p += 8 + n + (n % 2)
    assert b"fmt " in out and b"data" in out, "chunks %r" % list(out)
    fmt, ch, rate, br, al, bits = struct.unpack("<HHIIHH", out[b"fmt "][:16])
    assert fmt == 1 and al * 8 == ch * bits and br == al * rate, "fmt chunk %s" % ((fmt, ch, rate, br, al, bits),)
    d = out[b"data"]
    assert len(d) % al == 0, "data size"
    w = bits // 8
    q = [int.from_bytes(d[i : i + w], "little", signed=w > 1) - (128 if w == 1 else 0) for i in range(0, len(d), w)]
    return dict(rate=rate, channels=ch, bits=bits, q=np.array(q, dtype=np.int64).reshape(-1, ch))


def build(q, rate0, bits0, trailer=b"", **over):
    """q (frames, channels) python-int-valued array -> bytes"""
    w = bits0 // 8
    ch = q.shape[1]
    d = b"".join(int(v + (128 if w == 1 else 0)).to_bytes(w, "little", signed=w > 1) for v in q.ravel())
    h = dict(riff=b"RIFF", wave=b"WAVE", fmtid=b"fmt ", dataid=b"data", fmt=1, size=16, ch=ch, rate=rate0, br=rate0 * ch * w, al=ch * w, bits=bits0, dsize=len(d), ext=b"")
    h.update(over)
    body = (
        h["wave"] + h["fmtid"] + struct.pack("<I", h["size"])
        + struct.pack("<HHIIHH", h["fmt"], h["ch"], h["rate"], h["br"], h["al"], h["bits"]) + h["ext"]
        + h["dataid"] + struct.pack("<I", h["dsize"]) + d + trailer
    )
    return h["riff"] + struct.pack("<I", len(body)) + body


def write_file(path, b):
    with open(path, "wb") as f:
        f.write(b)


def read_file(path):
    with open(path, "rb") as f:
        return f.read()


def rate_of(r):
    return int(r.choice([8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000, 1, 7, int(r.integers(1, 200000))]))


def run(c, rec):
    d = tempfile.mkdtemp(prefix="vf17_")
    try:
        globals()["run_" + c["op"]](c, rec, d)
    finally:
        shutil.rmtree(d)


def draw_wave(r):
    dt = str(r.choice(FLOATS + INTS + INTS))
    T = int(r.choice([1, 2, 3, 17, 256, int(r.integers(1, 3000))]))
    if r.integers(60) == 0:
        T = int(r.integers(30000, 140000))
    form = str(r.choice(["1d", "tc", "ct"]))
    ch = 1 if form == "1d" else int(r.integers(1, 3))
    vclass = str(r.choice(["in", "in", "edge", "out", "tiny"]))
    if dt[-1] in "124" and dt[0] == "i":
        info = np.iinfo(dt)
        x = r.integers(info.min, info.max + 1, size=(T, ch))
        x[r.integers(T), r.integers(ch)] = r.choice([info.min, info.max])
    else:
        x = r.uniform(-1, 1, size=(T, ch))
        if vclass == "edge":
            x = r.choice([-1.0, 1.0, 0.0, -0.0, 0.5, 32767 / 32768, -32767 / 32768, 1 / 32768, -1 / 32768], size=(T, ch))
        elif vclass == "out":
            x = x * 10.0 ** r.uniform(0, 3, size=(T, ch))
            if r.integers(3) == 0:
                x[r.integers(T), r.integers(ch)] = r.choice([np.inf, -np.inf])
        elif vclass == "tiny":
            x = x * 1e-5
    x = np.asarray(x).astype(dt)
    cf = None
    if form == "1d":
        arr = x[:, 0]
        cf = [None, True, False][r.integers(3)]
    elif form == "tc":
        arr = x
        cf = [None, False][r.integers(2)]
    else:
        arr = x.T
        cf = True
    lay = int(r.integers(4))
    if lay == 0:
        arr = np.ascontiguousarray(arr)
    elif lay == 1:
        arr = np.asfortranarray(arr)
    elif lay == 2:
        big = np.zeros(arr.shape[:-1] + (2 * arr.shape[-1],), dtype=arr.dtype)
        big[..., ::2] = arr
        arr = big[..., ::2]
    elif lay == 3:
        arr = np.ascontiguousarray(arr[..., ::-1])[..., ::-1]
    return dt, T, form, ch, vclass, x, arr, cf, lay


def run_write(c, rec, d):
    from ssspy.io import wavread, wavwrite

    r = rng_of("C17w", c["seed"])
    dt, T, form, ch, vclass, x, arr, cf, lay = draw_wave(r)
    rate = rate_of(r)
    path = os.path.join(d, str(r.choice(["a.wav", "b c.wav", "x.y.wav", "ü.wav"])))
    over = r.integers(3) == 0
    if over:  # an existing longer file is replaced
        junk = 50000 + 8 * T
        write_file(path, os.urandom(junk))
    before = arr.copy()
    kw = {} if cf is None and r.integers(2) else dict(channels_first=cf)
    rate_arg = rate if r.integers(3) else np.int64(rate)
    with rec.sut("wavwrite"):
        wavwrite(path, arr, rate_arg, **kw)
    rec.check(np.array_equal(arr, before), "argument modified")
    if over:
        rec.check(os.path.getsize(path) < junk, "overwrite", "old content kept")
    b = read_file(path)
    try:
        p = parse(b)
    except AssertionError as e:
        rec.check(False, "written header", "not a well-formed wav file: %s" % e)
        return
    bits = 8 if dt == "i1" else 16
    rec.check((p["rate"], p["channels"], p["bits"]) == (rate, ch, bits), "written header", "%s, expected %s" % ((p["rate"], p["channels"], p["bits"]), (rate, ch, bits)))
    try:
        with wave.open(path, "rb") as w:
            got = (w.getnframes(), w.getframerate(), w.getnchannels(), 8 * w.getsampwidth())
        rec.check(got == (T, rate, ch, bits), "written header", "wave module reads %s" % (got,))
    except Exception as e:  # noqa: BLE001
        rec.check(False, "written header", "the standard library cannot open it: %r" % e)
    vmax = 2 ** (bits - 1)
    if dt[0] == "i":
        want = x.astype(np.int64)
        ok = p["q"].shape == want.shape and np.array_equal(p["q"], want)
        y = want / vmax
        lsb = 0.0
    else:
        y = np.clip(x.astype(np.float64), -1, (vmax - 1) / vmax)
        ok = p["q"].shape == y.shape and np.all(np.abs(p["q"] - y * vmax) < 1)
        sat = np.abs(x.astype(np.float64)) >= 1
        ok = ok and np.array_equal(p["q"][sat], np.where(x[sat] > 0, vmax - 1, -vmax))
        lsb = 1 / vmax
    rec.check(ok, "written samples", lambda: "dtype %s form %s: %s for %s" % (dt, form, p["q"].ravel()[:6], (y * vmax).ravel()[:6]))
    # read back with the library
    r2d = [None, True, False][r.integers(3)]
    rcf = [None, True, False][r.integers(3)]
    with rec.sut("wavread"):
        z, zr = wavread(path, return_2d=r2d, channels_first=rcf)
    want = y
    if ch == 1 and not r2d:
        want = y[:, 0]
    elif rcf:
        want = y.T
    rec.check(zr == rate, "round trip", "rate %s, expected %s" % (zr, rate))
    if rec.check(z.shape == want.shape, "round trip", "shape %s, expected %s" % (z.shape, want.shape)):
        rec.check(np.max(np.abs(z - want)) <= lsb * (1 + 1e-12), "round trip", "differs by %g" % np.max(np.abs(z - want)))
    rec.nontrivial("write", dt, form, ch, vclass, cf, lay, r2d, rcf, over)


def run_read(c, rec, d):
    from ssspy.io import wavread

    r = rng_of("C17r", c["seed"])
    bits = int(r.choice([8, 16, 32, 64]))
    ch = int(r.integers(1, 7))
    T = int(r.choice([1, 2, 5, 64, int(r.integers(1, 800))]))
    if r.integers(100) == 0:
        T = int(r.integers(20000, 70000))
    rate = rate_of(r)
    m = 2 ** (bits - 1)
    q = np.array([[int(v) for v in row] for row in r.integers(-m, m - 1, size=(T, ch), endpoint=True, dtype=np.int64)], dtype=object)
    q[r.integers(T), r.integers(ch)] = int(r.choice([0, 1])) * (2 * m - 1) - m
    tr = b""
    if r.integers(3) == 0:
        tr = b"LIST" + struct.pack("<I", 8) + b"INFOabcd"
        if (T * ch * bits // 8) % 2:
            tr = b"\0" + tr
    path = os.path.join(d, "in.wav")
    raw = build(q, rate, bits, trailer=tr)
    write_file(path, raw)
    full = q.astype(np.float64) / m
    for k in range(6):
        off = 0 if k == 0 else int(r.integers(0, T + 1))
        num = None if k in (0, 1) else int(r.integers(0, T - off + 1))
        r2d = [None, True, False][r.integers(3)]
        rcf = [None, True, False][r.integers(3)]
        kw = dict(return_2d=r2d, channels_first=rcf)
        if k:
            kw.update(frame_offset=off, num_frames=num)
        with rec.sut("wavread"):
            z, zr = wavread(path, **kw)
        want = full[off:] if num is None else full[off : off + num]
        if ch == 1 and not r2d:
            want = want[:, 0]
        elif rcf:
            want = want.T
        key = "segment" if k else "read"
        ok = z.shape == want.shape and zr == rate and z.dtype == np.float64 and np.array_equal(z, want)
        rec.check(ok, key, lambda: "bits %d ch %d T %d %s: shape %s/%s rate %s/%s dtype %s" % (bits, ch, T, kw, z.shape, want.shape, zr, rate, z.dtype))
        rec.nontrivial("read", bits, ch, r2d, rcf, off > 0, num is None, num == 0, bool(tr))
        if z.size and z.flags.writeable:
            z[...] = 7.0
    rec.check(read_file(path) == raw, "read", "reading changed the file")
    for off, num in ((0, T + 1), (T, 1), (int(r.integers(0, T + 1)), T + 1), (-1, None), (0, -1), (T + 1, None)):
        rec.expect_raise(lambda: wavread(path, frame_offset=off, num_frames=num), (ValueError, OverflowError), "range error", "T=%d offset=%s num_frames=%s" % (T, off, num))


def run_bad(c, rec, d):
    from ssspy.io import wavread, wavwrite

    r = rng_of("C17b", c["seed"])
    ch = int(r.integers(1, 3))
    q = np.array([[int(v) for v in row] for row in r.integers(-100, 100, size=(20, ch))], dtype=object)
    path = os.path.join(d, "bad.wav")
    rate = int(r.integers(1000, 90000))
    for what, kw in (
        ("RIFX", dict(riff=b"RIFX")),
        ("AVI", dict(wave=b"AVI ")),
        ("chunk first", dict(fmtid=b"JUNK")),
        ("chunk between", dict(dataid=b"LIST")),
        ("float format", dict(fmt=3)),
        ("extensible", dict(fmt=0xFFFE, size=18, ext=b"\0\0")),
        ("fmt size", dict(size=18, ext=b"\0\0")),
        ("byte rate", dict(br=rate * ch * 2 + 1)),
        ("bits", dict(bits=24)),
        ("rate", dict(rate=rate + 1)),
    ):
        write_file(path, build(q, rate, 16, **kw))
        rec.expect_raise(lambda: wavread(path), (NotImplementedError, ValueError), "bad file", what)
    write_file(path, build(q, rate, 16, dsize=40 * ch + 4000))
    rec.expect_raise(lambda: wavread(path), Exception, "bad file", "declared data longer than the file")
    rec.expect_raise(lambda: wavread(os.path.join(d, "none.wav")), FileNotFoundError, "bad file", "missing file")

    out = os.path.join(d, "o.wav")
    x = r.uniform(-1, 1, size=(9, 2))
    rec.expect_raise(lambda: wavwrite(os.path.join(d, "o.mp3"), x, rate), AssertionError, "bad argument", "extension")
    for what, arr, kw in (
        ("3 channels", r.uniform(-1, 1, size=(9, 3)), {}),
        ("3 channels first", r.uniform(-1, 1, size=(3, 9)), dict(channels_first=True)),
        ("0 channels", np.zeros((9, 0)), {}),
        ("3-D", np.zeros((2, 3, 4)), {}),
        ("int32", np.zeros((9, 2), dtype="i4"), {}),
        ("int64", np.zeros(9, dtype="i8"), {}),
        ("uint8", np.zeros(9, dtype="u1"), {}),
        ("complex", np.zeros(9, dtype="c16"), {}),
    ):
        rec.expect_raise(lambda: wavwrite(out, arr, rate, **kw), ValueError, "bad argument", what)
    rec.nontrivial("bad", ch, rate % 7)
