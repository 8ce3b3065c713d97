"""C02: header facts and gzip transparency."""
import base64
import bz2
import gzip
import io
import lzma
import zipfile
import zlib

from hypothesis import strategies as st

from .. import gens, sut, vgmfmt
from ..core import Property, Sub


def facts(r, chips=("ym2151", "ym2413")):
    d = {"size": r.size(), "version": r.version, "start": r.data_start}
    for c in ("ym2151", "ym2413"):
        if c in chips:
            d[c] = r.clock(c)
            d["supports " + c] = bool(r.supports(c))
    d["supports other"] = bool(r.supports("no such chip"))
    return d


def build(case):
    v = case["version"]
    start = case["start"] if v >= 150 else 0x40
    h = vgmfmt.header(version=v, ym2413=case["ym2413"], ym2151=case["ym2151"], data_start=start,
                      eof=case["eof"], fill=case["fill"])
    clk = case["ym2413"] if v < 110 else case["ym2151"]
    want = {"size": case["eof"] + 4, "version": v, "start": start, "ym2151": clk, "supports ym2151": clk > 0,
            "ym2413": case["ym2413"], "supports ym2413": case["ym2413"] > 0, "supports other": False}
    return h + vgmfmt.stream(case["cmds"]), want


def check_header(case):
    data, want = build(case)
    cmds = [vgmfmt.expected(c) for c in case["cmds"]]
    if case["gz"] is not None:
        data = gens.apply_gz(data, case["gz"])
    s = sut.fresh()
    with sut.running("reading a VGM header"):
        f = io.BytesIO(data)
        r = s.core.reader(f)
        sut.need(r is not None, "a well-formed VGM file is not accepted")
        before = facts(r)
        got = []
        for c in r:
            got.append(vgmfmt.observed(c))
            sut.need(len(got) < len(data) * 1200 + 10, "reading does not end")
        after = facts(r)
    sut.same(before, want, "header facts")
    sut.same(after, want, "header facts after reading the commands")
    sut.same(got, cmds, "commands")
    lab = ["nontrivial"] if case["cmds"] else []
    lab.append("gzip" if case["gz"] is not None else "plain")
    if case["gz"] is not None and case["gz"]["members"] > 1:
        lab.append("several gzip members")
    lab.append("version below 1.10" if case["version"] < 110 else
               "version below 1.50" if case["version"] < 150 else "version 1.50 or later")
    if case["version"] >= 150 and case["start"] != 0x40:
        lab.append("data offset other than 0x40")
    return lab


u32 = st.one_of(st.sampled_from([0, 1, 255, 256, 3579545, 4000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]),
                st.integers(0, 0xFFFFFFFF))


def headers():
    return st.fixed_dictionaries({
        "version": gens.VERSIONS,
        "start": st.one_of(st.sampled_from([0x40, 0x80, 0xC0, 0x100]), st.integers(0x38, 0x48), st.integers(0x40, 0x400), st.integers(0x40, 70000)),
        "ym2413": u32, "ym2151": u32, "eof": u32, "fill": gens.byte,
        "cmds": st.lists(gens.command(gens.small_len(20)), max_size=8),
        "gz": st.one_of(st.none(), gens.gzopts())})


def versions(tier):
    """Every version number with up to three digits, and all single digit positions."""
    vs = list(range(0, 400)) + [10 ** k * d for k in range(8) for d in range(1, 10)] + [12345678, 99999999, 1, 99]
    for v in vs:
        for gz in (None, {"level": 6, "mtime": 0, "name": None, "extra": None, "comment": None, "hcrc": False, "members": 1}):
            yield {"version": v, "start": 0x38 + v % 97, "ym2413": 7, "ym2151": 11, "eof": 0x01020304, "fill": 3,
                   "cmds": [["ym", 1, 2], ["w60"], ["eos"]], "gz": gz}


def check_reject(case):
    data = bytes.fromhex(case["hex"])
    if case["gz"] is not None:
        data = gens.apply_gz(data, case["gz"])
    if case["raw_gz_magic"]:
        data = b"\x1f\x8b" + data
    s = sut.fresh()
    try:
        r = s.core.reader(io.BytesIO(data))
    except Exception:
        return ["nontrivial", "refused with an error"]
    sut.need(r is None, f"accepted as a song: {data[:16]!r}")
    return ["nontrivial", "refused"]


def zipped(b):
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        z.writestr(zipfile.ZipInfo("song.vgm", (2020, 1, 1, 0, 0, 0)), b)
    return f.getvalue()


def gunzipped(b):
    try:
        return gzip.decompress(b)
    except Exception:
        return b""


def rejects():
    magic = st.sampled_from([b"", b"V", b"Vg", b"Vgm", b"Vgm\0", b"vgm ", b"VGM ", b"Vgm_", b" mgV", b"Vgn ", b"Ugm ",
                             b"Gd3 ", b"RIFF", b"\0Vgm ", b"Wgm "])
    body = st.builds(lambda m, b: m + b, magic, st.binary(max_size=80)).filter(lambda b: b[:4] != b"Vgm ")
    gzd = st.fixed_dictionaries({"hex": body.map(bytes.hex), "gz": gens.gzopts(), "raw_gz_magic": st.just(False)})
    raw = st.fixed_dictionaries({
        "hex": body.filter(lambda b: b[:2] != b"\x1f\x8b").map(bytes.hex), "gz": st.none(), "raw_gz_magic": st.just(False)})
    fake = st.fixed_dictionaries({
        "hex": st.one_of(body, st.just(b"Vgm \0\0")).map(bytes.hex), "gz": st.none(), "raw_gz_magic": st.just(True)})

    full = st.builds(lambda i, x: {"i": i, "x": x}, st.integers(0, 3), st.integers(1, 255))

    def spoil(t):
        b = bytearray(vgmfmt.song([["ym", 8, 0x78], ["w60"], ["eos"]]))
        b[t["i"]] ^= t["x"]
        return {"hex": bytes(b).hex(), "gz": None, "raw_gz_magic": False}
    # songs in other wrappings, or behind something else
    good = vgmfmt.song([["ym", 8, 0x78], ["w60"], ["eos"]])
    lead = st.one_of(st.sampled_from([b"\0", b"\n", b" ", b"\xef\xbb\xbf", b"ID3", b"Vgm", b"\0" * 128, b"V\0g\0m\0 \0"]), st.binary(min_size=1, max_size=8))
    wrapped = st.builds(lambda b, g: {"hex": b.hex(), "gz": g, "raw_gz_magic": False}, st.one_of(
        st.sampled_from([gzip.compress(gzip.compress(good, mtime=0), mtime=0), zlib.compress(good), bz2.compress(good), lzma.compress(good),
                         zipped(good), base64.b64encode(good), good.hex().encode(), good[::-1]]),
        lead.map(lambda b: b + good), lead.map(lambda b: b + gzip.compress(good, mtime=0))).filter(
            lambda b: b[:4] != b"Vgm " and (b[:2] != b"\x1f\x8b" or b[10:12] == b"\x1f\x8b" or gunzipped(b)[:2] == b"\x1f\x8b")),
        st.one_of(st.none(), st.none(), gens.gzopts()))
    inner = st.builds(lambda g, h: {"hex": gens.apply_gz(good, g).hex(), "gz": h, "raw_gz_magic": False}, gens.gzopts(), gens.gzopts())
    return st.one_of(gzd, raw, fake, wrapped, inner, full.map(spoil).filter(lambda c: c["hex"][:4] != "1f8b"))


PROPERTY = Property(
    "C02",
    "A case is a header with free version, clocks, end offset, filler and data offset, followed by commands, plain or "
    "gzip-compressed with free level, optional header fields and member count; the oracle is the field values used to "
    "build it. Non-trivial: commands follow the header. Rejection cases are inputs that are not VGM streams, raw, "
    "compressed, or only starting like gzip (all non-trivial).",
    [
        Sub("versions", check_header, enum=versions),
        Sub("headers", check_header, gen=headers(), quick=6000, thorough=150000),
        Sub("rejects", check_reject, gen=rejects(), quick=2500, thorough=60000),
    ],
    ["version bytes are valid BCD; from version 1.50 the data offset points behind the offset field itself"],
)
