"""C01: VGM command stream decoding."""
import io
import random

from hypothesis import strategies as st

from .. import gens, sut, vgmfmt
from .. import core
from ..core import Property, Sub


def decode(s, data, nmax):
    """Commands through the iterator protocol; the end must be stable."""
    r = s.core.reader(io.BytesIO(data))
    sut.need(r is not None, "a well-formed VGM file is not accepted")
    got = []
    it = iter(r)
    while True:
        try:
            c = next(it)
        except StopIteration:
            break
        got.append(vgmfmt.observed(c))
        sut.need(len(got) <= nmax, "more commands than bytes: reading does not end")
    for _ in range(2):
        try:
            next(it)
        except StopIteration:
            continue
        raise sut.Violation("reading resumes after its end")
    sut.need(list(r) == [], "a second loop over a song gives its commands again")
    return got


def check_stream(case):
    cmds = case["cmds"] * case.get("times", 1)
    s = sut.fresh()
    data = vgmfmt.song(cmds, version=case["version"], data_start=case["start"], fill=case["fill"],
                       fields=case.get("fields", ()))
    want = [vgmfmt.expected(c) for c in cmds]
    with sut.running("reading a well-formed song"):
        got = decode(s, data, len(data) + 1)
    sut.same(got, want, "commands")
    lab = []
    if len(cmds) >= 2:
        lab.append("nontrivial")
    kinds = {c[0] for c in cmds}
    lab += sorted("has " + k for k in kinds)
    if any((c[0] == "blk" and c[3] > 255) or (c[0] == "pcm" and c[4] > 255) for c in cmds[:-1]):
        lab.append("long block before another command")
    return lab


def streams():
    start = st.one_of(st.just(0x40), st.integers(0x40, 0x120), st.sampled_from([0x80, 0x100, 0x100]))
    return st.fixed_dictionaries({
        "cmds": st.lists(gens.command(), min_size=1, max_size=30),
        "fill": gens.byte, "fields": gens.fields()}).flatmap(lambda d: st.one_of(
            st.fixed_dictionaries({"version": gens.VERSIONS.filter(lambda v: v >= 150), "start": start}),
            st.fixed_dictionaries({"version": gens.VERSIONS.filter(lambda v: v < 150), "start": st.just(0x40)})
        ).map(lambda e: dict(d, **e)))


def all_ids(tier):
    """Every command id, with several operand patterns, between two marked commands; all waits."""
    def case(mid):
        return {"cmds": [["ym", 0x12, 0x34], mid, ["ym", 0x56, 0x78], ["w16", 4660], ["eos"]],
                "version": 151, "start": 0x40, "fill": 0}
    pats = (0x00, 0xFF, 0x54, 0x61, 0x66, 0x67, 0x68)
    for i, n in sorted(vgmfmt.OPERANDS.items()):
        for p in pats if n else (0,):
            yield case(["op", i, bytes([p] * n).hex()])
        if n:
            yield case(["op", i, bytes(range(1, n + 1)).hex()])
    for n in range(16):
        yield case(["w4", n])
        yield case(["w8", n])
    yield case(["w60"])
    yield case(["w50"])
    yield case(["eos"])
    for k in range(16):
        for d in (-1, 0, 1):
            if 0 <= (1 << k) + d <= 65535:
                yield case(["w16", (1 << k) + d])
    yield case(["w16", 0])
    yield case(["w16", 65535])
    for second in (False, True):
        for n in [0, 1, 2, 3, 254, 255, 256, 257, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24, (1 << 24) + 258]:
            yield case(["blk", 0xAA if second else 0, second, n, 0x54])
    # every type of data block (streams, compressed ones, tables, ROM and RAM images), every chip of a RAM write
    for tt in range(256):
        for n, fill in ((0, 0), (5, 0x54), (300, 0x66), (23, 0)):
            yield case(["blk", tt, bool(tt & 1), n, fill])
        yield case(["pcm", tt, tt << 8, 0x54, 7, 0x62])
    for n in [0, 1, 2, 255, 256, 257, 65535, 65536, 65537, 0x123456, (1 << 24) - 1]:
        yield case(["pcm", 1, 0x010203, 0xFFFEFD, n, 0x54])
        yield case(["pcm", 0xFF, 0, 0, n, 0x61])


def all_writes(tier):
    """Every YM2151 register and value pair, 256 per file."""
    for r in range(256):
        yield {"cmds": [["ym", r, v] for v in range(256)] + [["eos"]], "version": 151, "start": 0x40, "fill": 0}


def pairs(tier):
    """Every succession of two commands, by id."""
    r = random.Random(7)

    def one(i):
        if i == 0x54:
            return ["ym", r.randrange(256), r.randrange(256)]
        if i == 0x61:
            return ["w16", r.randrange(65536)]
        if i in (0x62, 0x63, 0x66):
            return [{0x62: "w60", 0x63: "w50", 0x66: "eos"}[i]]
        if 0x70 <= i < 0x90:
            return ["w4" if i < 0x80 else "w8", i & 15]
        if i == 0x67:
            return ["blk", r.randrange(256), r.random() < 0.5, r.randrange(12), r.randrange(256)]
        if i == 0x68:
            return ["pcm", r.randrange(256), r.randrange(1 << 24), r.randrange(1 << 24), 1 + r.randrange(12), r.randrange(256)]
        return ["op", i, bytes(r.randrange(256) for _ in range(vgmfmt.OPERANDS[i])).hex()]

    ids = sorted(set(vgmfmt.OPERANDS) | {0x54, 0x61, 0x62, 0x63, 0x66, 0x67, 0x68} | set(range(0x70, 0x90)))
    for a in ids:
        yield {"cmds": [c for b in ids for c in (one(a), one(b))], "version": 151, "start": 0x40, "fill": 0}


def all_waits(tier):
    step = 4096
    for b in range(0, 65536, step):
        yield {"cmds": [["w16", n] for n in range(b, b + step)], "version": 151, "start": 0x40, "fill": 0}


def long_streams(tier):
    """Thousands of commands of one kind and of all kinds, so that nothing depends on how much was read before."""
    kinds = [["op", i, (bytes(range(0x54, 0x54 + 10))[:n]).hex()] for i, n in sorted(vgmfmt.OPERANDS.items())] + \
        [["ym", 8, 0x78], ["w16", 300], ["w60"], ["w50"], ["w4", 3], ["w8", 7], ["blk", 0, False, 5, 0x54], ["blk", 1, True, 5, 0x54],
         ["pcm", 1, 2, 3, 4, 5], ["eos"]]
    n = 3000 if tier == "quick" else 70000
    one = [["ym", 8, 0x78], ["op", 0x64, ""], ["op", 0x00, ""], ["op", 0xA0, "5408"], ["op", 0x30, "54"], ["op", 0xC1, "540878"],
           ["op", 0xE0, "54087878"], ["op", 0x90, "54087878"], ["op", 0x93, "54" * 10], ["blk", 0, False, 5, 0x54], ["w4", 3], ["w8", 0]]
    for k in one:
        yield {"cmds": [k], "times": n, "version": 151, "start": 0x40, "fill": 0}
        yield {"cmds": [k] * 1000 + [["ym", 1, 2], ["w60"]], "times": n // 1000, "version": 151, "start": 0x100, "fill": 1}
    yield {"cmds": kinds, "times": n // 100, "version": 171, "start": 0x80, "fill": 7}


def pcm_per_spec():
    """Known finding: by the VGM format, 0x68 is 12 bytes and copies from an earlier data block."""
    s = sut.fresh()
    body = bytes([0x68, 0x66, 1]) + b"\0\0\0" + b"\0\0\0" + b"\x02\0\0" + b"\x54\x20\xC7\x62\x66"
    try:
        got = [c["id"] for c in vgmfmt.read_all(s, vgmfmt.header(body_len=len(body)) + body)]
    except Exception as e:
        got = [type(e).__name__]
    return got != [0x68, 0x54, 0x62, 0x66]


def known():
    key = "PCM RAM write (0x68) of 2 bytes followed by a YM2151 write"
    failing = pcm_per_spec()
    lines = [ln for ln in core.known_findings("C01") if key in ln]
    if failing and not lines:
        raise sut.Violation(key + " is not read as the format says, and is not a listed finding")
    if lines:
        yield lines[0], failing


PROPERTY = Property(
    "C01",
    "A case is a VGM file built from a list of abstract commands (all kinds, operands, block sizes, header versions "
    "and data offsets) by an independent encoder; the oracle is the list itself. Non-trivial: at least two commands. "
    "Also enumerated: every command id with several operand patterns between marker commands, every YM2151 "
    "(register, value) pair, every 16 bit wait, every succession of two command ids.",
    [
        Sub("ids", check_stream, enum=all_ids),
        Sub("writes", check_stream, enum=all_writes),
        Sub("pairs", check_stream, enum=pairs),
        Sub("waits", check_stream, enum=all_waits),
        Sub("long", check_stream, enum=long_streams),
        Sub("streams", check_stream, gen=streams(), quick=6000, thorough=200000),
    ],
    ["PCM RAM writes carry their data inline, as the repository's own test file has it (see known findings)",
     "reserved ids without operands in the repository's test file have none"],
    known=known,
)
