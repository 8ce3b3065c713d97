"""C03: truncation."""
import io
import zlib

from hypothesis import strategies as st

from .. import gens, sut, vgmfmt
from ..core import Property, Sub


def read_cut(s, data):
    """Commands until the end or an end-of-file report."""
    got, how, r = [], "end", None
    try:
        r = s.core.reader(io.BytesIO(data))
        if r is None:
            return got, "none"
        for c in r:
            got.append(vgmfmt.observed(c))
            sut.need(len(got) <= 20 * len(data) + 100, "reading a truncated file does not end")
    except EOFError:
        how = "eof"
    # whoever goes on all the same gets no music either
    for _ in range(3 if r is not None else 0):
        try:
            more = vgmfmt.observed(next(r))
        except (StopIteration, EOFError):
            continue
        sut.need(more["type"] is None, lambda: f"after the end, {more} is read")
    return got, how


def judge(got, full, complete, cut):
    sut.same(got[:complete], full[:complete], f"complete commands before a cut at {cut}")
    n = len(got)
    if n > complete:
        # at most one incomplete command at the end
        sut.need(n == complete + 1, lambda: f"two incomplete commands after a cut at {cut}: {got}")
        sut.need(complete < len(full), lambda: f"a command that is not in the file appears after a cut at {cut}: {got[complete:]}")
        last, want = got[complete], full[complete]
        if last != want:
            sut.need(last["type"] is None and want["type"] is None and last["id"] == want["id"],
                     f"wrong command after a cut at {cut}: {last}, the file has {want}")
            sut.need(want["payload"].startswith(last["payload"]) or "bytes crc" in want["payload"],
                     f"invented operands after a cut at {cut}: {last}, the file has {want}")


def unpacked(data):
    """How many bytes of a gzip file that is cut can be unpacked."""
    z = zlib.decompressobj(31)
    return len(z.decompress(data)) + len(z.flush())


def check_cut(case):
    cmds = case["cmds"]
    full = [vgmfmt.expected(c) for c in cmds]
    start = case["start"] if case["version"] >= 150 else 0x40
    head = vgmfmt.header(version=case["version"], data_start=start, fill=case["fill"],
                         fields=vgmfmt.facts(case.get("fields", ()), cmds, start),
                         body_len=len(vgmfmt.stream(cmds)) if case.get("sized") else 0)
    ends, pos = [], len(head)
    for c in cmds:
        pos += len(vgmfmt.encode(c))
        ends.append(pos)
    plain = head + vgmfmt.stream(cmds)
    packed = case["gz"] is not None and bool(case.get("packed"))     # cut first, and then compressed
    data = plain if case["gz"] is None or packed else gens.apply_gz(plain, case["gz"])
    s = sut.fresh()
    inside = ends_how = 0
    for cut in range(len(data)):
        with sut.running(f"reading a file cut at byte {cut} of {len(data)}"):
            got, how = read_cut(s, data[:cut] if not packed else gens.apply_gz(plain[:cut], case["gz"]))
        if case["gz"] is None or packed:
            complete = sum(1 for e in ends if e <= cut)
            judge(got, full, complete, cut)
            if cut > len(head) and cut not in ends:
                inside += 1
            if cut < len(head):
                sut.need(not got, f"commands from a cut header: {got}")
        else:
            there = unpacked(data[:cut])
            complete = sum(1 for e in ends if e <= there)
            judge(got, full, complete, cut)
        ends_how += how == "eof"
    lab = ["nontrivial"] if (inside or case["gz"] is not None) else []
    lab.append("cut, then gzip" if packed else "gzip" if case["gz"] is not None else "plain")
    lab += sorted({"cuts " + c[0] for c in cmds})
    if ends_how:
        lab.append("reports end of file")
    return lab


def one_member(o):
    """Cut one byte into the second member's header, the standard gzip module itself reports a bad
    file instead of its end; that is no statement about this program (see DESIGN.md)."""
    return dict(o, members=1, pad=0)


def files():
    return st.fixed_dictionaries({
        "cmds": st.lists(gens.command(gens.small_len(12)), min_size=1, max_size=10),
        "fill": gens.byte,
        "version": gens.VERSIONS, "start": st.sampled_from([0x40, 0x40, 0x38, 0x80, 0x100]), "sized": st.booleans(), "fields": gens.fields(),
        "packed": st.booleans(), "gz": st.one_of(st.none(), st.none(), gens.gzopts().map(one_member))})


def check_one(case):
    """A long file cut at one place."""
    cmds = case["cmds"]
    full = [vgmfmt.expected(c) for c in cmds]
    parts = [vgmfmt.encode(c) for c in cmds]
    head = vgmfmt.header(version=case.get("version", 151), body_len=sum(map(len, parts)) if case.get("sized") else 0)
    data = head + b"".join(parts)
    cut = len(head) + case["at"] % (len(data) - len(head))
    complete, pos = 0, len(head)
    for p in parts:
        pos += len(p)
        if pos > cut:
            break
        complete += 1
    s = sut.fresh()
    with sut.running("reading a truncated file"):
        got, how = read_cut(s, data[:cut])
    judge(got, full, complete, cut)
    return ["nontrivial", "ends " + how]


def long_files():
    return st.fixed_dictionaries({
        "cmds": st.lists(gens.command(), min_size=1, max_size=20),
        "version": gens.VERSIONS, "sized": st.booleans(),
        "at": st.one_of(st.integers(0, 300), st.integers(0, 1 << 20))})


def check_bytes(case):
    """Any bytes after a header: the reference decoder says which commands are complete."""
    body = bytes.fromhex(case["hex"])
    want, rest, upto = vgmfmt.decode(body)
    data = vgmfmt.header(version=case["version"], data_start=case["start"] if case["version"] >= 150 else 0x40) + body
    s = sut.fresh()
    with sut.running("reading arbitrary bytes"):
        got, how = read_cut(s, data)
    sut.same(got[:len(want)], want, "complete commands")
    more = got[len(want):]
    if upto == len(body):
        sut.need(len(more) <= (rest is not None), lambda: f"commands that are not in the file: {more[:3]}")
        if more:
            sut.need(rest["type"] is None and more[0]["type"] is None and more[0]["id"] == rest["id"],
                     lambda: f"the incomplete command {rest} is given as {more[0]}")
            sut.need(rest["payload"][:len(more[0]["payload"]) // 2].hex() == more[0]["payload"] or "crc" in more[0]["payload"],
                     lambda: f"invented operands: {more[0]}")
    lab = ["ends in a command" if rest is not None else "ends after a command" if upto == len(body) else "malformed block"]
    if len(want) >= 2:
        lab.append("nontrivial")
    return lab


def bytes_cases():
    part = st.one_of(st.binary(min_size=1, max_size=6).map(bytes.hex), gens.command(gens.small_len(20)).map(lambda c: vgmfmt.encode(c).hex()),
                     st.tuples(gens.command(gens.small_len(6)), st.integers(0, 30)).map(lambda t: vgmfmt.encode(t[0])[:t[1]].hex()),
                     gens.byte.map(lambda i: bytes([i]).hex()))
    return st.fixed_dictionaries({
        "hex": st.sampled_from([1, 4, 12]).flatmap(lambda n: st.lists(part, min_size=n, max_size=30)).map("".join),
        "version": gens.VERSIONS, "start": st.sampled_from([0x38, 0x40, 0x80])})


def from_bytes(data):
    k = data[0] if data else 0
    return {"hex": bytes(data[1:]).hex(), "version": (100, 151, 171)[k % 3], "start": (0x38, 0x40, 0x80)[k // 3 % 3]}


FUZZ = (from_bytes, [b"\0" + vgmfmt.encode(c) + b"\x62" for c in (
    ["ym", 8, 0x78], ["w16", 258], ["w4", 3], ["w8", 5], ["eos"], ["op", 0x30, "aa"], ["op", 0x93, "aa" * 10],
    ["blk", 1, True, 5, 0x54], ["pcm", 1, 2, 3, 5, 0x61], ["op", 0xC0, "aabbcc"], ["op", 0xE0, "aabbccdd"])])


def singles(tier):
    for c in [["ym", 8, 0x78], ["w16", 258], ["w60"], ["w4", 3], ["w8", 5], ["eos"], ["op", 0x30, "aa"],
              ["op", 0x51, "aabb"], ["op", 0xC0, "aabbcc"], ["op", 0xE0, "aabbccdd"], ["op", 0x93, "aa" * 10],
              ["blk", 1, False, 5, 0x54], ["blk", 1, True, 300, 0x54], ["blk", 0, False, 0, 0], ["pcm", 1, 2, 3, 5, 0x61],
              ["pcm", 1, 2, 3, 0, 0x61]]:
        for gz in (None, {"level": 9, "mtime": 0, "name": None, "extra": None, "comment": None, "hcrc": False, "members": 1},
                   {"level": 0, "mtime": 1, "name": "n", "extra": "x", "comment": "c", "hcrc": True, "members": 1}):
            for before in ([], [["ym", 1, 2], ["w50"]]):
                yield {"cmds": before + [c, ["w60"]], "fill": 0, "version": 151, "start": 0x40, "gz": gz}


def headers(tier):
    """Long headers that are full of bytes which look like commands, cut anywhere."""
    stored = {"level": 0, "mtime": 0, "name": None, "extra": None, "comment": None, "hcrc": False, "members": 1}
    for start in (0x38, 0x40, 0x41, 0x60, 0x80, 0xC0, 0xE4, 0x100, 0x180):
        for fill in (0, 0x54, 0x62, 0x7F):
            for version in (150, 171) if start != 0x40 else (100, 101, 110, 149, 150):
                for gz, packed in ((None, False), (stored, False), (stored, True)):
                    yield {"cmds": [["ym", 8, 0x78], ["w4", 3]], "fill": fill, "version": version, "start": start, "gz": gz, "packed": packed}


PROPERTY = Property(
    "C03",
    "A case is a small well-formed file (plain, gzip with free options, or compressed after the cut); within a case every "
    "cut position of the file is tried. Long files are cut at one generated place. Oracle: the full file's commands and the byte position "
    "where each ends. Arbitrary bytes and damaged commands after a header are compared with a table-driven reference "
    "decoder (non-trivial: two complete commands). Non-trivial: some cut falls inside a command, or the file is compressed.",
    [
        Sub("singles", check_cut, enum=singles),
        Sub("headers", check_cut, enum=headers),
        Sub("files", check_cut, gen=files(), quick=700, thorough=20000),
        Sub("long", check_one, gen=long_files(), quick=3000, thorough=80000),
        Sub("bytes", check_bytes, gen=bytes_cases(), quick=4000, thorough=150000),
        Sub("fuzz", check_bytes, fuzz=FUZZ, quick=8000, thorough=1500000),
    ],
    ["end of file is reported as EOFError (the repository's own convention) or as the end of the commands",
     "the incomplete last command of another chip may be reported with the operand bytes there are"],
)
