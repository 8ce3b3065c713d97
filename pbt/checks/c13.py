"""C13: CSV track listing."""
import math
import os
import tempfile

from hypothesis import strategies as st

from .. import chip, fuzz, gens, songs, sut
from ..core import Property, Sub

HEADER = ["Samples", "Row", "Pattern", "Total Row", "Fraction"] + [f"Channel {i}" for i in range(1, 9)]
CODES = ["C#", "D", "D#", "D?", "E", "F", "F#", "F?", "G", "G#", "A", "A?", "A#", "B", "C", "C?"]


def label(e):
    """What identifies an event in the listing: pitch, cents (from two 64ths of a semitone on), instrument, output."""
    if e["config_id"] < 0:
        return ("Key Off",)
    kf = e["key_fraction"]
    cents = f"-{round(kf * 1.6):02d}" if kf > 1 else ""
    pan = [] if e["right"] and e["left"] else ["Pan", "R" if e["right"] else "L"]
    return tuple([CODES[e["note"]], f"-{e['octave']}{cents}", f"[{e['config_id']}]"] + pan)


def parsed(text):
    """A label of the listing in the same form."""
    if not text.strip():
        return None
    if text.strip() == "Key Off":
        return ("Key Off",)
    name, _, rest = text.partition("-")
    return tuple([name.strip()] + ("-" + rest).split())


def check(case):
    prims = songs.prims_of(case)
    tpn = case["tpn"]
    s = sut.fresh()
    with sut.running("writing the track listing"):
        for st_, ref in songs.stages(s, prims, case.get("early")):
            for length in songs.lengths_of(case):
                text = songs.export_text(lambda path: s.extractors.extract_tracks(st_, path, length))
                judge(text, ref.events, length)
    rows = {e["sample"] // tpn for es in ref.events for e in es}
    lab = []
    if not rows:
        lab.append("no event")
    if rows and len(rows) < max(rows) + 1:
        lab.append("empty rows")
    if any(len([1 for e in es if e["sample"] // tpn == r]) > 1 for es in ref.events for r in rows):
        lab.append("several events of a channel in a row")
    if rows and max(rows) >= 64:
        lab.append("several patterns")
    if any(e["key_fraction"] > 1 and e["config_id"] >= 0 for es in ref.events for e in es):
        lab.append("key fraction")
    if len(rows) >= 3 and sum(1 for es in ref.events if es) >= 2:
        lab.append("nontrivial")
    return lab


def check_shown(case):
    """The listing on standard output, among the progress messages."""
    prims = songs.prims_of(case)
    ref = chip.Chip().run(prims)
    s = sut.fresh()
    with tempfile.TemporaryDirectory() as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            with sut.running("showing the track listing") as out:
                s.extractors.extract_tracks(songs.feed(s, prims), case["name"], case["tpn"])
                out.write("")
                text = out.buffer.getvalue().decode("utf-8")
            sut.same(os.listdir(d), [], "files when the listing goes to standard output")
        finally:
            os.chdir(old)
    lines = text.splitlines(True)
    head = [i for i, ln in enumerate(lines) if ln.split(",")[:2] == HEADER[:2]]
    sut.same(len(head), 1, "listings on standard output")
    judge("".join(ln for ln in lines[head[0]:] if ln.count(",") >= 4), ref.events, case["tpn"])
    return ["nontrivial"] if ref.started else []


def shown():
    return st.tuples(songs.scored(20, lengths=st.integers(1, 5000)), st.sampled_from(["-", "-", "", None])).map(
        lambda t: dict(t[0], name=t[1]))


@sut.judged
def judge(text, events, tpn):
    sut.need(text.endswith("\n"), "the listing does not end with a line end")
    lines = [ln.split(",") for ln in text.splitlines()]
    sut.same(lines[0], HEADER, "header of the listing")
    body = lines[1:]
    first, last, cells = {}, -1, {}
    for ch, es in enumerate(events):
        for e in es:
            r = e["sample"] // tpn
            last = max(last, r)
            first[r] = min(first.get(r, e["sample"]), e["sample"])
            cells[r, ch] = label(e)
    sut.same(len(body), last + 1, "number of rows of the listing")
    for r, ln in enumerate(body):
        sut.same(len(ln), 13, f"columns of row {r}")
        try:
            sample, row, pattern, total, frac = int(ln[0]), int(ln[1]), int(ln[2]), int(ln[3]), float(ln[4])
        except ValueError as e:
            raise sut.Violation(f"row {r} of the listing: {e}: {ln}")
        sut.same([total, pattern, row], [r, r // 64, r % 64], f"total row, pattern, row in line {r}")
        if r in first:
            sut.same(sample, first[r], f"sample position of row {r}, of its first event")
        else:
            sut.same(sample, r * tpn, f"sample position of row {r} of {tpn} samples, without events")
        want = (sample % tpn) / tpn
        # two significant digits; a value just below 1 may be written as 1.0, one just above 0 as 0.0
        near = abs(frac - want) <= 0.0051
        sut.need(near and math.isfinite(frac), lambda: f"fraction {ln[4]} at sample {sample}, row length {tpn}: expected about {want}")
        for ch in range(8):
            sut.same(parsed(ln[5 + ch]), cells.get((r, ch)), f"channel {ch + 1} in row {r}")


def labels(tier):
    """Every pitch, every key fraction, every output setting; key-offs; the label is read back."""
    for ch in range(8):
        yield {"tpn": 10, "rows": 1 << 20, "ops": [o for kc in range(ch, 128, 8) for kf in range(64) for o in (
            ["w", 0x28 + ch, kc], ["w", 0x30 + ch, kf << 2], ["w", 0x20 + ch, (kc + kf) % 4 << 6], ["on", ch, 15], ["t", 10])]}
        for pan in (0, 0x40, 0x80, 0xC0):
            ops = [["w", 0x20 + ch, pan]]
            for kc in range(128):
                ops += [["w", 0x28 + ch, kc], ["on", ch, 15], ["t", 10]]
            for kf in range(64):
                ops += [["w", 0x30 + ch, kf << 2], ["on", ch, 15], ["t", 10], ["off", ch], ["t", 10]]
            yield {"tpn": 10, "ops": ops}
    ops = []
    for i in range(300):
        ops += [["w", 0x18, i & 255], ["w", 0x1B, i >> 8], ["on", 3, 15], ["t", 5]]
    yield {"tpn": 10, "ops": ops}
    # instrument numbers of one to four digits and more
    ops = []
    for i in range(1100 if tier == "quick" else 10100):
        ops += [["w", 0x18, i & 255], ["w", 0x1B, i >> 8 & 3], ["w", 0x38 + i % 8, i >> 10 << 4]] + [["on", i % 8, 15], ["t", 1 + i % 8]]
    yield {"tpn": 4, "ops": ops}
    # hundreds of patterns, with an event in each or none but the ends
    yield {"tpn": 2, "rows": 1 << 20, "ops": [o for i in range(400) for o in (["on", i % 8, 15], ["t", 128 + i % 3])]}
    yield {"tpn": 3, "rows": 1 << 20, "ops": [["on", 0, 15], ["t", 3 * 64 * 1050 - 1], ["off", 1], ["t", 1], ["on", 2, 15]]}
    every = [["on", 2, 15], ["t", 999], ["off", 2], ["t", 1], ["on", 0, 15], ["t", 64000], ["on", 2, 3], ["t", 1500], ["on", 7, 15]]
    for also in ([[2, 1], [1, 2]], [[1, 2], [1, 4], [1, 8]], [[999, 1000], [1001, 1000]], [[67, 1], [1, 10]], [[1, 1]]):
        yield {"tpn": 1000, "ops": every, "also": also}
    for tpn in (1, 3, 10, 1000):
        for row in (0, 1, 2, 63, 64, 65, 128, 300):
            for d in (-1, 0, 1):
                t = max(0, row * tpn + d)
                yield {"tpn": tpn, "ops": [["t", t], ["on", 1, 15]]}
                yield {"tpn": tpn, "ops": [["on", 0, 15], ["t", t], ["off", 0]]}
                yield {"tpn": tpn, "ops": [["on", 0, 15], ["t", t], ["on", 3, 15], ["on", 0, 15], ["t", tpn], ["off", 5]]}


PROPERTY = Property(
    "C13",
    "Histories with waits on and around row borders; the CSV text is parsed and every line and column compared with a "
    "model run on the register writes. Non-trivial: events in at least three rows on at least two channels. Enumerated: "
    "all pitches, key fractions, output settings, 300 instruments, first and last events around row borders.",
    [
        Sub("labels", check, enum=labels),
        Sub("crowds", check, enum=songs.crowds),
        Sub("voices", check, enum=songs.voices),
        Sub("histories", check, gen=songs.scored(lengths=st.one_of(
            st.sampled_from([1, 2, 3, 64, 735, 1000, 1500]), st.integers(1, 9000), st.integers(1, 9000),
            st.integers(9000, 2_000_000))), quick=4000, thorough=100000),
        Sub("loops", check, gen=songs.loops(), quick=500, thorough=20000),
        Sub("shown", check_shown, gen=shown(), quick=200, thorough=4000),
        Sub("fuzz", check, fuzz=songs.FUZZ, quick=3000, thorough=300000),
    ],
    ["the spelling of a label is compared up to blanks", "the fraction is compared to two decimals",
     "a key fraction of 1/64 of a semitone is not shown"],
)
