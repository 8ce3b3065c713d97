"""C11: the exported document as a whole."""
from hypothesis import strategies as st

from .. import chip, gens, songs, sut, xrnsfmt
from ..core import Property, Sub


def check(case):
    prims = songs.prims_of(case)
    s = sut.fresh()
    with sut.running("exporting a song"):
        for st_, ref in songs.stages(s, prims, case.get("early")):
            for length in songs.lengths_of(case):
                data = songs.export_xrns(s, st_, length)
                pats = judge(s, data, ref, length)
    n = sum(len(e) for e in ref.events)
    lab = ["no event"] if n == 0 else []
    if len(ref.instruments) > 1:
        lab.append("several instruments")
    if n:
        lab.append("nontrivial")
    if len(pats) > 1:
        lab.append("several patterns")
    return lab


@sut.judged
def judge(s, data, ref, tpn):
    root, xml = xrnsfmt.load(data)
    sut.same(root.get("doc_version"), "65", "document version")
    tr = xrnsfmt.tracks(root)
    kinds = ["SequencerTrack"] * 8 + ["SequencerMasterTrack", "SequencerSendTrack"]
    sut.same([t["kind"] for t in tr], kinds, "tracks of the song")
    sut.same([t["type"] for t in tr], kinds, "types of the tracks")
    mixers = {"SequencerTrack": "TrackMixerDevice", "SequencerMasterTrack": "MasterTrackMixerDevice",
              "SequencerSendTrack": "SendTrackMixerDevice"}
    for t in tr:
        sut.same(t["devices"], [mixers[t["kind"]]], f"devices of {t['name']}")
    sut.same(xrnsfmt.instruments(root), ["Instrument"] * len(ref.instruments), "instruments of the song")
    pats = xrnsfmt.patterns(root)
    sut.need(set(xrnsfmt.lengths(root)) <= {64}, "a pattern does not have 64 rows")
    sut.need(xrnsfmt.song_global(root, "ShuffleIsActive") in (None, "false"), "rows are shuffled")
    for i, p in enumerate(pats):
        sut.same([k for k, _ in p], ["PatternTrack"] * 8 + ["PatternMasterTrack", "PatternSendTrack"],
                 f"tracks of pattern {i}")
        for kind, lines in p[8:]:
            sut.need(not lines, lambda: f"notes on {kind}")
    sut.same(xrnsfmt.number(xrnsfmt.song_global(root, "BeatsPerMin")), 60 * 44100 // (4 * tpn), f"tempo for row length {tpn}")
    sut.same(xrnsfmt.song_global(root, "LinesPerBeat"), "4", "lines per beat")
    # references
    for p in xrnsfmt.sequence(root):
        sut.need(p < len(pats), lambda: f"pattern {p} of the sequence does not exist")
    for p in pats:
        for kind, lines in p:
            for _, note, ins, _ in lines:
                if ins is not None:
                    sut.need(int(ins, 16) < len(ref.instruments), lambda: f"instrument {ins} does not exist")
    # the program's own document model reads it back
    with sut.running("reading the exported song back"):
        from xsdata.formats.dataclass.parsers import XmlParser
        XmlParser().from_bytes(xml, s.dao.RenoiseSong)
    return pats


def tempos(tier):
    """Every row length the estimate can give (a part of them in the quick tier) and all divisors of a minute's beats."""
    base = [["on", 0, 15], ["t", 10], ["off", 0]]
    step = 7 if tier == "quick" else 1
    for tpn in range(1, 300):
        yield {"tpn": tpn, "ops": base}
    for tpn in range(1000, 8001, step):
        yield {"tpn": tpn, "ops": base}
    for tpn in range(1, 661501):
        if 661500 % tpn == 0:
            for d in (-1, 0, 1):
                if tpn + d > 0:
                    yield {"tpn": tpn + d, "ops": []}
    for n in (0, 1, 2, 9, 10, 16, 17, 255, 256, 300):
        yield {"tpn": 1000, "ops": [o for i in range(n) for o in (["w", 0x18, i & 255], ["w", 0x1B, i >> 8], ["on", 1, 15])]}
    yield {"tpn": 1000, "ops": [o for i in range(1100) for o in (["w", 0x18, i & 255], ["w", 0x60, i >> 8], ["on", 0, 15])]}
    for row in (0, 1, 62, 63, 64, 65, 127, 128, 191, 192, 1000, 64 * 255, 64 * 256, 64 * 1000 + 1):
        yield {"tpn": 1, "rows": 1 << 20, "ops": [["on", 0, 15], ["t", row], ["on", 3, 15]]}
    for ops in ([], [["off", 0]], [["t", 100000]], [["w", 0x20, 0xC0]]):
        yield {"tpn": 1000, "ops": ops}


PROPERTY = Property(
    "C11",
    "Exported songs of generated histories, parsed as zip and XML, checked for all required parts, the tempo rule in "
    "integer arithmetic, and that referenced instruments and patterns exist. Non-trivial: the song has events. "
    "Enumerated: row lengths 1 to 299, 1000 to 8000 (thorough: each), around each divisor of 661500; 0 to 300 "
    "instruments; last events around pattern borders; songs without notes.",
    [
        Sub("tempos", check, enum=tempos),
        Sub("crowds", check, enum=songs.crowds),
        Sub("histories", check, gen=songs.scored(), quick=2500, thorough=60000),
    ],
    ["a tempo outside Renoise's own limits (from a given row length out of range) is not judged"],
)
