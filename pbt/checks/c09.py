"""C09: placement of events in the Renoise song."""
from .. import chip, fuzz, gens, songs, sut, xrnsfmt
from ..core import Property, Sub


@sut.judged
def judge(data, want):
    root, _ = xrnsfmt.load(data)
    rows = [r for d in want.values() for r in d]
    n = max(rows) // 64 + 1 if rows else 0
    sut.same(len(xrnsfmt.patterns(root)), n, "number of patterns")
    sut.same(xrnsfmt.sequence(root), list(range(n)), "pattern sequence")
    xrnsfmt.same_cells(xrnsfmt.cells(root), want)
    return rows, n


def check(case):
    prims = songs.prims_of(case)
    s = sut.fresh()
    with sut.running("exporting a song"):
        for st_, ref in songs.stages(s, prims, case.get("early")):
            for length in songs.lengths_of(case):
                data = songs.export_xrns(s, st_, length)
                want = xrnsfmt.expected_cells(ref.events, length)
                rows, n = judge(data, want)
    lab = ["exported on the way too"] if case.get("early") else []
    lab += ["exported with several row lengths"] if case.get("also") else []
    total = sum(len(e) for e in ref.events)
    if len(rows) < total:
        lab.append("several events in a row")
    if n >= 2:
        lab.append("several patterns")
    if n > 100:
        lab.append("over 100 patterns")
    if any(r % 64 in (0, 63) for r in rows if r):
        lab.append("event in a pattern's first or last row")
    if sum(1 for d in want.values() if d) >= 2:
        lab.append("several channels")
    if n >= 2 and total >= 4:
        lab.append("nontrivial")
    return lab


def borders(tier):
    """Every row border of the first patterns: an event one sample before, on, and after it."""
    for tpn in (1, 2, 7, 1000, 44100):
        for row in list(range(1, 5)) + [31, 32, 62, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 257, 640]:
            for d in (-1, 0, 1):
                t = max(0, row * tpn + d)
                yield {"tpn": tpn, "ops": [["on", 2, 15], ["t", t], ["on", row % 8, 15], ["on", 7, 1], ["off", 7]]}
                yield {"tpn": tpn, "ops": [["t", t], ["off", 0], ["on", 0, 15], ["w", 0x28, 0x4A], ["on", 0, 15]]}
    # very long songs: more patterns than fit in a byte, and far more than fit in a line
    for pats in ((256, 300) if tier == "quick" else (256, 257, 300, 999, 1000, 1001, 2000)):
        yield {"tpn": 1, "rows": 1 << 20, "ops": [["on", 0, 15]] + [o for i in range(pats) for o in (["t", 63], ["off", i % 8], ["t", 1], ["on", i % 8, 15])]}
    for pats in (1001, 1100) if tier == "quick" else (1001, 1100, 4097, 10000):
        yield {"tpn": 2, "rows": 1 << 20, "ops": [["on", 3, 15], ["t", pats * 128 - 1], ["off", 3], ["t", 1], ["on", 0, 15], ["off", 7]]}
    # one song with many row lengths in a row
    every = [["on", 2, 15], ["t", 999], ["off", 2], ["t", 1], ["on", 0, 15], ["t", 64000], ["on", 2, 3], ["t", 1500], ["on", 7, 15]]
    for also in ([[2, 1], [1, 2]], [[1, 2], [1, 4], [1, 8]], [[999, 1000], [1001, 1000]], [[67, 1], [1, 10]], [[1, 1]]):
        yield {"tpn": 1000, "ops": every, "also": also}
        yield {"tpn": 1000, "ops": every, "also": also, "early": [3, 5]}
    # row lengths and times beyond the precision of floating point numbers
    for k in (53, 60, 70):
        t = (1 << k) - 1
        for tpn in ((1 << k), (1 << k) - 1, (1 << (k - 2)) + 1):
            yield {"tpn": tpn, "ops": [["on", 0, 15], ["t", t], ["on", 1, 15], ["t", 1], ["on", 2, 15], ["t", 1], ["off", 3]]}


PROPERTY = Property(
    "C09",
    "Histories with waits on and around row and pattern borders, and music that repeats itself, exported with row lengths from 1 sample to seconds; "
    "the Song.xml is parsed and every cell of every track compared with a model run on the register writes. "
    "Non-trivial: at least four events over at least two patterns. Enumerated: events one sample before, on and after "
    "row borders, songs of hundreds of patterns, times beyond 2^53.",
    [
        Sub("borders", check, enum=borders),
        Sub("crowds", check, enum=songs.crowds),
        Sub("voices", check, enum=songs.voices),
        Sub("histories", check, gen=songs.scored(), quick=4000, thorough=100000),
        Sub("loops", check, gen=songs.loops(), quick=1000, thorough=30000),
        Sub("fuzz", check, fuzz=songs.FUZZ, quick=2000, thorough=150000),
    ],
    ["songs of more than 7680 rows are explored by the enumerated long songs only"],
)
