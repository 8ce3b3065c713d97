"""C10: note, instrument and panning of the cells."""
from hypothesis import strategies as st

from .. import chip, fuzz, gens, songs, sut, xrnsfmt
from ..core import Property, Sub


def check(case):
    prims = songs.prims_of(case)
    tpn = case["tpn"]
    ref = chip.Chip().run(prims)
    want = xrnsfmt.expected_cells(ref.events, tpn)
    s = sut.fresh()
    with sut.running("exporting a song"):
        st_ = songs.feed(s, prims)
        names = [[n.xrns_note() for n in st_.key_presses(c)] for c in range(8)]
        data = songs.export_xrns(s, st_, tpn)
    root, _ = xrnsfmt.load(data)
    for c in range(8):
        for name, e in zip(names[c], ref.events[c]):
            w = xrnsfmt.cell(e)[0]
            if w is not None:
                sut.same(name, w, f"Renoise name of octave {e['octave']} code {e['note']}")
    got = xrnsfmt.cells(root)
    xrnsfmt.same_cells(got, want)
    lab = []
    keyons = [e for es in ref.events for e in es if e["config_id"] >= 0]
    if any(e["note"] == 14 for e in keyons):
        lab.append("code for C")
    if any(e["right"] != e["left"] for e in keyons):
        lab.append("one output only")
    if any(e["config_id"] > 9 for e in keyons):
        lab.append("instrument id above 9")
    if any(e["config_id"] < 0 for es in ref.events for e in es):
        lab.append("key-off")
    if any(e["note"] in (3, 7, 11, 15) for e in keyons):
        lab.append("undefined note code")
    shown = {tuple(v) for d in want.values() for v in d.values() if v[0] != "Off"}
    if len({v[0] for v in shown}) >= 2 and len({v[2] for v in shown}) >= 2:
        lab.append("nontrivial")
    return lab


def notes():
    """Runs of key-ons with pitch, panning and patch drawn per note."""
    # settings that say nothing about pitch, panning or instrument number: noise, LFO, connections, multiples ...
    extra = st.tuples(st.sampled_from([0x0F, 0x0F, 0x18, 0x19, 0x1B, 0x20, 0x27, 0x38, 0x3F, 0x40, 0x47, 0x5F, 0x7F, 0x9F, 0xBF,
                                       0xDF, 0xFF]), gens.byte)
    pitches = st.one_of(gens.byte, st.tuples(st.integers(0, 7), st.sampled_from(xrnsfmt.CODES)).map(lambda t: t[0] * 16 + t[1]))

    def one(t):
        ch, kc, kf, pan, patch, wait, off, mask, other = t
        ops = [["w", *other]] if other else []
        ops += [["w", 0x28 + ch, kc], ["w", 0x30 + ch, kf], ["w", 0x20 + ch, pan], ["w", 0x60 + ch, patch], ["on", ch, mask],
               ["t", wait]]
        return ops + ([["off", ch], ["t", wait]] if off else [])
    note = st.tuples(st.integers(0, 7), pitches, gens.byte, st.sampled_from([0, 0x40, 0x80, 0xC0, 0xC7]),
                     st.integers(0, 127), st.sampled_from([0, 999, 1000, 1500]), st.booleans(),
                     st.one_of(st.just(15), st.integers(1, 15)), st.none() | extra).map(one)
    return st.fixed_dictionaries({"tpn": st.just(1000), "ops": st.lists(note, min_size=1, max_size=20).map(
        lambda ns: [o for n in ns for o in n])})


def tables(tier):
    """Every octave and note code with every output setting, on every channel, with noise too; key-offs; ids 0 to 255."""
    for ch in range(8):
        for pan, noise in ((0, 0), (0x40, 0), (0x80, 0), (0xC0, 0), (0xC0, 0x9F), (0xC7, 0x80)):
            ops = [["w", 0x20 + ch, pan], ["w", 0x0F, noise]]
            for kc in range(128):
                ops += [["w", 0x28 + ch, kc], ["on", ch, 15], ["t", 1000]]
                if kc % 9 == 0:
                    ops += [["off", ch], ["t", 1000]]
            yield {"tpn": 1000, "ops": ops}
    # every pitch with every key fraction, outputs changing
    for ch in range(8):
        yield {"tpn": 10, "rows": 1 << 20, "ops": [o for kc in range(ch, 128, 8) for kf in range(64) for o in (
            ["w", 0x28 + ch, kc], ["w", 0x30 + ch, kf << 2], ["w", 0x20 + ch, (kc + kf) % 4 << 6], ["on", ch, 15], ["t", 10])]}
    # one key event after another, of every kind
    for a in range(0, 16):
        yield {"tpn": 10, "rows": 1 << 20, "ops": [o for ch in range(8) for b in range(16) for pan in range(4) for o in (
            ["w", 0x20 + ch, pan << 6], ["w", 8, a * 8 + ch], ["t", 10], ["w", 8, b * 8 + ch], ["t", 10 * (b % 2)])]}
    ops = []
    for i in range(256):
        ops += [["w", 0x18, i], ["w", 0x1B, i >> 8], ["w", 0x20, 0xC0], ["on", 0, 15], ["t", 10]]
    for i in range(255, -1, -5):
        ops += [["w", 0x18, i], ["w", 0x1B, i >> 8], ["w", 0x20, 0x80], ["on", 0, 15], ["t", 10]]
    yield {"tpn": 10, "ops": ops}


PROPERTY = Property(
    "C10",
    "Histories and runs of notes with drawn pitch, key fraction, output enables and patch; each exported cell is "
    "compared with a model that computes the semitone from the key code. Non-trivial: at least two pitches and two "
    "panning values among the key-on cells. Enumerated: all octaves and codes with all output settings on every "
    "channel, instrument ids up to 255.",
    [
        Sub("tables", check, enum=tables),
        Sub("notes", check, gen=notes(), quick=3000, thorough=80000),
        Sub("voices", check, enum=songs.voices),
        Sub("histories", check, gen=songs.scored(), quick=1500, thorough=40000),
        Sub("fuzz", check, fuzz=songs.FUZZ, quick=1600, thorough=150000),
    ],
    ["the pitch shown for the four note codes the chip leaves undefined is not judged",
     "the two panning markers are the project's own; Renoise's reading of them is not judged (see DESIGN.md)",
     "instrument ids above 255 do not fit the format's two digits and are not judged"],
)
