"""Histories whose times matter in rows: used by the exports."""
import os
import tempfile

from hypothesis import strategies as st

from . import chip, fuzz, gens

MAXROWS = 64 * 120


def row_lengths():
    return st.one_of(st.sampled_from([1, 2, 3, 63, 64, 100, 735, 882, 1000, 1470, 1500, 3000, 7999, 8000, 44100]),
                     st.integers(1, 9000), st.integers(1, 2_000_000))


def scored(max_ops=45, lengths=None):
    """{"tpn", "ops"}: waits lie on, just before and just after row and pattern borders."""
    def waits(tpn):
        near = st.sampled_from([0, 1, 2, 3, 32, 62, 63, 64, 65, 127, 128, 640]).flatmap(
            lambda k: st.sampled_from([-1, 0, 0, 1]).map(lambda d: max(0, k * tpn + d)))
        return st.one_of(near, near, st.integers(0, 2 * tpn), st.integers(0, 70 * tpn))

    def build(tpn):
        return st.fixed_dictionaries({"tpn": st.just(tpn), "ops": gens.program(max_ops, w=waits(tpn)), "early": EARLY, "also": ALSO})
    return (row_lengths() if lengths is None else lengths).flatmap(build)


def loops():
    """Music that repeats itself, pattern by pattern or not quite so."""
    def build(tpn):
        w = st.one_of(st.sampled_from([0, 1, 2, 8, 16, 32]).map(lambda k: k * tpn), st.integers(0, 3 * tpn))
        every = st.sampled_from([["all", 15], ["all", 15], ["all", 0], ["all", 6]])
        inner = st.tuples(st.lists(every, max_size=2), gens.program(10, w=w, sweeps=False), st.lists(every, max_size=1)).map(
            lambda t: [list(o) for o in t[0]] + t[1] + [list(o) for o in t[2]])
        period = st.sampled_from([64, 64, 64, 128, 32, 63]).map(lambda k: k * tpn)
        loop = st.tuples(st.just("loop"), st.integers(1, 6), period, inner).map(list)
        ops = st.tuples(gens.program(4, w=w), loop, st.one_of(st.just([]), st.just([]), loop.map(lambda x: [x])), gens.program(6, w=w)).map(
            lambda t: t[0] + [t[1]] + t[2] + t[3])
        return st.fixed_dictionaries({"tpn": st.just(tpn), "ops": ops, "early": EARLY, "also": ALSO})
    return st.one_of(st.sampled_from([1, 3, 100, 735, 1000]), st.integers(1, 3000)).flatmap(build)


TPNS = (1000, 1, 2, 3, 63, 64, 735, 882, 1470, 7999, 44100)


def from_bytes(data):
    """For the fuzzer: the first byte chooses the row length, waits are in quarters of a row."""
    tpn = TPNS[data[0] % len(TPNS)] if data else 1000
    return {"tpn": tpn, "ops": fuzz.history(data[1:], lambda n: n % 4096 * tpn // 4 + n // 4096 % 3)}


FUZZ = (from_bytes, [b"\0" + fuzz.SONG, b"\1" + fuzz.SONG])


def prims_of(case):
    """Primitive steps, with waits clipped so that the song stays within MAXROWS rows (unless it is meant to be long)."""
    out = []
    left = case.get("rows", MAXROWS) * case["tpn"]
    for p in gens.expand(case["ops"]):
        if p[0] == "t":
            n = min(p[1], left)
            left -= n
            p = ["t", n]
        out.append(p)
    return out


def export_xrns(s, st_, tpn):
    fd, path = tempfile.mkstemp(suffix=".xrns")
    os.close(fd)
    try:
        s.extractors.extract_tracks_to_xrns(st_, path, tpn)
        with open(path, "rb") as f:
            return f.read()
    finally:
        if os.path.exists(path):
            os.unlink(path)


def export_text(fn, *args):
    """Text written by one of the exporters; the name comes first or second, see the callers."""
    fd, path = tempfile.mkstemp(suffix=".txt")
    os.close(fd)
    try:
        fn(path, *args)
        with open(path, encoding="utf-8", newline="") as f:
            return f.read()
    finally:
        if os.path.exists(path):
            os.unlink(path)


def stages(s, prims, early=()):
    """The song at some points on its way and at its end: (state, model) each."""
    st_, ref, done = s.state.State(), chip.Chip(), 0
    for k in sorted({k % (len(prims) + 1) for k in early or ()} - {len(prims)}) + [len(prims)]:
        chip.feed(s, st_, prims[done:k])
        ref.run(prims[done:k])
        done = k
        yield st_, ref


def extremes(tier):
    """Patches whose fields are all zero or all ones, in every combination of the eleven fields of an operator and of
    the ten of the base and the channel: what is lost only when several fields are at an end at once."""
    slot = ((0x40, 0x70), (0x40, 0x0F), (0x60, 0x7F), (0x80, 0xC0), (0x80, 0x1F), (0xA0, 0x80), (0xA0, 0x1F), (0xC0, 0xC0), (0xC0, 0x1F),
            (0xE0, 0xF0), (0xE0, 0x0F))
    whole = ((0x20, 0x38), (0x20, 0x07), (0x38, 0x70), (0x38, 0x03), (0x0F, 0x80), (0x0F, 0x1F), (0x18, 0xFF), (0x1B, 0x03))
    for part in range(16):
        ops, ch = [], 7
        for k in range(part, 2048, 16):
            for i, n in enumerate((k, k * 5 + 1, k * 9 + 3, k * 13 + 7)):
                for reg in (0x40, 0x60, 0x80, 0xA0, 0xC0, 0xE0):
                    ops.append(["w", reg + 8 * i + ch, sum(m for b, (r, m) in enumerate(slot) if r == reg and n >> b & 1)])
            n = k * 7 + 5
            for reg in (0x20, 0x38, 0x0F, 0x18, 0x1B):
                ops.append(["w", reg + (ch if reg in (0x20, 0x38) else 0), sum(m for b, (r, m) in enumerate(whole) if r == reg and n >> b & 1)])
            ops += [["w", 0x19, 0x7F * (n >> 8 & 1)], ["w", 0x19, 0x80 + 0x7F * (n >> 9 & 1)], ["on", ch, 1 + k % 15]]
        yield {"ops": ops}


def voices(tier):
    """Whatever sounds, or does not: every value of the key register on every channel over several settings of the
    channel, and every register before a key-on of its channel."""
    for ch in range(8):
        own = [r for r in range(256) if r != 8 and (r < 0x20 or r & 7 == ch)]
        out = [["w", 0x20 + ch, 0xC0], ["w", 0x28 + ch, 0x4A]]
        for before in ([], out, [["w", r, 0xFF] for r in own], [["w", r, 0] for r in own], [["w", r, 0x55] for r in own], out + [["w", 0x0F, 0x9F]],
                       out[1:] + [["w", 0x20 + ch, 0x47]], out[1:] + [["w", 0x20 + ch, 0x87], ["w", 0x0F, 0x80]],
                       out + [["w", 0x60 + 8 * i + ch, 0x7F] for i in range(4)], out + [["w", 0x19, 0xFF], ["w", 0x18, 0xFF], ["w", 0x38 + ch, 0xFF]]):
            yield {"tpn": 10, "ops": before + [o for v in list(range(32)) + [31, 0, 16, 0] for o in (["w", 8, v << 3 | ch], ["t", 10], ["off", ch], ["t", 15])]}
    for v in (0, 0x55, 0xFF):
        for w in (0xFF, 0x3C):
            yield {"tpn": 10, "ops": [o for r in range(256) if r != 8 for o in (
                ["w", r, v], ["on", r & 7, 15 - r % 3 * 7], ["t", 12], ["off", r & 7], ["t", 13], ["w", r, v ^ w])]}


def crowds(tier):
    """Thousands of events on a channel, in one row, and on all channels."""
    for n in (5000,) if tier == "quick" else (5000, 17000, 70000):
        for ch, wait in ((6, 3), (0, 1)):
            yield {"tpn": 7, "rows": 1 << 20, "ops": [o for i in range(n) for o in (
                ["w", 0x28 + ch, i * 5 % 128], ["on", ch, 15] if i % 3 else ["off", ch], ["t", wait])]}
        yield {"tpn": 1000, "ops": [["on", 5, 15]] + [o for i in range(n) for o in (["off", 2 + i % 2 * 3], ["w", 0x2A + i % 2 * 3, i % 128], ["on", 2 + i % 2 * 3, 15])] +
               [["t", 999], ["off", 2], ["t", 1], ["on", 5, 15]]}
        yield {"tpn": 20, "rows": 1 << 20, "ops": [["w", 0x20 + c, 0xC0 - 0x40 * (c % 3)] for c in range(8)] + [o for i in range(n) for o in (
            ["w", 0x28 + i * 3 % 8, i * 7 % 128], ["on", i * 3 % 8, 1 + i // 9 % 15], ["t", i % 11])]}


def lengths_of(case):
    """The row lengths for which the song is exported, one after the other: its own, and others, and its own again."""
    return [case["tpn"]] + ([max(1, case["tpn"] * n // d) for n, d in case["also"]] + [case["tpn"]] if case.get("also") else [])


ALSO = st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.sampled_from([(2, 1), (1, 2), (3, 2), (64, 1), (7, 8), (1, 1)]).map(list), min_size=1, max_size=2))
EARLY = st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.integers(0, 80), min_size=1, max_size=2))


def feed(s, prims):
    return chip.feed(s, s.state.State(), prims)
