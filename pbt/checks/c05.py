"""C05: instruments."""
from hypothesis import strategies as st

from .. import chip, fuzz, gens, songs, sut
from ..core import Property, Sub


def check_history(case):
    prims = gens.expand(case["ops"])
    s = sut.fresh()
    ref = chip.Chip()
    with sut.running("a song history"):
        st_ = s.state.State()
        other = s.state.State()
        oprims = gens.expand(case["other"])
        k = 0
        for p in prims:
            n0 = [len(e) for e in ref.events]
            ref.run([p])
            chip.feed(s, st_, [p])
            if k < len(oprims):  # a second song in progress must not disturb the first
                chip.feed(s, other, [oprims[k]])
                k += 1
            if p[0] == "w" and p[1] == 8:
                ch = p[2] & 7
                sut.same(len(st_.configs), len(ref.instruments), f"number of instruments after {p}")
                if p[2] & 0x78:
                    sut.need(len(st_.key_presses(ch)) == n0[ch] + 1, lambda: f"key-on {p} was not recorded once")
                    ident = st_.key_presses(ch)[-1].config_id
                    sut.same(ident, ref.events[ch][-1]["config_id"], f"instrument of key-on {p}")
                    sut.same(chip.plain_instrument(st_.configs[ident]), ref.instruments[ident],
                             f"instrument {ident} at key-on {p}")
        got = chip.plain_state(st_)
    want = ref.observe()
    sut.same(got["instruments"], want["instruments"], "stored instruments at the end")
    for ch in range(8):
        sut.same([e["config_id"] for e in got["events"][ch]], [e["config_id"] for e in want["events"][ch]],
                 f"instrument ids of channel {ch}'s events")
    seen = []
    for c in got["instruments"]:
        sut.need(c not in seen, "two stored instruments are identical")
        seen.append(c)
    lab = gens.history_labels(prims)
    ids = [e["config_id"] for ch in want["events"] for e in ch if e["config_id"] >= 0]
    if len(want["instruments"]) >= 2:
        lab.append("several instruments")
    if len(want["instruments"]) > 16:
        lab.append("over 16 instruments")
    if len(ids) > len(set(ids)):
        lab.append("instrument used again")
    if len(want["instruments"]) >= 2 and len(ids) > len(set(ids)):
        lab.append("nontrivial")
    return lab


def histories():
    return st.fixed_dictionaries({
        "ops": gens.program(50),
        "other": st.one_of(st.just([]), gens.program(15, sweeps=False))})


FIELDS = [(r + 8 * i, m) for i in range(4) for r, ms in
          ((0x40, (0x70, 0x0F)), (0x60, (0x7F,)), (0x80, (0xC0, 0x1F)), (0xA0, (0x80, 0x1F)), (0xC0, (0xC0, 0x1F)),
           (0xE0, (0xF0, 0x0F))) for m in ms] + \
         [(0x20, 0x38), (0x20, 0x07), (0x20, 0xC0), (0x28, 0x7F), (0x30, 0xFC), (0x38, 0x70), (0x38, 0x03)]


def background(ch, value):
    """All registers of a channel and the global ones set to a value (both depths)."""
    return [["w", r, value] for r in (0x18, 0x1B, 0x0F)] + [["w", 0x19, value & 0x7F], ["w", 0x19, value | 0x80]] + \
        [["w", r + ch, value] for r in [0x20, 0x28, 0x30, 0x38] + list(range(0x40, 0x100, 8))]


def one_bit(tier):
    """Patches that differ in one bit, over different backgrounds and with few operators enabled: what a
    listener may not hear (a silent or disabled operator, noise that is off, depth zero) still differs."""
    k = 0
    for value in (0, 0xFF, 0x55) if tier == "quick" else (0, 0xFF, 0x55, 0xAA, 0x0F):
        for mask in (15, 1, 2, 4, 8) if tier == "quick" else range(1, 16):
            for reg, m in FIELDS + [(0x18, 0xFF), (0x1B, 3), (0x0F, 0x9F), (0x19, 0x7F), (0x99, 0x7F)]:
                k += 1
                ch = k % 8
                for bit in range(8):
                    if not m >> bit & 1:
                        continue
                    if reg == 0x99:
                        r, old, new = 0x19, value | 0x80, (value | 0x80) ^ 1 << bit
                    elif reg == 0x19:
                        r, old, new = 0x19, value & 0x7F, (value & 0x7F) ^ 1 << bit
                    else:
                        r, old, new = reg if reg < 0x20 else reg + ch, value, value ^ 1 << bit
                    yield {"ops": background(ch, value) + [["on", ch, mask], ["w", r, new], ["on", ch, mask], ["w", r, old],
                                                           ["on", ch, mask], ["w", r, new], ["on", ch, mask], ["on", ch, 15]],
                           "other": []}


def relatives(tier):
    """Patches made of the same values in other places: operators in every order, fields exchanged."""
    import itertools
    regs = (0x40, 0x60, 0x80, 0xA0, 0xC0, 0xE0)
    for con in range(8):
        for fb in (0, 5):
            for ch in ((con + fb) % 8,) if tier == "quick" else range(8):
                for differing in (regs, (0x60,), (0x40, 0xE0)):
                    ops = background(ch, 0) + [["w", 0x20 + ch, 0xC0 | fb << 3 | con]]
                    for perm in list(itertools.permutations(range(4))) + [(0, 1, 2, 3), (3, 2, 1, 0)]:
                        ops += [["w", r + 8 * slot + ch, 0x11 * (i + 1) + (r >> 5)] for r in differing for slot, i in enumerate(perm)]
                        ops += [["on", ch, 15]] + ([["on", ch, 9], ["on", ch, 6]] if con > 3 else [])
                    yield {"ops": ops, "other": []}
    for ch in range(8):
        for x, y in ((1, 2), (3, 0), (5, 10), (0, 7)):
            ops = background(ch, 0)
            for u, v in ((x, y), (y, x), (x, y), (x, x), (y, y)):
                for w in ([["w", 0x19, u], ["w", 0x19, 0x80 | v]], [["w", 0x18, u], ["w", 0x19, v]], [["w", 0x18, u], ["w", 0x0F, v]],
                          [["w", 0x20 + ch, (u & 7) << 3 | v & 7]], [["w", 0x38 + ch, (u & 7) << 4 | v & 3]],
                          [["w", 0x80 + ch, u], ["w", 0xA0 + ch, v]], [["w", 0xA0 + ch, u], ["w", 0xC0 + ch, v]],
                          [["w", 0xE0 + ch, u << 4 | v]], [["w", 0x40 + ch, (u & 7) << 4 | v]], [["w", 0x60 + ch, u], ["w", 0x68 + ch, v]],
                          [["w", 0x88 + ch, (u & 3) << 6], ["w", 0xC8 + ch, (v & 3) << 6]]):
                    ops += w + [["on", ch, 15]]
            yield {"ops": ops, "other": []}


def extremes(tier):
    for case in songs.extremes(tier):
        yield {**case, "other": []}


def between(tier):
    """Every register, parameter or not, written between two key-ons of a channel, and before one of another channel."""
    for ch in range(8):
        for v in (0x00, 0xFF, 0x2A) if tier == "quick" else (0x00, 0xFF, 0x2A, 0x55, 0x80, 0x01):
            yield {"ops": [o for r in range(256) if r != 8 for o in (
                ["on", ch, 15], ["w", r, v], ["on", ch, 15], ["on", (ch + 3) % 8, 15], ["w", r, v ^ 0x11], ["off", ch], ["on", ch, 15])],
                   "other": []}


def one_field(tier):
    """Patches that differ in one bit of one field (or in none that matters): A, B, A, C, B, A on two channels."""
    def prog(ch, changes):
        ops = [["w", r, 0] for r in (0x18, 0x1B, 0x0F)] + [["w", 0x19, 0], ["w", 0x19, 0x80], ["on", ch, 15]]
        for w in changes:
            ops += [w, ["on", ch, 15], ["t", 100]]
        ops += [["on", 6, 15], ["on", ch, 15], ["on", ch, 7]]
        return {"ops": ops, "other": []}

    for ch in (0, 3, 7) if tier == "quick" else range(8):
        for reg, mask in FIELDS:
            for bit in range(8):
                if mask >> bit & 1:
                    r, b = reg + ch, 1 << bit
                    yield prog(ch, [["w", r, b], ["w", r, 0], ["w", r, b ^ mask], ["w", r, b], ["w", r, 0]])
        for bit in range(8):
            b = 1 << bit
            for reg in (0x18, 0x1B, 0x0F):
                yield prog(ch, [["w", reg, b], ["w", reg, 0], ["w", reg, 255 ^ b], ["w", reg, b], ["w", reg, 0]])
        for half in (0, 0x80):
            for bit in range(7):
                b = half | 1 << bit
                yield prog(ch, [["w", 0x19, b], ["w", 0x19, half], ["w", 0x19, half | 0x7F], ["w", 0x19, b]])
        for m1 in range(1, 16):
            yield {"ops": [["on", ch, m1]] + [["on", c, m2] for m2 in range(1, 16) for c in (ch, 1)] + [["off", ch], ["on", ch, m1]],
                   "other": []}


# every parameter of a patch: register (of channel 0), mask; the two depths share a register
PARTS = [(r, m) for r, m in FIELDS if r not in (0x28, 0x30) and (r, m) != (0x20, 0xC0)] + \
    [(0x18, 0xFF), (0x19, 0x7F), (0x99, 0x7F), (0x1B, 3), (0x0F, 0x80), (0x0F, 0x1F)]


def put(ch, patch):
    """The writes that give a channel a patch {part number: value}; all else is zero."""
    regs = {r: 0 for r, _ in PARTS}
    for k, v in patch.items():
        r, m = PARTS[k]
        regs[r] |= v * (m & -m) & m
    return [["w", 0x19, 0x80 | v] if r == 0x99 else ["w", r if r < 0x20 else r + ch, v] for r, v in regs.items()]


def limit(k):
    m = PARTS[k][1]
    return m // (m & -m)


# values that meet again when two parameters are added up, packed or written side by side
MEETING = (0, 1, 2, 4, 8, 10, 11, 12, 16, 20, 21, 32, 64, 96, 100, 127, 128, 255)


def two_parts(tier):
    """Patches that differ in two parameters at once, for every two: what one has more the other has less."""
    n = len(PARTS)
    for a in range(n):
        near = [b for b in range(n) if b != a] if tier != "quick" else \
            [b for b in range(n) if b != a and (a // 11 == b // 11 or (a * 7 + b * 5) % 4 == 0)]
        for b in near:
            xs = [v for v in (0, 1, 11) if v <= limit(a)]
            ys = [v for v in MEETING if v < limit(b)] + [limit(b)]
            ch = 7 if 0x0F in (PARTS[a][0], PARTS[b][0]) else (a + b) % 8
            ops = []
            for x in xs:
                for y in ys:
                    ops += put(ch, {a: x, b: y}) + [["on", ch, 15]]
            yield {"ops": ops, "other": []}


def many(tier):
    """Hundreds of instruments, revisited afterwards."""
    for n in ((40, 300, 1100) if tier == "quick" else (40, 128, 257, 300, 1100, 2500)):
        for reg in (0x60, 0x18):
            ops = []
            for i in list(range(n)) + list(range(0, n, 7)) + [n - 1, 0]:
                ops += [["w", reg, i % 128], ["w", 0x80, i // 128], ["on", 0, 15]]
            yield {"ops": ops, "other": []}
    for n in ((4200,) if tier == "quick" else (4200, 9000)):
        ops = []
        for i in [*range(n), n - 1, n // 2, 1, 0]:
            ops += [["w", 0x60, i % 128], ["w", 0x80, i // 128 % 32], ["w", 0xA0, i // 4096], ["on", 0, 15]]
        yield {"ops": ops, "other": []}


def from_bytes(data):
    return {"ops": fuzz.history(data), "other": []}


PROPERTY = Property(
    "C05",
    "Histories over few channels and few values (so that patches recur), sweeps producing dozens of instruments, a "
    "second song interleaved; after each key-on the instrument referred to, and at the end all instruments, are "
    "compared with a model. Non-trivial: at least two instruments and one of them used again. Enumerated: pairs of "
    "patches differing in one bit of one field over several backgrounds and operator masks, patches with the same values "
    "in other places (operators in every order, fields exchanged), every combination of fields all zero or all ones, all operator masks, hundreds of instruments revisited.",
    [
        Sub("onefield", check_history, enum=one_field),
        Sub("onebit", check_history, enum=one_bit),
        Sub("relatives", check_history, enum=relatives),
        Sub("extremes", check_history, enum=extremes),
        Sub("between", check_history, enum=between),
        Sub("many", check_history, enum=many),
        Sub("twoparts", check_history, enum=two_parts),
        Sub("histories", check_history, gen=histories(), quick=4000, thorough=100000),
        Sub("fuzz", check_history, fuzz=(from_bytes, [fuzz.SONG]), quick=4000, thorough=400000),
    ],
    ["noise settings belong to channel 8 only, as on the chip"],
)
