"""C04: register writes update exactly the addressed parameters."""
import random

from hypothesis import strategies as st

from .. import chip, fuzz, gens, sut
from ..core import Property, Sub


def setup(pattern):
    if pattern is None:
        return []
    w = [["w", r, pattern] for r in range(256) if r != 8]
    if pattern is not None:
        w += [["w", 0x19, 0x7F & pattern], ["w", 0x19, 0x80 | pattern]]
    return w


def check_single(case):
    """From one background pattern, every value of one register, each followed by its restoration."""
    s = sut.fresh()
    bg = setup(case["pattern"])
    ref = chip.Chip().run(bg)
    with sut.running("register writes"):
        st_ = chip.feed(s, s.state.State(), bg)
        for v in range(256):
            for val in (v, case["back"]):
                p = ["w", case["reg"], val]
                ref.run([p])
                chip.feed(s, st_, [p])
                sut.same(chip.plain_current(st_), ref.current(),
                         f"parameters after background {case['pattern']} and writing {val:#x} to register {case['reg']:#x}")
    return ["nontrivial"]


def singles(tier):
    for reg in range(256):
        for pattern in ((None, 0xFF, 0xAA) if tier == "quick" else (None, 0xFF, 0xAA, 0x55, 0x01, 0x80, 0xC3, 0x3C)):
            for back in ((0x00,) if tier == "quick" else (0x00, 0xFF)):
                yield {"reg": reg, "pattern": pattern, "back": back}


def check_history(case):
    prims = gens.expand(case["ops"])
    s = sut.fresh()
    ref = chip.Chip()
    with sut.running("register writes"):
        st_ = s.state.State()
        sut.same(chip.plain_current(st_), ref.current(), "parameters after reset")
        for i, p in enumerate(prims):
            ref.run([p])
            chip.feed(s, st_, [p])
            if i % case["every"] == 0:
                sut.same(chip.plain_current(st_), ref.current(), f"parameters after step {i} {p}")
        sut.same(chip.plain_current(st_), ref.current(), "parameters at the end")
    lab = gens.history_labels(prims)
    regs = [p[1] for p in prims if p[0] == "w"]
    if len(regs) != len(set(regs)):
        lab.append("register rewritten")
    if len(regs) >= 3:
        lab.append("nontrivial")
    return lab


def check_pairs(case):
    """One register, and right after it each other one: every succession of two writes."""
    s = sut.fresh()
    ref = chip.Chip()
    r = random.Random(case["reg"] * 3 + case["kind"])
    with sut.running("register writes"):
        st_ = s.state.State()
        for reg in range(256):
            a, b = r.randrange(256), r.randrange(256)
            if case["kind"] == 1:
                b = a
            elif case["kind"] == 2:
                a, b = 255 - a | 0x80, b & 0x7F
            pair = [["w", case["reg"], a], ["w", reg, b]]
            ref.run(pair)
            chip.feed(s, st_, pair)
            sut.same(chip.plain_current(st_), ref.current(), f"parameters after {pair}")
    return ["nontrivial"]


def pairs(tier):
    for reg in range(256):
        for kind in range(3):
            yield {"reg": reg, "kind": kind}


def songlike(case):
    """The steps of a long case: writes drawn from few registers and few values, cheaply and by seed."""
    r = random.Random(case["seed"])
    regs = [x for x in range(256) if x != 8] if case["regs"] == 0 else [r.randrange(256) for _ in range(case["regs"])]
    vals = [r.randrange(256) for _ in range(case["vals"])]
    out = [["w", x, r.choice(vals)] for x in regs if x != 8] if case["first"] else []
    for _ in range(case["n"]):
        k = r.randrange(20)
        if k == 0:
            out.append(["w", 8, r.randrange(256)])
        elif k == 1:
            out.append(["t", r.randrange(2000)])
        else:
            out.append(["w", r.choice(regs), r.choice(vals)])
    return out


def check_long(case):
    """Thousands of writes; few values, so that most repeat what was written before somewhere."""
    prims = songlike(case)
    s = sut.fresh()
    ref = chip.Chip()
    with sut.running("register writes"):
        st_ = s.state.State()
        for i, p in enumerate(prims):
            ref.run([p])
            chip.feed(s, st_, [p])
            if i % case["every"] == 0:
                sut.same(chip.plain_current(st_), ref.current(), f"parameters after step {i} {p}")
        sut.same(chip.plain_current(st_), ref.current(), "parameters at the end")
    return ["nontrivial"] + (["every register written before"] if case["first"] and not case["regs"] else [])


def long_histories():
    return st.fixed_dictionaries({
        "seed": st.integers(0, 1 << 30), "regs": st.sampled_from([0, 0, 0, 8, 40, 120]), "vals": st.sampled_from([1, 2, 3, 3, 8, 100]),
        "n": st.sampled_from([50, 300, 1500]), "first": st.booleans(), "every": st.sampled_from([1, 3, 11])})


def histories():
    free = st.lists(st.tuples(st.just("w"), gens.byte, gens.value).map(list), max_size=60)
    return st.fixed_dictionaries({"ops": st.one_of(gens.program(50), free), "every": st.sampled_from([1, 1, 7])})


def from_bytes(data):
    return {"ops": fuzz.history(data), "every": 1}


PROPERTY = Property(
    "C04",
    "Histories of register writes (structured and free), waits and key events; after the steps every parameter of all "
    "channels, operators and the global block is compared with a register-file model that derives fields from the "
    "bytes last written. Non-trivial: at least three writes. Enumerated: every (register, value) pair from several "
    "background states, and every succession of two registers, with the whole state compared each time.",
    [
        Sub("singles", check_single, enum=singles),
        Sub("pairs", check_pairs, enum=pairs),
        Sub("histories", check_history, gen=histories(), quick=2500, thorough=60000),
        Sub("long", check_long, gen=long_histories(), quick=160, thorough=6000),
        Sub("fuzz", check_history, fuzz=(from_bytes, [fuzz.SONG]), quick=1600, thorough=200000),
    ],
    ["bit fields as in the YM2151 register map; registers not listed in DESIGN.md hold no extracted parameter"],
)
