"""C06: event log."""
from hypothesis import strategies as st

from .. import chip, fuzz, gens, songs, sut
from ..core import Property, Sub


def check_history(case):
    prims = gens.expand(case["ops"])
    s = sut.fresh()
    ref = chip.Chip().run(prims)
    every = case.get("every", 0)
    with sut.running("a song history"):
        st_ = s.state.State()
        if every:       # what has been recorded is looked at while the song goes on
            part = chip.Chip()
            for i, p in enumerate(prims):
                part.run([p])
                chip.feed(s, st_, [p])
                if i % every == 0:
                    sut.same(list(st_.ticks()), sorted(part.beats), f"key-on times after step {i} {p}")
                    sut.same([len(st_.key_presses(c)) for c in range(8)], [len(e) for e in part.events],
                             f"number of events after step {i} {p}")
        else:
            chip.feed(s, st_, prims)
        got = chip.plain_state(st_)
        offs = [[n.config_id < 0 for n in st_.key_presses(c)] for c in range(8)]
    want = ref.observe()
    for ch in range(8):
        strip = lambda es: [{k: v for k, v in e.items() if k != "config_id"} for e in es]
        sut.same(strip(got["events"][ch]), strip(want["events"][ch]), f"events of channel {ch}")
        sut.same(offs[ch], [e["config_id"] < 0 for e in want["events"][ch]], f"key-offs of channel {ch}")
    sut.same(got["ticks"], want["ticks"], "key-on times")
    lab = gens.history_labels(prims)
    n = sum(len(e) for e in want["events"])
    if want["ticks"] and want["ticks"][0] == 0:
        lab.append("key-on at time 0")
    if any(p[0] == "w" and p[1] == 8 and not p[2] & 0x78 for p in prims[:1]):
        lab.append("starts with a key-off")
    if n >= 3 and len(want["ticks"]) >= 2:
        lab.append("nontrivial")
    return lab


def histories():
    return st.fixed_dictionaries({"ops": gens.program(50), "every": st.sampled_from([0, 0, 1, 2, 3, 5, 9, 20])})


def keycodes(tier):
    """Every key code, key fraction and output setting on every channel, recorded and then overwritten."""
    for ch in range(8):
        for base, vals in ((0x28, range(256)), (0x30, range(256)), (0x20, range(256))):
            ops = [["t", 5]]
            for v in vals:
                ops += [["w", base + ch, v], ["on", ch, 15], ["t", 1], ["off", ch], ["w", base + ch, v ^ 0xFF],
                        ["w", base + (ch + 1) % 8, v]]
            yield {"ops": ops}
    # more events than any fixed number, on one channel and on all
    for n in ((5000,) if tier == "quick" else (5000, 70000)):
        yield {"ops": [o for i in range(n) for o in (["on", 5, 15], ["t", 1 + i % 7], ["off", 5])]}
        yield {"ops": [o for i in range(n) for o in (["w", 0x28 + i % 8, i % 128], ["on", i % 8, 15], ["t", i % 3])]}
    for first in ([["off", 0], ["off", 3]], [["t", 0]], [["t", 7], ["off", 1]], []):
        for t in (0, 1, 1 << 16, (1 << 32) + 3, 1 << 40):
            yield {"ops": first + [["on", 0, 15], ["off", 0], ["t", t], ["on", 3, 1], ["t", t], ["off", 3], ["on", 0, 8]]}


def keys(tier):
    """Every succession of two values of the key register; every other write between two events of a channel; every
    key code with every key fraction."""
    for a in range(256):
        yield {"ops": [["on", 0, 15]] + [o for b in range(256) for o in (["w", 8, a], ["t", b % 3], ["w", 8, b], ["t", 1])]}
    for ch in range(8):
        yield {"ops": [o for r in range(256) if r != 8 for v in (0, 0xFF, 0x80 + ch) for o in (
            ["on", ch, 15], ["w", r, v], ["off", ch], ["t", 1], ["w", r, v ^ 0x5A], ["on", ch, 3], ["on", (ch + 1) % 8, 15])]}
        yield {"ops": [o for kc in range(ch, 128, 8) for kf in range(64) for o in (
            ["w", 0x28 + ch, kc], ["w", 0x30 + ch, kf << 2], ["on", ch, 15], ["t", 1])]}


def moments(tier):
    """Key events one sample before, at and after times that mean something: frames, seconds, powers of two and ten."""
    times = {0}
    for k in range(1, 70):
        times |= {1 << k, k * 44100, k * 735, k * 882, k * 441, k * 1000, k * 65535}
    times |= {10 ** k for k in range(1, 20)} | {m * 60 * 44100 for m in (1, 2, 5, 10, 60)}
    times = sorted({t + d for t in times for d in (-1, 0, 1) if t + d >= 0})
    for step in (1, 7) if tier == "quick" else range(1, 9):
        ops, now = [], 0
        for i, t in enumerate(times):
            ops += [["t", t - now]] + ([["off", i * step % 8]] if i % 3 == 2 else [["w", 0x28 + i * step % 8, i % 128], ["on", i * step % 8, 15]])
            if i % 5 == 0:
                ops += [["on", (i + 3) % 8, 3], ["off", (i + 4) % 8]]
            now = t
        yield {"ops": ops}
        yield {"ops": [o if o[0] != "off" else ["on", o[1], 1] for o in ops], "every": 40}


def from_bytes(data):
    return {"ops": fuzz.history(data)}


PROPERTY = Property(
    "C06",
    "Histories of waits, writes and key events over the channels; event lists and key-on times are compared with a "
    "model. Non-trivial: at least three events and two different key-on times. Enumerated: every key code, key "
    "fraction and channel control value on every channel; starts at time 0 and after early key-offs; very long waits; every succession of two key register values; events around "
    "hundreds of special times.",
    [
        Sub("keycodes", check_history, enum=keycodes),
        Sub("keys", check_history, enum=keys),
        Sub("moments", check_history, enum=moments),
        Sub("voices", check_history, enum=songs.voices),
        Sub("histories", check_history, gen=histories(), quick=6000, thorough=150000),
        Sub("fuzz", check_history, fuzz=(from_bytes, [fuzz.SONG]), quick=4000, thorough=500000),
    ],
)
