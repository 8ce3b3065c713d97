"""C12: row length estimate."""
import re

from hypothesis import strategies as st

from .. import chip, gens, sut
from ..core import Property, Sub

WINDOW = 32000


def program_of(case):
    """Key-ons at case["ticks"], with the voices, offs and writes of case["style"]."""
    prims, now = [], 0
    style = case["style"]
    for i, t in enumerate(sorted(set(case["ticks"]))):
        if t > now:
            off = style[i % len(style)][2]
            mid = now + (t - now) // 2
            if off and mid > now:
                prims += [["t", mid - now], ["w", 8, off - 1]]
                now = mid
            prims.append(["t", t - now])
            now = t
        chans, patch, _ = style[i % len(style)]
        if patch is not None:
            prims.append(["w", 0x60 + chans[0], patch])
        for c in chans:
            prims.append(["w", 8, 0x78 | c])
    return prims


def estimate(s, prims, progress=False):
    with sut.running("estimating the row length") as out:
        st_ = chip.feed(s, s.state.State(), prims)
        before = list(st_.ticks())
        r = st_.ticks_per_note(show_progress=True) if progress else st_.ticks_per_note()
        shown = re.findall(r"^(\d+): *(-?[\d.]+)%", out.buffer.getvalue().decode("utf-8"), re.M)
        again = st_.ticks_per_note(show_progress=not progress) if len(before) < 12 else r
        sut.same(list(st_.ticks()), before, "key-on times after estimating")
        sut.same(again, r, "estimate when asked again")
        if shown:       # how they are shown is free
            sut.same([int(d) for d, _ in shown], chip.best_row_lengths(before, len(shown)), "the estimates shown")
            share = [float(p) for _, p in shown]
            sut.need(share == sorted(share, reverse=True), lambda: f"the estimates shown are not in order of their shares: {shown}")
    return r


def check_times(case):
    prims = program_of(case)
    s = sut.fresh()
    got = estimate(s, prims, case["progress"])
    ticks = sorted(set(case["ticks"]))
    want = chip.row_length_fast(ticks)
    sut.same(got, want, f"row length for key-ons at {ticks[:40]}")
    lab = []
    inside = [t for t in ticks if t < WINDOW]
    if not ticks:
        lab.append("no key-on")
    if len(inside) < len(ticks):
        lab.append("key-ons beyond the window")
    if want == 7999:
        lab.append("longest length")
    if 1000 < want < 7999:
        lab.append("length inside the range")
    if any(b - a == want for a in inside for b in inside):
        lab.append("aligns some key-ons")
    if len(inside) >= 3 and want > 1000:
        lab.append("nontrivial")
    return lab


def style():
    return st.lists(st.tuples(st.lists(st.integers(0, 7), min_size=1, max_size=3), st.one_of(st.none(), st.integers(0, 127)),
                              st.integers(0, 8)).map(list), min_size=1, max_size=4)


def times():
    free = st.lists(st.integers(0, 40000), max_size=25)

    def grid(t):
        unit, start, marks, jit, extra = t
        out = [start + unit * m for m in marks]
        for i, j in jit:
            if out:
                out[i % len(out)] = max(0, out[i % len(out)] + j)
        return out + extra
    unit = st.one_of(st.integers(900, 8100), st.sampled_from([735, 882, 999, 1000, 1001, 1470, 2205, 4410, 7998, 7999, 8000]),
                     st.integers(100, 1200))
    grids = st.tuples(unit, st.one_of(st.just(0), st.integers(0, 20000)),
                      st.lists(st.integers(0, 40), min_size=1, max_size=25),
                      st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 30), st.integers(-3, 3)), max_size=4)),
                      st.one_of(st.just([]), st.lists(st.one_of(st.integers(0, 40000), st.integers(31990, 32010)), max_size=4))
                      ).map(grid)
    window = st.lists(st.one_of(st.integers(31000, 33000), st.integers(24000, 24010), st.integers(0, 3),
                                st.integers(30990, 31010), st.integers(31995, 32005)), max_size=10)
    return st.one_of(free, grids, grids, grids, window)


def cases():
    return st.fixed_dictionaries({"ticks": times(), "style": style(), "progress": st.booleans()})


def check_definition(case):
    """The reference used everywhere in this check against the definition itself."""
    a, b = chip.row_length(case["ticks"]), chip.row_length_fast(case["ticks"])
    if a != b:
        raise RuntimeError(f"the two reference estimates differ: {a} {b} on {case}")
    return check_times(dict(case, progress=False))


def look_on_the_way(s, prims, early):
    """Estimates asked for before the primitives early (indices taken modulo their number), and at the end, of one state."""
    looks = sorted({e % len(prims) for e in early}) if prims else []
    found = []
    with sut.running("estimating the row length on the way"):
        st_, so_far = s.state.State(), chip.Chip()
        done = 0
        for k in looks + [len(prims)]:
            chip.feed(s, st_, prims[done:k])
            so_far.run(prims[done:k])
            done = k
            now = sorted(so_far.beats)
            found.append(chip.row_length_fast(now))
            sut.same(st_.ticks_per_note(), found[-1],
                     f"row length after {len(found) - 1} looks on the way, for key-ons at {now[:40]}")
    return found


def check_history(case):
    """The estimate at the end of a song, and on the way to it."""
    prims = gens.expand(case["ops"])
    ref = chip.Chip().run(prims)
    ticks = sorted(ref.beats)
    s = sut.fresh()
    sut.same(estimate(s, prims), chip.row_length_fast(ticks), f"row length for key-ons at {ticks[:40]}")
    look_on_the_way(s, prims, case["early"])
    return ["nontrivial"] if len([t for t in ticks if t < WINDOW]) >= 3 else []


def check_looks(case):
    """Key-ons whose spacing changes, with looks before, in and after the change."""
    found = look_on_the_way(sut.fresh(), program_of(case), case["early"])
    changes = len([1 for a, b in zip(found, found[1:]) if a != b])
    return ["nontrivial"] * (changes > 0 and len(found) > 1) + ["changes more than once"] * (changes > 1)


def tempos():
    """Key-ons at one spacing, then at others."""
    def lay(t):
        now, out = t["start"], []
        for spacing, n in t["parts"]:
            for _ in range(n):
                out.append(now)
                now += spacing
        return {"ticks": out, "style": t["style"], "early": t["early"]}
    spacing = st.one_of(st.integers(300, 8100), st.sampled_from([735, 1000, 1470, 2940, 4410, 7999]))
    return st.fixed_dictionaries({
        "start": st.integers(0, 9000), "style": style(), "early": st.lists(st.integers(0, 200), min_size=1, max_size=4),
        "parts": st.lists(st.tuples(spacing, st.integers(1, 8)), min_size=1, max_size=4)}).map(lay)


def even(tier):
    """Evenly spaced key-ons at every (quick: every 23rd) spacing that occurs twice in the window."""
    step = 23 if tier == "quick" else 1
    for d in sorted(set(range(1000, 8000, step)) | {1000, 1001, 7998, 7999}):
        n = (WINDOW - 1) // d + 1
        for start in (0, (WINDOW - 1) - (n - 1) * d):
            yield {"ticks": [start + d * i for i in range(n)], "style": [[[0], None, 0], [[1, 2], 5, 3]], "progress": False,
                   "even": d}
    for t in ([], [0], [999], [1000], [7999], [31999], [32000], [31999, 32000], [0, 1000], [0, 7999], [0, 8000], [0, 31999],
              [1, 32001], list(range(0, 40000, 100)), list(range(0, 32000, 37)), list(range(300))):
        yield {"ticks": t, "style": [[[0], None, 0]], "progress": True}
        yield {"ticks": t, "style": [[[0, 3], 7, 4], [[6], None, 0]], "progress": False}
    # the last sample of the window and the first one after it, the first and the last shift
    for d in (1000, 1001, 1010, 4000, 7998, 7999, 8000):
        for end in (31998, 31999, 32000, 32001):
            for n in (1, 2, 3):
                yield {"ticks": [end - d * i for i in range(n + 1)], "style": [[[0], None, 0]], "progress": False}


def dense(tier):
    """Very many key-ons in the window: a free cluster and the same again, a row later."""
    import random
    for k, (n, length) in enumerate([(300, 2500), (1050, 7500)] if tier == "quick" else
                                    [(300, 2500), (700, 7500), (1000, 5000), (2000, 7600), (400, 1003), (3000, 7999)]):
        r = random.Random(k)
        a = sorted(r.sample(range(length - 100), min(n, length - 100)))
        ticks = a + [x + length for x in a] + ([x + 2 * length for x in a] if n < 1000 else [])
        yield {"ticks": ticks, "style": [[[0], None, 0]], "progress": False, "even": length}


def close():
    """Key-ons without much order, where shifts hardly differ: {"n", "seed", "grid"}."""
    return st.fixed_dictionaries({"n": st.integers(20, 260), "seed": st.integers(0, 1 << 30),
                                  "grid": st.sampled_from([0, 0, 735, 1001, 1470, 2205]), "progress": st.booleans()})


def check_close(case):
    import random
    r = random.Random(case["seed"])
    ticks = r.sample(range(WINDOW + 500), case["n"])
    if case["grid"]:
        ticks += list(range(r.randrange(case["grid"]), WINDOW, case["grid"]))
    return check_times({"ticks": ticks, "style": [[[0], None, 0]], "progress": case["progress"]})


def check_dense(case):
    if chip.row_length_fast(case["ticks"]) != case["even"]:
        raise RuntimeError(f"the dense case of {case['even']} is not what it should be")
    return check_times(case)


def check_even(case):
    lab = check_times(case)
    if "even" in case:
        s = sut.fresh()
        sut.same(estimate(s, program_of(case)), case["even"], "row length of evenly spaced key-ons")
        lab.append("evenly spaced")
    return lab


def voices(tier):
    """Whatever sounds, or does not, a key-on counts: every channel, operator mask and register."""
    def song(before, ch, mask, d):
        return {"ops": [["t", 5]] + before + [o for i in range(9) for o in (["on", ch, mask], ["t", d], ["off", ch], ["t", 6])], "early": []}
    for ch in range(8):
        every = [r for r in range(256) if r != 8 and (r < 0x20 or r & 7 == ch)]
        for mask in range(1, 16):
            for k, before in enumerate(([], [["w", r, 0xFF] for r in every], [["w", r, 0] for r in every], [["w", 0x0F, 0x9F]], [["w", 0x20 + ch, 7]])):
                yield song(before, ch, mask, 1100 + 64 * mask + 7 * ch + k)
    for r in range(256):
        if r != 8:
            for v in (0, 0x55, 0xFF):
                yield song([["w", r, v]], r & 7, 15 - r % 3 * 7, 1200 + 20 * r + v % 7)


PROPERTY = Property(
    "C12",
    "Sets of key-on times (free, on grids with gaps and jitter, around the edges of the 32000-sample window and of the "
    "shift range), played with drawn voices, patches and key-offs; the estimate is compared with a reference computed "
    "from the definition by another method. Non-trivial: at least three key-ons in the window and an estimate above "
    "the minimum. Enumerated: even spacings over the whole range from the first and to the last sample of the window; thousands of key-ons; every channel, operator mask and register before them. Drawn too: hundreds of key-ons at random, where the best shifts differ by a mismatch or two. One state is also asked on the way, before the spacing of its key-ons changes.",
    [
        Sub("even", check_even, enum=even),
        Sub("voices", check_history, enum=voices),
        Sub("dense", check_dense, enum=dense, slow=10),
        Sub("close", check_close, gen=close(), quick=160, thorough=8000, slow=3),
        Sub("times", check_times, gen=cases(), quick=1200, thorough=40000),
        Sub("definition", check_definition, gen=cases(), quick=160, thorough=4000),
        Sub("histories", check_history, gen=st.fixed_dictionaries({"ops": gens.program(30, sweeps=False, w=st.one_of(
            st.integers(0, 4000), st.sampled_from([735, 1000, 1470, 2940]))),
            "early": st.lists(st.integers(0, 100), max_size=3)}), quick=400, thorough=10000),
        Sub("looks", check_looks, gen=tempos(), quick=250, thorough=8000),
    ],
    ["mismatches are counted up to the last key-on of the window, as the unchanged tree does"],
)
