"""C08: instrument JSON."""
import json
import os
import tempfile

from hypothesis import strategies as st

from .. import chip, fuzz, gens, songs, sut
from ..core import Property, Sub

WAVES = {"SAW": 0, "SQUARE": 1, "TRIANGLE": 2, "NOISE": 3}
BITS = {"MOD1": 1, "CAR1": 2, "MOD2": 4, "CAR2": 8}
OPKEYS = {"tl": "total_level", "ar": "attack_rate", "d1r": "first_decay_rate", "d1l": "first_decay_level",
          "d2r": "second_decay_rate", "rr": "release_rate", "ks": "key_scale", "mul": "multiply",
          "dt1": "first_detune", "dt2": "second_detune", "ase": "ase"}
CHKEYS = {"feedback": "fb", "connection": "connection", "ams": "ams", "pms": "pms", "noise": "noise",
          "noise_freq": "noise_freq"}
# register slots of a channel are M1, M2, C1, C2
SLOTS = ("m1", "m2", "c1", "c2")


def strict(text):
    """Strict JSON: no NaN, no duplicate keys, one value."""
    def pairs(ps):
        d = dict(ps)
        sut.need(len(d) == len(ps), f"duplicate keys in {ps}")
        return d

    def bad(c):
        raise sut.Violation(f"not JSON: {c}")
    try:
        return json.loads(text, object_pairs_hook=pairs, parse_constant=bad)
    except ValueError as e:
        raise sut.Violation(f"the instrument file is not valid JSON: {e}")


def read_back(entry):
    """The patch an entry describes, in the form of the model."""
    try:
        base = {"lfo": entry["base"]["lfo"], "amp_md": entry["base"]["amp_md"], "phs_md": entry["base"]["phs_md"],
                "waveform": WAVES[entry["base"]["waveform"]]}
        names = entry["operators"].split("|")
        sut.need(len(names) == len(set(names)), f"operator named twice: {names}")
        ops = sum(BITS[n] for n in names)
        c = entry["channel"]
        d = {v: c[k] for k, v in CHKEYS.items()}
        d["operators"] = [{v: c[slot][k] for k, v in OPKEYS.items()} for slot in SLOTS]
    except (KeyError, TypeError, AttributeError) as e:
        raise sut.Violation(f"an instrument entry lacks part of the patch: {type(e).__name__} {e}: {str(entry)[:300]}")
    return {"base": base, "ops": ops, "channel": d}


@sut.judged
def judge(text, want, what="instrument file"):
    got = strict(text.decode("utf-8") if isinstance(text, bytes) else text)
    sut.need(isinstance(got, list), f"{what}: not an array")
    sut.same(len(got), len(want), f"{what}: number of instruments")
    sut.same([e.get("id") for e in got], list(range(len(want))), f"{what}: ids")
    for i, (e, w) in enumerate(zip(got, want)):
        r = read_back(e)
        sut.same(r, w, f"{what}: instrument {i}")
        for path, v in leaves(r):
            sut.need(type(v) is (bool if path in ("noise", "ase") else int), f"{what}: {path} is written as {v!r}")


def leaves(d):
    for k, v in (d.items() if isinstance(d, dict) else ((str(i), x) for i, x in enumerate(d))):
        if isinstance(v, (dict, list)):
            yield from leaves(v)
        else:
            yield k, v


def check(case):
    prims = gens.expand(case["ops"])
    s = sut.fresh()
    fd, path = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        with sut.running("writing the instrument file"):
            for st_, ref in songs.stages(s, prims, case.get("early")):
                want = ref.instruments
                s.extractors.extract_instruments(path, st_)
                with open(path, encoding="utf-8") as f:
                    text = f.read()
                judge(text, want)
    finally:
        os.unlink(path)
    lab = []
    n = len(want)
    lab.append("no instrument" if n == 0 else "one instrument" if n == 1 else "2 to 9 instruments" if n < 10 else "10 or more")
    if any(i["channel"]["operators"][1] != i["channel"]["operators"][2] for i in want):
        lab.append("m2 differs from c1")
    if any(i["channel"]["noise"] for i in want):
        lab.append("noise")
    if len({i["ops"] for i in want}) > 1:
        lab.append("different operator masks")
    if n >= 2 and any(len({json.dumps(o, sort_keys=True) for o in i["channel"]["operators"]}) > 1 for i in want):
        lab.append("nontrivial")
    return lab


def histories():
    return st.fixed_dictionaries({"ops": gens.program(60), "early": songs.EARLY})


def patches():
    """Fully random patches, every register of a channel written."""
    def regs(ch):
        return [r + ch for r in gens.CHREG] + [r + 8 * i + ch for r in gens.OPREG for i in range(4)] + \
            [0x0F, 0x18, 0x19, 0x1B]

    def one(t):
        ch, data, second, mask = t
        rs = regs(ch)
        return [["w", r, b] for r, b in zip(rs, data)] + [["w", 0x19, second]] + [["on", ch, mask]]
    patch = st.tuples(st.integers(0, 7), st.binary(min_size=32, max_size=32), gens.byte, st.integers(1, 15)).map(one)
    return st.fixed_dictionaries({"ops": st.lists(patch, min_size=1, max_size=12).map(lambda ps: [o for p in ps for o in p])})


def each_field(tier):
    """One non-zero field at a time, every bit of it; every operator mask; many instruments."""
    for ch in (0, 5, 7):
        for reg in sorted([r + ch for r in gens.CHREG] + [r + 8 * i + ch for r in gens.OPREG for i in range(4)] + gens.GLOBAL):
            ops = []
            for bit in range(8):
                ops += [["w", reg, 1 << bit], ["on", ch, 15]]
            ops += [["w", reg, 255], ["on", ch, 15], ["w", reg, 0], ["on", ch, 15]]
            yield {"ops": ops}
    yield {"ops": []}
    yield {"ops": [["on", 0, m] for m in range(1, 16)]}
    for n in (11, 256, 300, 1100, 2100):
        yield {"ops": [o for i in range(n) for o in (["w", 0x18, i & 255], ["w", 0x60, i >> 8], ["on", 0, 15])]}


def from_bytes(data):
    return {"ops": fuzz.history(data)}


PROPERTY = Property(
    "C08",
    "Histories and fully random patches; the written file is parsed as strict JSON and every patch is read back from "
    "its entry and compared with a model run on the register writes. Non-trivial: at least two instruments, and one "
    "whose four operators are not all alike. Enumerated: every bit of every field alone, every combination of fields that are all zero or all ones, all operator masks, 0 to 2100 "
    "instruments.",
    [
        Sub("fields", check, enum=each_field),
        Sub("extremes", check, enum=songs.extremes),
        Sub("patches", check, gen=patches(), quick=2000, thorough=60000),
        Sub("histories", check, gen=histories(), quick=2500, thorough=80000),
        Sub("fuzz", check, fuzz=(from_bytes, [fuzz.SONG]), quick=3000, thorough=300000),
    ],
    ["the names of the JSON keys are those of the unchanged tree",
     "the operator registers of a channel hold M1, M2, C1, C2 in this order (YM2151 manual)"],
)
