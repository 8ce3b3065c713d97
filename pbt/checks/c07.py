"""C07: only YM2151 writes and elapsed time matter."""
import io

from hypothesis import strategies as st

from .. import chip, gens, sut, vgmfmt
from ..core import Property, Sub


def extract(s, data):
    st_ = s.main.process_vgm_file(s.core.reader(io.BytesIO(data)))
    return chip.plain_state(st_), chip.plain_current(st_)


def check(case):
    prims = [p for o in case["song"] for p in gens.expand(o["op"])]
    a = gens.as_commands(prims)
    # the same song, differently written
    b = []
    for o in case["song"]:
        b += o["before"]
        for p in gens.expand(o["op"]):
            if p[0] == "w":
                b.append(["ym", p[1], p[2]])
            else:
                left = p[1]
                for w in o["waits"]:
                    n = vgmfmt.wait_of(w)
                    if n <= left:
                        b.append(w)
                        left -= n
                b += vgmfmt.encode_wait(left)
    b += case["after"] + [["eos"]]
    plain = vgmfmt.song(a)
    other = vgmfmt.song(b, version=case["version"], data_start=case["start"] if case["version"] >= 150 else 0x40,
                        fields=case.get("fields", ()))
    other += bytes.fromhex(case["trailer"])
    s = sut.fresh()
    with sut.running("extracting a song"):
        got_a, cur_a = extract(s, plain)
        got_b, cur_b = extract(s, other)
    ref = chip.Chip().run(prims)
    sut.same(got_a, ref.observe(), "extraction of the plain song against its register writes and waits")
    sut.same(cur_a, ref.current(), "final parameters of the plain song")
    sut.same(got_b, got_a, "extraction after rewriting the song")
    sut.same(cur_b, cur_a, "final parameters after rewriting the song")
    lab = []
    if case["trailer"]:
        lab.append("bytes after the end")
    if any(o["before"] for o in case["song"]):
        lab.append("foreign commands")
    if any(o["op"][0][0] == "t" and o["waits"] for o in case["song"] if o["op"]):
        lab.append("waits re-encoded")
    if got_a["ticks"]:
        lab.append("key-on")
        if len(lab) >= 3:
            lab.append("nontrivial")
    return lab


def gd3(title):
    t = title.encode("utf-16-le") + b"\0\0"
    body = t * 4 + b"\0\0" * 7
    return b"Gd3 " + b"\0\1\0\0" + len(body).to_bytes(4, "little") + body


def songs():
    w = st.one_of(st.integers(0, 40), st.sampled_from([735, 882, 1470, 4410, 65535, 65536]), st.integers(0, 100000))
    def steps(ops):
        return st.tuples(*[st.fixed_dictionaries({
            "op": st.just([o]),
            "before": st.one_of(st.just([]), st.lists(gens.foreign(), max_size=2)),
            "waits": st.one_of(st.just([]), st.lists(gens.wait_cmd().map(list), max_size=4))}) for o in ops]).map(list)
    trailer = st.one_of(
        st.just(b""),
        st.binary(max_size=40),
        st.text(max_size=12).map(gd3),
        st.text(alphabet="aThgTxb cqp\u0854\u7808\uff54", max_size=12).map(gd3),
        st.lists(gens.command(gens.small_len(5)), max_size=5).map(vgmfmt.stream))
    return st.fixed_dictionaries({
        "song": gens.program(20, w=w).flatmap(steps),
        "after": st.one_of(st.just([]), st.lists(gens.foreign(), max_size=3)),
        "version": gens.VERSIONS, "fields": gens.fields(), "start": st.sampled_from([0x40, 0x80, 0x100]),
        "trailer": trailer.map(bytes.hex)})


def each_foreign(tier):
    """Every foreign command id with operand bytes that look like YM2151 writes and waits, between two key-ons."""
    for i, n in sorted(vgmfmt.OPERANDS.items()):
        for pat in ("5408", "6154", "7f66") if n else ("",):
            c = ["op", i, (bytes.fromhex(pat) * 6)[:n].hex()]
            yield {"song": [{"op": [["w", 0x60, 1]], "before": [], "waits": []},
                            {"op": [["on", 0, 15]], "before": [c], "waits": []},
                            {"op": [["t", 1000]], "before": [c, c], "waits": [["w4", 3], ["w60"]]},
                            {"op": [["on", 1, 15]], "before": [c], "waits": []}],
                   "after": [c], "version": 151, "start": 0x40, "trailer": "5408787f7f54087954"}
    # more foreign commands, and more waits, than any fixed number
    for n in ((1200, 3000) if tier == "quick" else (1200, 3000, 40000, 70000)):
        for c in (["op", 0x52, "5408"], ["op", 0x65, ""], ["op", 0xA4, "0878"], ["blk", 0, False, 3, 0x54], ["w8", 0]):
            yield {"song": [{"op": [["on", 0, 15]], "before": [c] * n, "waits": []},
                            {"op": [["t", 1000]], "before": [c] * n, "waits": []},
                            {"op": [["on", 1, 15]], "before": [], "waits": []}],
                   "after": [c] * n, "version": 151, "start": 0x40, "trailer": ""}
        yield {"song": [{"op": [["on", 0, 15]], "before": [], "waits": []},
                        {"op": [["t", n * 20]], "before": [], "waits": [["w4", 4], ["w8", 15]] * n},
                        {"op": [["on", 1, 15]], "before": [], "waits": []}],
               "after": [], "version": 151, "start": 0x40, "trailer": ""}
    for n in range(16):
        yield {"song": [{"op": [["on", 0, 15]], "before": [], "waits": []},
                        {"op": [["t", 100]], "before": [], "waits": [["w8", n], ["w4", n], ["w8", 15 - n], ["w16", n]]},
                        {"op": [["on", 1, 15]], "before": [], "waits": []}],
               "after": [], "version": 151, "start": 0x40, "trailer": ""}


def check_bytes(case):
    """Any bytes up to an end marker, as a song: what a reference decoder and the model make of them."""
    body = bytes.fromhex(case["hex"])
    cmds, rest, upto = vgmfmt.decode(body)
    ends = [i for i, c in enumerate(cmds) if c["type"] == "EOS"]
    if not ends:
        if rest is not None or upto < len(body):
            return ["no end marker"]
        ends = [len(cmds)]
    prims = [["w", c["reg"], c["value"]] if c["type"] == "YM2151" else ["t", c["samples"]]
             for c in cmds[:ends[0]] if c["type"] in ("YM2151", "WAIT")]
    s = sut.fresh()
    with sut.running("extracting a song"):
        got, cur = extract(s, vgmfmt.header() + body)
    ref = chip.Chip().run(prims)
    sut.same(got, ref.observe(), "extraction of a song against its register writes and waits")
    sut.same(cur, ref.current(), "final parameters")
    lab = ["bytes after the end"] if ends[0] < len(cmds) - 1 or rest is not None or upto < len(body) else []
    if got["ticks"]:
        lab += ["key-on", "nontrivial"]
    return lab


def check_many(case):
    """A key-on between very many commands of one kind, which only take their time."""
    unit, n = bytes.fromhex(case["unit"]), case["times"]
    body = unit * n + b"\x54\x08\x78" + unit * n + b"\x54\x08\x7f\x66"
    s = sut.fresh()
    with sut.running("extracting a long song"):
        got, _ = extract(s, vgmfmt.header() + body)
    ref = chip.Chip().run([["t", n * case["samples"]], ["w", 8, 0x78], ["t", n * case["samples"]], ["w", 8, 0x7F]])
    sut.same(got, ref.observe(), f"extraction of a song with {n} times {case['unit']} before each key-on")
    return ["nontrivial"]


def many(tier):
    for n in (70_000, (1 << 20) + 3) if tier == "quick" else (70_000, (1 << 20) + 3, 5_000_000):
        for unit, samples in (("5000", 0), ("70", 1), ("615408", 0x0854), ("8f", 15), ("548000", 0)):
            yield {"unit": unit, "samples": samples, "times": n}


def from_bytes(data):
    return {"hex": bytes(data).hex()}


def bodies():
    part = st.one_of(
        st.tuples(st.integers(0, 7), st.integers(1, 15)).map(lambda t: bytes([0x54, 8, t[1] * 8 + t[0]])),
        st.tuples(gens.value, gens.byte).map(lambda t: bytes([0x54, t[0], t[1]])),
        gens.command(gens.small_len(12), eos=False).map(vgmfmt.encode),
        st.binary(min_size=1, max_size=4), st.sampled_from([b"\x66", b"\x54", b"\x61"]))
    return st.sampled_from([1, 5, 15]).flatmap(lambda n: st.lists(part, min_size=n, max_size=30)).map(
        lambda ps: {"hex": (b"".join(ps) + b"\x66").hex()})


FUZZ = (from_bytes, [vgmfmt.stream([["ym", 0x60, 3], ["ym", 8, 0x78], ["w16", 1000], c, ["w60"], ["ym", 8, 0], ["w4", 3], ["eos"]])
                     for c in (["w8", 3], ["op", 0x52, "aabb"], ["op", 0xA4, "0878"], ["blk", 0, True, 4, 0x54], ["pcm", 1, 2, 3, 4, 5])])


PROPERTY = Property(
    "C07",
    "A case is a register history with a rewriting: commands of other chips and data blocks inserted, waits split and "
    "re-encoded, arbitrary bytes or GD3 tags after the end marker, other header layout. Oracles: the extraction of "
    "the rewritten song equals that of the plain one, and both equal a model run on the history. Non-trivial: there "
    "is a key-on and at least two of the three kinds of rewriting occur.",
    [
        Sub("foreign", check, enum=each_foreign),
        Sub("many", check_many, enum=many, slow=10),
        Sub("songs", check, gen=songs(), quick=3000, thorough=80000),
        Sub("bytes", check_bytes, gen=bodies(), quick=3000, thorough=80000),
        Sub("fuzz", check_bytes, fuzz=FUZZ, quick=4000, thorough=500000),
    ],
    ["PCM RAM writes carry their data inline (see C01)"],
)
