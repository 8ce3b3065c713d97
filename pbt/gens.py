"""Hypothesis strategies for register histories, songs and files.  All cases are plain JSON."""
from hypothesis import strategies as st

from . import vgmfmt

byte = st.integers(0, 255)
EDGE = [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 191, 192, 240, 248, 254, 255]
value = st.one_of(byte, st.sampled_from(EDGE))

GLOBAL = [0x0F, 0x18, 0x19, 0x1B]
CHREG = [0x20, 0x28, 0x30, 0x38]
OPREG = [0x40, 0x60, 0x80, 0xA0, 0xC0, 0xE0]


def chan_reg(ch):
    """A register that concerns channel ch."""
    return st.one_of(
        st.sampled_from(CHREG).map(lambda r: r + ch),
        st.tuples(st.sampled_from(OPREG), st.integers(0, 3)).map(lambda t: t[0] + 8 * t[1] + ch),
        st.sampled_from(GLOBAL),
    )


wait = st.one_of(
    st.sampled_from([0, 1, 2, 15, 16, 17, 255, 256, 735, 882, 999, 1000, 4410, 6300, 7999, 8000, 65535, 65536]),
    st.integers(0, 3000),
    st.integers(0, 200000),
)


def _op(chs, vals, w):
    ch = st.sampled_from(chs)
    v = st.one_of(st.sampled_from(vals), value)
    vs = st.sampled_from(vals)
    write = ch.flatmap(lambda c: st.tuples(st.just("w"), chan_reg(c), st.one_of(vs, vs, v)))
    anyw = st.tuples(st.just("w"), byte.filter(lambda r: r != 8), byte)
    mask = st.one_of(st.just(15), st.integers(1, 15))
    on = st.tuples(st.just("on"), ch, mask)
    off = st.tuples(st.just("off"), ch)
    rawkey = st.tuples(st.just("w"), st.just(8), byte)
    t = st.tuples(st.just("t"), w)
    kc = st.tuples(st.just("w"), ch.map(lambda c: 0x28 + c), byte)
    pan = st.tuples(st.just("w"), ch.map(lambda c: 0x20 + c), st.sampled_from([0, 0x40, 0x80, 0xC0, 0xC7, 0x47, 0x87]))
    return st.one_of(write, write, write, on, on, on, off, t, t, t, kc, pan, anyw, rawkey)


def sweep(chs, w):
    """Many instruments or notes from few choices: ["sweep", reg, start, step, count, ch, mask, wait]."""
    return st.sampled_from(chs).flatmap(lambda c: st.tuples(
        st.just("sweep"), chan_reg(c), byte, st.sampled_from([0, 1, 1, 3, 16, 64]),
        st.integers(2, 40), st.just(c), st.integers(0, 15), w))


def program(max_ops=40, w=wait, sweeps=True, min_ops=0):
    """A register history (list of ops, see expand)."""

    def build(t):
        chs, vals = t
        op = _op(chs, vals, w)
        if sweeps:
            op = st.one_of(op, op, op, op, op, op, op, op, op, op, op, op, op, op, op, sweep(chs, w))
        # Hypothesis lists are short on average; a drawn lower bound gives long histories too
        lows = [n for n in (0, 6, 15, 30, 60) if min_ops + n <= max_ops]
        return st.sampled_from(lows).flatmap(
            lambda low: st.lists(op.map(list), min_size=min_ops + low, max_size=max_ops))

    return st.tuples(st.lists(st.integers(0, 7), min_size=1, max_size=3),
                     st.lists(value, min_size=1, max_size=3)).flatmap(build)


def expand(ops):
    """Primitive steps: ["w", reg, value] and ["t", samples]."""
    out = []
    for o in ops:
        k = o[0]
        if k in ("w", "t"):
            out.append(list(o))
        elif k == "on":
            out.append(["w", 8, (o[2] << 3) | o[1]])
        elif k == "off":
            out.append(["w", 8, o[1]])
        elif k == "sweep":
            _, reg, start, step, count, ch, mask, w = o
            for i in range(count):
                out.append(["w", reg, (start + i * step) & 255])
                out.append(["w", 8, ((mask or 15) << 3) | ch])
                if w:
                    out.append(["t", w])
                if mask == 0:
                    out.append(["w", 8, ch])
        elif k == "all":
            out += [["w", 8, (o[1] << 3) | ch] for ch in range(8)]
        elif k == "loop":       # the same again and again, each time filling a whole number of periods
            _, times, period, inner = o
            part = expand(inner)
            used = sum(p[1] for p in part if p[0] == "t")
            for _ in range(times):
                out += [list(p) for p in part] + [["t", -used % period]]
        else:
            raise ValueError(o)
    return out


def history_labels(prims):
    """Classes of a history."""
    keys = [p for p in prims if p[0] == "w" and p[1] == 8]
    ons = [p for p in keys if p[2] & 0x78]
    offs = len(keys) - len(ons)
    writes = len([p for p in prims if p[0] == "w"]) - len(keys)
    lab = []
    if ons:
        lab.append("key-on")
    if offs and ons:
        lab.append("key-off")
    if len({p[2] & 7 for p in ons}) > 1:
        lab.append("several channels")
    if any(p[0] == "t" and p[1] for p in prims):
        lab.append("time passes")
    seen = 0
    for p in prims:  # a write between two key-ons
        if p[0] == "w" and p[1] == 8 and p[2] & 0x78:
            if seen == 2:
                lab.append("write between key-ons")
                break
            seen = 1
        elif p[0] == "w" and p[1] != 8 and seen == 1:
            seen = 2
    if writes > 50:
        lab.append("over 50 writes")
    return lab


# -- VGM commands ------------------------------------------------------------------------------

LENGTHS = st.one_of(st.integers(0, 40), st.sampled_from([0, 1, 255, 256, 257, 511, 4095, 4096, 65535, 65536, 65537]),
                    st.integers(0, 3000))


def other_op():
    return st.sampled_from(sorted(vgmfmt.OPERANDS)).flatmap(
        lambda i: st.tuples(st.just("op"), st.just(i),
                            st.binary(min_size=vgmfmt.OPERANDS[i], max_size=vgmfmt.OPERANDS[i]).map(bytes.hex)))


def small_len(m):
    return st.integers(0, m)


def block(lengths=LENGTHS):
    return st.tuples(st.just("blk"), byte, st.booleans(), lengths, byte)


def pcm(lengths=LENGTHS):
    return st.tuples(st.just("pcm"), byte, st.integers(0, 0xFFFFFF), st.integers(0, 0xFFFFFF),
                     lengths.map(lambda n: n), byte)


def wait_cmd():
    return st.one_of(
        st.tuples(st.just("w16"), st.one_of(st.integers(0, 65535), st.sampled_from([0, 1, 255, 256, 0x6654, 65535]))),
        st.just(("w60",)), st.just(("w50",)),
        st.tuples(st.just("w4"), st.integers(0, 15)),
        st.tuples(st.just("w8"), st.integers(0, 15)))


def command(lengths=LENGTHS, eos=True):
    parts = [st.tuples(st.just("ym"), byte, byte), wait_cmd(), other_op(), other_op(), block(lengths), pcm(lengths)]
    if eos:
        parts.append(st.just(("eos",)))
    return st.one_of(*parts).map(list)


def foreign(lengths=small_len(30)):
    """A command that must not matter to YM2151 extraction: no time passes, no YM2151 write."""
    return st.one_of(other_op(), other_op(), block(lengths), pcm(lengths), st.just(("w8", 0))).map(list)


VERSIONS = st.one_of(st.sampled_from([100, 101, 109, 110, 149, 150, 151, 160, 161, 170, 171, 172]),
                     st.integers(100, 199), st.integers(0, 99999999))


def fields():
    """What a header says besides: GD3 offset, total samples, loop offset, loop samples, rate."""
    v = st.one_of(st.integers(0, 300), st.integers(0, 200000), st.sampled_from([0, 50, 60, 735, 44100, 0xFFFFFFFF]))
    return st.one_of(st.just([]), st.integers(0, 40).map(lambda k: [["true", k]]), st.lists(st.tuples(st.sampled_from([0x14, 0x18, 0x18, 0x1C, 0x20, 0x24]), v).map(list), max_size=5))


def gzopts():
    return st.fixed_dictionaries({
        "level": st.integers(0, 9), "mtime": st.sampled_from([0, 1, 0xFFFFFFFF, 0x20676D56]),
        "name": st.one_of(st.none(), st.sampled_from(["", "a.vgm", "Vgm song.vgz"])),
        "extra": st.one_of(st.none(), st.sampled_from(["", "Vgm \x00\x01"])),
        "comment": st.one_of(st.none(), st.sampled_from(["", "c"])),
        "hcrc": st.booleans(), "members": st.integers(1, 3), "pad": st.sampled_from([0, 0, 0, 1, 512])})


def apply_gz(data, o):
    def enc(x):
        return None if x is None else x.encode("latin1")
    return vgmfmt.gz(data, o["level"], o["mtime"], enc(o["name"]), enc(o["extra"]), enc(o["comment"]),
                     o["hcrc"], o["members"], o.get("pad", 0))


def as_commands(prims):
    """A history as VGM commands in the shortest encoding, ended by the end marker."""
    out = []
    for p in prims:
        if p[0] == "w":
            out.append(["ym", p[1], p[2]])
        else:
            out.extend(vgmfmt.encode_wait(p[1]))
    return out + [["eos"]]
