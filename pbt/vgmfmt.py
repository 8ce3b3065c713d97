"""Independent VGM encoder and reference decoder, written from the VGM format description.

An abstract command is a plain list:
  ["ym", reg, value]          YM2151 write
  ["w16", n]                  wait n samples (0..65535)
  ["w60"] / ["w50"]           735 / 882 samples
  ["w4", n]                   0x7n: n+1 samples
  ["w8", n]                   0x8n: DAC write, then n samples
  ["eos"]
  ["op", id, hex]             any other command with its operand bytes
  ["blk", type, second, len, fill]   data block (contents from fill)
  ["pcm", chip, read, write, len, fill]  PCM RAM write with the data that follows it in this
                              project's reading of the command (see DESIGN.md)
"""
import gzip
import io
import struct
import zlib


def filler(n, fill):
    """n deterministic bytes that look like commands."""
    pat = bytes((fill + 37 * i + (i >> 8)) & 0xFF for i in range(min(n, 4096)))
    if n <= 4096:
        return pat
    return (pat * (n // 4096 + 1))[:n]


# number of operand bytes of the commands that are neither waits, YM2151, EOS nor blocks
OPERANDS = {}
for _i in list(range(0x00, 0x30)) + [0x60, 0x64, 0x65] + list(range(0x69, 0x70)) + list(range(0x96, 0xA0)):
    OPERANDS[_i] = 0
for _i in list(range(0x30, 0x40)) + [0x4F, 0x50, 0x94]:
    OPERANDS[_i] = 1
for _i in list(range(0x40, 0x4F)) + [0x51, 0x52, 0x53] + list(range(0x55, 0x60)) + list(range(0xA0, 0xC0)):
    OPERANDS[_i] = 2
for _i in range(0xC0, 0xE0):
    OPERANDS[_i] = 3
for _i in [0x90, 0x91, 0x95] + list(range(0xE0, 0x100)):
    OPERANDS[_i] = 4
OPERANDS[0x92] = 5
OPERANDS[0x93] = 10

# ids reserved by the format without a documented length do not occur in files (see DESIGN.md)


def encode(c):
    k = c[0]
    if k == "ym":
        return bytes([0x54, c[1], c[2]])
    if k == "w16":
        return struct.pack("<BH", 0x61, c[1])
    if k == "w60":
        return b"\x62"
    if k == "w50":
        return b"\x63"
    if k == "w4":
        return bytes([0x70 + c[1]])
    if k == "w8":
        return bytes([0x80 + c[1]])
    if k == "eos":
        return b"\x66"
    if k == "op":
        return bytes([c[1]]) + bytes.fromhex(c[2])
    if k == "blk":
        return struct.pack("<BBBI", 0x67, 0x66, c[1], c[3] | (0x80000000 if c[2] else 0)) + filler(c[3], c[4])
    if k == "pcm":
        def u24(v):
            return struct.pack("<I", v)[:3]
        return bytes([0x68, 0x66, c[1]]) + u24(c[2]) + u24(c[3]) + u24(c[4]) + filler(c[4], c[5])
    raise ValueError(c)


def expected(c):
    """What reading the command must report."""
    k = c[0]
    if k == "ym":
        return {"id": 0x54, "type": "YM2151", "reg": c[1], "value": c[2]}
    if k in ("w16", "w60", "w50", "w4", "w8"):
        return {"id": encode(c)[0], "type": "WAIT", "samples": wait_of(c)}
    if k == "eos":
        return {"id": 0x66, "type": "EOS"}
    if k == "op":
        return {"id": c[1], "type": None, "payload": c[2]}
    if k == "blk":
        return {"id": 0x67, "type": None, "payload": _digest(filler(c[3], c[4]))}
    if k == "pcm":
        return {"id": 0x68, "type": None, "payload": _digest(filler(c[4], c[5]))}
    raise ValueError(c)


def decode(b):
    """Reference decoder of any bytes: (complete commands as in expected(), the incomplete last command or
    None, the byte after the last command that was judged).  A block whose second byte is not the 0x66 of the
    format is no command; decoding stops in front of it."""
    out, i = [], 0

    def short(c):
        return out, c, len(b)
    while i < len(b):
        k, n = b[i], len(b) - i
        if k == 0x54:
            if n < 3:
                return short({"id": k, "type": "YM2151"})
            out.append({"id": k, "type": "YM2151", "reg": b[i + 1], "value": b[i + 2]})
            i += 3
        elif k == 0x61:
            if n < 3:
                return short({"id": k, "type": "WAIT"})
            out.append({"id": k, "type": "WAIT", "samples": b[i + 1] + 256 * b[i + 2]})
            i += 3
        elif k in (0x62, 0x63) or 0x70 <= k < 0x90:
            out.append({"id": k, "type": "WAIT", "samples": {0x62: 735, 0x63: 882}.get(k, k % 16 + (k < 0x80))})
            i += 1
        elif k == 0x66:
            out.append({"id": k, "type": "EOS"})
            i += 1
        elif k in (0x67, 0x68):
            if n > 1 and b[i + 1] != 0x66:
                return out, None, i
            head = 7 if k == 0x67 else 12
            if n < head:
                return short({"id": k, "type": None, "payload": b""})
            size = int.from_bytes(b[i + 3:i + 7], "little") % (1 << 31) if k == 0x67 else int.from_bytes(b[i + 9:i + 12], "little")
            if n < head + size:
                return short({"id": k, "type": None, "payload": b[i + head:]})
            out.append({"id": k, "type": None, "payload": _digest(b[i + head:i + head + size])})
            i += head + size
        else:
            size = OPERANDS[k]
            if n < 1 + size:
                return short({"id": k, "type": None, "payload": b[i + 1:]})
            out.append({"id": k, "type": None, "payload": b[i + 1:i + 1 + size].hex()})
            i += 1 + size
    return out, None, len(b)


def _digest(b):
    return b.hex() if len(b) <= 64 else f"{len(b)} bytes crc {zlib.crc32(b):08x}"


def observed(cmd):
    """Plain form of a command object, through its public attributes."""
    t = cmd.command_type.name if cmd.command_type is not None else None
    r = {"id": cmd.command_id, "type": t}
    if t == "WAIT":
        r["samples"] = cmd.samples
    elif t == "YM2151":
        r["reg"], r["value"] = cmd.reg, cmd.value
    elif t is None:
        r["payload"] = _digest(bytes(cmd.payload or b""))
    return r


def wait_of(c):
    """Samples that pass during a command."""
    k = c[0]
    return {"w16": lambda: c[1], "w60": lambda: 735, "w50": lambda: 882, "w4": lambda: c[1] + 1,
            "w8": lambda: c[1]}.get(k, lambda: 0)()


def encode_wait(n):
    """n samples as commands: the shortest usual encoding."""
    out = []
    while n > 65535:
        out.append(["w16", 65535])
        n -= 65535
    if n == 735:
        out.append(["w60"])
    elif n == 882:
        out.append(["w50"])
    elif 1 <= n <= 16:
        out.append(["w4", n - 1])
    elif n:
        out.append(["w16", n])
    return out


def stream(cmds):
    return b"".join(encode(c) for c in cmds)


def bcd(version):
    return bytes.fromhex(f"{version:08d}")[::-1]


def header(version=151, ym2413=0, ym2151=3579545, data_start=0x40, eof=None, fill=0, body_len=0, fields=()):
    """VGM header, data_start bytes long; fields: (offset, value) of others that are not used for reading."""
    h = bytearray(filler(data_start, fill) if fill else bytes(data_start))
    if len(h) < (0x38 if version >= 150 else 0x40):
        raise ValueError("header too short")
    h[0:4] = b"Vgm "
    struct.pack_into("<I", h, 4, (data_start + body_len - 4) if eof is None else eof)
    h[8:12] = bcd(version)
    struct.pack_into("<I", h, 0x10, ym2413)
    struct.pack_into("<I", h, 0x30, ym2151)
    if version >= 150:
        struct.pack_into("<I", h, 0x34, data_start - 0x34)
    for at, v in fields:
        struct.pack_into("<I", h, at, v)
    return bytes(h)


def facts(fields, cmds, data_start=0x40):
    """Header fields by offset; ["true", k] stands for what a well-made header says of these commands, looping to the k-th."""
    out = []
    for at, v in fields:
        if at != "true":
            out.append([at, v])
            continue
        stop = next((i + 1 for i, c in enumerate(cmds) if c[0] == "eos"), len(cmds))
        k = v % stop if stop else 0
        end = data_start + len(stream(cmds))
        out += [[0x14, end - 0x14], [0x18, sum(map(wait_of, cmds[:stop])) & 0xFFFFFFFF],
                [0x1C, data_start + len(stream(cmds[:k])) - 0x1C], [0x20, sum(map(wait_of, cmds[k:stop])) & 0xFFFFFFFF]]
    return out


def song(cmds, fields=(), **kw):
    body = stream(cmds)
    return header(body_len=len(body), fields=facts(fields, cmds, kw.get("data_start", 0x40)), **kw) + body


def gz(data, level=9, mtime=0, name=None, extra=None, comment=None, hcrc=False, members=1, pad=0):
    """gzip by hand, so that every optional header field can be present."""
    out = b""
    members = max(1, members)
    step = -(-len(data) // members) if data else 0
    parts = [data[i * step:(i + 1) * step] for i in range(members)]
    if not data:
        parts = [b""]
    for part in parts:
        flg = (4 if extra is not None else 0) | (8 if name is not None else 0) | \
              (16 if comment is not None else 0) | (2 if hcrc else 0)
        h = struct.pack("<BBBBIBB", 0x1F, 0x8B, 8, flg, mtime, 2 if level == 9 else 0, 255)
        if extra is not None:
            h += struct.pack("<H", len(extra)) + extra
        if name is not None:
            h += name + b"\0"
        if comment is not None:
            h += comment + b"\0"
        if hcrc:
            h += struct.pack("<H", zlib.crc32(h) & 0xFFFF)
        c = zlib.compressobj(level, zlib.DEFLATED, -15)
        out += h + c.compress(part) + c.flush() + struct.pack("<II", zlib.crc32(part), len(part) & 0xFFFFFFFF)
    out += bytes(pad)
    assert gzip.decompress(out) == data
    return out


def read_all(sut, data, limit=None):
    """Commands read from the bytes of a file, in plain form."""
    r = sut.core.reader(io.BytesIO(data))
    if r is None:
        return None
    out = []
    limit = len(data) + 10 if limit is None else limit
    for cmd in r:
        out.append(observed(cmd))
        if len(out) > limit:
            from .sut import Violation
            raise Violation("more commands than bytes in the input: reading does not end")
    return out
