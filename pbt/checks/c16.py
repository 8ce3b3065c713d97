"""C16: files and standard streams."""
import builtins
import errno
import gc
import gzip
import io
import os
import shutil
import struct
import sys
import tempfile
import zlib

from hypothesis import strategies as st

from .. import chip, gens, songs, sut, vgmfmt
from ..core import Property, Sub
from . import c08, c15


class Boom(Exception):
    pass


# how the user of a stream may fail: an error, an interruption, an exit, an abandoned generator
FAILURES = {"error": Boom, "os": OSError, "stop": StopIteration, "interrupt": KeyboardInterrupt, "exit": SystemExit,
            "closed": GeneratorExit}


def every_failure():
    """{name: how to make one}: every exception the language has, and the system's errors by number."""
    out = dict(FAILURES)
    for name, cls in sorted(vars(builtins).items()):
        if isinstance(cls, type) and issubclass(cls, BaseException):
            try:
                if isinstance(cls("text"), cls):
                    out[name] = cls
            except TypeError:       # those that need more than a text
                pass
    out["UnicodeDecodeError"] = lambda text: UnicodeDecodeError("utf-8", b"x", 0, 1, text)
    out["UnicodeEncodeError"] = lambda text: UnicodeEncodeError("ascii", "x", 0, 1, text)
    for n in (errno.EPIPE, errno.ENOENT, errno.EINTR, errno.ENOSPC, errno.EAGAIN, errno.EIO, errno.EBADF, errno.EINVAL, errno.ECONNRESET):
        out["errno " + errno.errorcode[n]] = lambda text, n=n: OSError(n, text)
    out["exit 0"], out["exit none"] = lambda text: SystemExit(0), lambda text: SystemExit()
    out["zlib"], out["gzip"], out["struct"] = zlib.error, gzip.BadGzipFile, struct.error
    return out


FAILURES = every_failure()


def outcome(thrown, e):
    """How a block ended: with the very failure of its user, or with something else."""
    return "boom" if thrown is not None and e is thrown else type(e).__name__


class Streams:
    """Stand-ins for the standard streams with content of our own."""

    def __init__(self, stdin=b"", pipe=False, encoding="utf-8", piece=37, terminal=False):
        self.kind = c15.Terminal if terminal else io.TextIOWrapper
        self.pipe, self.encoding, self.piece = pipe, encoding, piece
        self.i, self.o, self.e = io.BytesIO(stdin), io.BytesIO(), io.BytesIO()

    def __enter__(self):
        self.old = sys.stdin, sys.stdout, sys.stderr
        below = io.BufferedReader(c15.Pipe(self.i.getvalue(), self.piece), 64) if self.pipe else self.i
        sys.stdin = self.kind(below, encoding=self.encoding, newline="")
        sys.stdout = self.kind(self.o, encoding=self.encoding, newline="")
        sys.stderr = self.kind(self.e, encoding=self.encoding, newline="")
        self.new = sys.stdin, sys.stdout, sys.stderr
        return self

    def __exit__(self, *a):
        sys.stdin, sys.stdout, sys.stderr = self.old

    def check_open(self, what):
        for f, name in zip(self.new, ("input", "output", "error")):
            sut.need(not f.closed and not f.buffer.closed, f"{what}: standard {name} is closed")
            sut.need((sys.stdin, sys.stdout, sys.stderr) == self.new, f"{what}: a standard stream was replaced")

    def written(self):
        self.new[1].flush()
        return self.o.getvalue()


def fds():
    return sorted(os.listdir("/proc/self/fd"))


def content(case, binary):
    b = bytes.fromhex(case["data"])
    return b if binary else b.decode("latin1").replace("\r", "")


def open_file(case):
    """A named file, opened in a mode, used and left in some way."""
    s = sut.fresh()
    mode = case["mode"]
    binary = "b" in mode
    d = tempfile.mkdtemp(prefix="so")
    home = os.getcwd()
    path = ("./" if case["relative"] == "dot" else "") + case["name"] if case.get("relative") else os.path.join(d, case["name"])
    old = b"old content\n"
    try:
        os.chdir(d)
        if case["exists"]:
            with open(path, "wb") as f:
                f.write(old)
        give = content(case, binary)
        raw = give if binary else give.encode("utf-8")
        reads, fails = mode[0] == "r", case["fail"]
        before = fds()
        kept = None
        result = None
        thrown = FAILURES[fails]("from the user of the file") if fails else None
        with Streams() as streams:
            try:
                with s.tools.smart_open(path, mode) as fh:
                    kept = fh
                    sut.need(not fh.closed, "the file is not open")
                    sut.same(fh.mode, mode, "mode of the file")
                    sut.same(isinstance(fh, io.TextIOBase), not binary, "the file is a text file")
                    sut.same(os.fspath(fh.name), path, "name of the file")
                    if reads:
                        result = fh.read()
                    else:
                        fh.write(give)
                    if fails:
                        raise thrown
                ended = "normal"
            except (sut.Violation, sut.Hang):
                raise
            except BaseException as e:
                ended = outcome(thrown, e)
            streams.check_open("after using a file")
            sut.same(streams.written(), b"", "standard output after using a file")
        missing = not case["exists"] and reads
        clash = case["exists"] and mode[0] == "x"
        want = "FileNotFoundError" if missing else "FileExistsError" if clash else "boom" if fails else "normal"
        sut.same(ended, want, f"how the block ends in mode {mode}")
        if want in ("boom", "normal"):
            sut.need(kept.closed, "the file stays open after the block")
            if reads:
                sut.same(result, old if binary else old.decode(), "what is read")
        sut.same(fds(), before, "open file descriptors")
        now = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                now = f.read()
        if missing:
            exp = None
        elif reads or clash:
            exp = old
        elif mode[0] == "a":
            exp = (old if case["exists"] else b"") + raw
        else:
            exp = raw
        sut.same(now, exp, f"file after mode {mode}")
        sut.same(sorted(os.listdir(d)), [case["name"]] if exp is not None else [], "files made")
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)
    return ["nontrivial", "mode " + mode] + (["by its bare name"] if case.get("relative") else []) + (["fails inside: " + case["fail"]] if case["fail"] else [])


def use_file(fh, ops, binary):
    """What a user sees who does these things with a file."""
    seen = []
    for op, n, data in ops:
        try:
            if op == "read":
                seen.append(fh.read(n))
            elif op == "line":
                seen.append(fh.readline())
            elif op == "lines":
                seen.append(list(fh))
            elif op == "write":
                give = bytes.fromhex(data)
                seen.append(fh.write(give if binary else give.decode("latin1")))
            elif op == "seek":
                seen.append(fh.seek(0, 2 if n % 2 else 0))
            elif op == "cut":
                seen.append(fh.truncate())
            elif op == "flush":
                fh.flush()
            elif op == "able":
                seen.append([fh.readable(), fh.writable(), fh.seekable(), isinstance(fh, io.TextIOBase), fh.mode, getattr(fh, "errors", "")])
        except Exception as e:
            seen.append(type(e).__name__)
    return seen


def like_open(case):
    """A named file, used in some way, behaves as one that Python opened in that mode."""
    s = sut.fresh()
    mode, out = case["mode"], []
    with tempfile.TemporaryDirectory(prefix="lo") as d:
        for k, opener in enumerate((open, s.tools.smart_open)):
            path = os.path.join(d, f"{k}")
            if case["old"] == "directory":
                os.mkdir(path)
            elif case["old"] is not None:
                with open(path, "wb") as f:
                    f.write(bytes.fromhex(case["old"]))
            before = fds()
            try:
                with opener(path, mode) as fh:
                    seen = use_file(fh, case["ops"], "b" in mode)
                seen.append("closed" if fh.closed else "left open")
            except Exception as e:
                seen = [type(e).__name__]
            seen.append(len(fds()) - len(before))
            if os.path.isfile(path):
                with open(path, "rb") as f:
                    seen.append(f.read())
            out.append(seen)
    sut.same(out[1], out[0], f"use of a file in mode {mode!r}, against one opened by Python")
    return ["mode " + mode] + (["nontrivial"] if case["ops"] else [])


def likes():
    kinds = [a + b + c for a in "rwax" for b in ("", "+") for c in ("", "b", "t")] + ["br", "r+b", "bw+", "rw", "z", "", "b"]
    data = st.one_of(st.binary(max_size=12), st.lists(st.sampled_from([b"\n", b"\r\n", b"\r", b"ab", b"\xc3\xa9", b"\xff"]), max_size=8).map(b"".join))
    op = st.tuples(st.sampled_from(["read", "line", "lines", "write", "write", "seek", "cut", "flush", "able"]), st.integers(-1, 5), data.map(bytes.hex))
    return st.fixed_dictionaries({"mode": st.sampled_from(kinds), "old": st.one_of(st.none(), data.map(bytes.hex), data.map(bytes.hex), st.just("directory")),
                                  "ops": st.lists(op.map(list), max_size=8)})


def open_std(case):
    """'-', '' or None in a mode, possibly several times, possibly failing."""
    s = sut.fresh()
    data = bytes.fromhex(case["data"])
    text = data.decode("latin1")
    encoding = case.get("encoding", "utf-8")
    given = text.encode(encoding) if not case["binary"] else data
    with Streams(given, encoding=encoding, terminal=case.get("terminal", False)) as streams:
        for k, use in enumerate(case["uses"]):
            name, mode, fail = use
            mode = mode + ("b" if case["binary"] else "")
            at = streams.i.tell()
            thrown = FAILURES[fail]("from the user of the stream") if fail else None
            try:
                with s.tools.smart_open(name, mode) as fh:
                    std = sys.stdin if mode[0] == "r" else sys.stdout
                    sut.need(fh is (std.buffer if case["binary"] else std), f"mode {mode} of {name!r} does not give the standard stream")
                    if mode[0] == "w":
                        fh.write(data if case["binary"] else text)
                    if fail:
                        raise thrown
                sut.need(not fail, "a failure inside the block was swallowed")
            except (sut.Violation, sut.Hang):
                raise
            except BaseException as e:
                if outcome(thrown, e) != "boom":
                    raise sut.Violation(f"mode {mode} of {name!r}: {type(e).__name__}: {e}")
            streams.check_open(f"after mode {mode} of {name!r}")
        writes = len([u for u in case["uses"] if u[1][0] == "w"])
        sut.same(streams.written(), given * writes, "what reached standard output")
        rest = sys.stdin.buffer.read() if case["binary"] else sys.stdin.read()
        sut.same(rest, data if case["binary"] else text, "what is left on standard input")
    return ["nontrivial", "binary" if case["binary"] else "text", "encoding " + encoding] + (["fails inside"] if any(u[2] for u in case["uses"]) else [])


def open_nested(case):
    """Standard streams opened while they are open, left in any order."""
    s = sut.fresh()
    text = "a\u00e9\n"
    with Streams(b"first\nsecond\nthird\n") as streams:
        wrote, held = "", []
        try:
            for k, what in enumerate(case["steps"]):
                if what[0] == "open" or not held:
                    mode = what[2]
                    cm = s.tools.smart_open(what[1], mode)
                    fh = cm.__enter__()
                    std = sys.stdin if mode[0] == "r" else sys.stdout
                    sut.need(fh is (std.buffer if "b" in mode else std), f"mode {mode} of {what[1]!r}, {len(held)} others open, does not give the standard stream")
                    held.append((cm, fh, mode))
                elif what[0] == "close":
                    cm, fh, mode = held.pop(what[3] % len(held))
                    cm.__exit__(None, None, None)
                    streams.check_open(f"after leaving one of {len(held) + 1} uses of mode {mode}")
                else:
                    _, fh, mode = held[what[3] % len(held)]
                    if mode[0] == "w":
                        fh.write(text.encode() if "b" in mode else text)
                        fh.flush()
                        wrote += text
            for cm, _, _ in reversed(held):
                cm.__exit__(None, None, None)
        except (sut.Violation, sut.Hang):
            raise
        except Exception as e:
            raise sut.Violation(f"standard streams opened while they are open: {type(e).__name__}: {e}")
        streams.check_open("after all uses")
        sut.same(streams.written(), wrote.encode(), "what reached standard output")
        sut.same(sys.stdin.read(), "first\nsecond\nthird\n", "what is left on standard input")
    return ["nontrivial"] if len(case["steps"]) > 2 else []


def nested():
    return st.fixed_dictionaries({"steps": st.lists(st.tuples(
        st.sampled_from(["open", "open", "use", "use", "close"]), st.sampled_from(["-", "", None]), st.sampled_from(["r", "w", "w", "rb", "wb"]),
        st.integers(0, 5)).map(list), min_size=1, max_size=12)})


def refuse(case):
    """Any other mode on a standard stream is refused."""
    s = sut.fresh()
    with Streams(b"abc") as streams:
        entered = False
        try:
            with s.tools.smart_open(case["name"], case["mode"]):
                entered = True
        except Exception:
            pass
        sut.need(not entered, f"mode {case['mode']!r} is accepted on a standard stream")
        streams.check_open("after a refused mode")
        sut.same(streams.written(), b"", "standard output after a refused mode")
        sut.need(not os.path.exists("-"), "a file named '-' was made")
    return ["nontrivial"]


def song_streams(case):
    """A song read from standard input and instruments and tracks written to standard output."""
    prims = songs.prims_of(case)
    ref = chip.Chip().run(prims)
    # a block before the song's commands makes a song of any length
    before = [["blk", 0x80, False, case["block"], 5]] if case.get("block") else []
    data = vgmfmt.song(before + gens.as_commands(prims))
    if case["gz"] is not None:
        data = gens.apply_gz(data, case["gz"])
    s = sut.fresh()
    what = "a song through the standard streams"
    try:
        with Streams(data, case.get("pipe"), case.get("encoding", "utf-8"), case.get("piece", 37),
                     case.get("terminal", False)) as streams:
            with s.tools.smart_open("-", "rb") as f:
                r = s.core.reader(f)
                sut.need(r is not None, "a song on standard input is not recognised")
                st_ = s.main.process_vgm_file(r)
            streams.check_open("after reading a song")
            del r, f
            gc.collect()
            streams.check_open("after a song that is no longer used")
            sut.same(chip.plain_state(st_), ref.observe(), "song read from standard input")
            for _ in range(2):
                mark = len(streams.written())
                s.extractors.extract_instruments(case["out"], st_)
                streams.check_open("after writing instruments")
                new = streams.written()[mark:].decode("utf-8")
                at = new.find("[")
                sut.need(at >= 0, "no instruments on standard output")
                c08.judge(new[at:], ref.instruments, "instruments on standard output")
    except sut.Violation:
        raise
    except Exception as e:
        raise sut.Violation(f"{what}: {type(e).__name__}: {e}")
    return (["nontrivial"] if ref.instruments else []) + (["through a pipe"] if case.get("pipe") else [])


def failures():
    return st.one_of(st.none(), st.sampled_from(sorted(FAILURES)))


def files():
    return st.fixed_dictionaries({
        "mode": st.sampled_from(["r", "rb", "w", "wb", "a", "ab", "x", "xb", "rt", "wt"]),
        "name": st.sampled_from(["f", "a b", "--", "-x", "x-", "-.json", " ", " -", "- ", "-\n", "\u2010", "\u2212", "~", "%s", "-", "\u00e9", "None", "stdin", "stdout", "0", "1"]),
        "relative": st.sampled_from([False, True, "dot"]), "exists": st.booleans(), "fail": failures(),
        "data": st.binary(max_size=30).map(bytes.hex)}).map(
            lambda c: dict(c, relative="dot") if c["name"] == "-" and c["relative"] is True else c)


def stds():
    use = st.tuples(st.sampled_from(["-", "", None]), st.sampled_from(["r", "w"]), failures()).map(list)
    return st.fixed_dictionaries({"binary": st.booleans(), "terminal": st.booleans(), "encoding": st.sampled_from(["utf-8", "latin-1", "utf-16-le"]), "uses": st.lists(use, min_size=1, max_size=5),
                                  "data": st.binary(max_size=30).map(bytes.hex)})


def refusals(tier):
    for name in ("-", "", None):
        for mode in ("a", "ab", "x", "xb", "a+", "x+b", "b", "", "q", "t", "+"):
            yield {"name": name, "mode": mode}


def each_failure(tier):
    """Every kind of failure of the user, of a file and of a standard stream, reading and writing."""
    for fail in sorted(FAILURES):
        for mode in ("r", "w", "rb", "wb", "a"):
            yield {"mode": mode, "name": "f", "relative": False, "exists": True, "fail": fail, "data": "6162"}
        for mode in ("r", "w"):
            for binary in (False, True):
                yield {"binary": binary, "uses": [["-", mode, fail], ["", mode, None]], "data": "6162"}


def check_failure(case):
    return open_file(case) if "mode" in case else open_std(case)


def stream_songs():
    return st.tuples(songs.scored(15), st.one_of(st.none(), gens.gzopts()), st.sampled_from(["-", "", None]), st.booleans()).map(
        lambda t: dict(t[0], gz=t[1], out=t[2], pipe=t[3])).flatmap(
            lambda c: st.tuples(st.sampled_from(["utf-8", "latin-1", "ascii"]), st.booleans()).map(lambda t: dict(c, encoding=t[0], terminal=t[1])))


PLAIN_GZ = {"level": 1, "mtime": 0, "name": None, "extra": None, "comment": None, "hcrc": False, "members": 1}


def long_songs(tier):
    """Songs of many bytes, with a pipe that gives them in smaller or larger pieces."""
    sizes = [4096, 65536, 1 << 20, (1 << 21) + 5, 5_000_000, (1 << 24) + 1] + ([50_000_000, 120_000_000] if tier == "thorough" else [])
    for size in sizes:
        for pipe, piece in ((True, 8192), (True, 65537), (False, 0)):
            for gz in (None, PLAIN_GZ):
                if gz is None or size < 10_000_000:
                    yield {"ops": [["on", 0, 15], ["t", 1500], ["on", 1, 3]], "tpn": 700, "block": size, "pipe": pipe, "piece": piece,
                           "gz": gz, "out": "-"}


PROPERTY = Property(
    "C16",
    "Named files opened in every mode, existing or not, with or without a failure inside the block (every exception of the language among them; file content, open "
    "descriptors and the exception are checked), and used step by step beside a file that Python opened in the same mode; '-', '' and None in sequences of reading and writing uses on stand-ins "
    "for the standard streams; refused modes; whole songs through the standard streams, pipes included. Non-trivial: every such case "
    "(for songs: there is an instrument).",
    [
        Sub("refusals", refuse, enum=refusals),
        Sub("failures", check_failure, enum=each_failure),
        Sub("files", open_file, gen=files(), quick=2000, thorough=20000),
        Sub("likes", like_open, gen=likes(), quick=4000, thorough=80000),
        Sub("long", song_streams, enum=long_songs, slow=10),
        Sub("nested", open_nested, gen=nested(), quick=400, thorough=10000),
        Sub("standard", open_std, gen=stds(), quick=2000, thorough=20000),
        Sub("songs", song_streams, gen=stream_songs(), quick=800, thorough=20000),
    ],
    ["the program's progress messages may precede the instruments on standard output"],
)
