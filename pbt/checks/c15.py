"""C15: the command line tool."""
import contextlib
import io
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import threading
import tty

from hypothesis import strategies as st

from .. import chip, gens, songs, sut, vgmfmt, xrnsfmt
from ..core import Property, Sub
from . import c08

PYTHON = "/opt/venv/bin/python"
JUNK = b"left over " * 20000


class Pipe(io.RawIOBase):
    """A stream that cannot seek and gives its bytes piece by piece, as pipes do."""

    def __init__(self, data, piece=37):
        self.data, self.piece = io.BytesIO(data), piece

    def readable(self):
        return True

    def readinto(self, b):
        got = self.data.read(min(len(b), self.piece))
        b[:len(got)] = got
        return len(got)


def standard_input(stdin):
    """A text stream with the given bytes below it: a file or a pipe."""
    data, pipe = stdin or (b"", False)
    return io.TextIOWrapper(io.BufferedReader(Pipe(data), 64) if pipe else io.BytesIO(data), encoding="utf-8")


def given_input(case, data):
    """What standard input holds in a case: (bytes, is it a pipe) or nothing."""
    return (data, case["stdin"] in ("pipe", "device")) if case["stdin"] else None


class Terminal(io.TextIOWrapper):
    """A stream that says it is a terminal."""

    def isatty(self):
        return True


def standard_output(env):
    env = env or {}
    return (Terminal if env.get("tty") else io.TextIOWrapper)(io.BytesIO(), encoding=env.get("out", "utf-8"), write_through=True)


def read_all(fd, out):
    """Everything that is written to a terminal."""
    while True:
        try:
            b = os.read(fd, 65536)
        except OSError:
            b = b""
        if not b:
            return
        out.append(b)


def at_terminal(cmd, kw):
    """A process whose standard output (and standard error) is a terminal."""
    ours, theirs = os.openpty()
    tty.setraw(theirs)
    out = []
    reader = threading.Thread(target=read_all, args=(ours, out), daemon=True)
    try:
        reader.start()
        p = subprocess.run(cmd, **dict(kw, stdout=theirs, stderr=theirs))
    finally:
        os.close(theirs)
        reader.join(60)
        os.close(ours)
    return subprocess.CompletedProcess(cmd, p.returncode, b"".join(out), b"".join(out)[-600:])


@contextlib.contextmanager
def within(cwd, more=None):
    """The working directory, and what names may be taken to mean, inside the scratch directory."""
    old, before = os.getcwd(), dict(os.environ)
    os.environ.update(HOME=cwd, VGMX="elsewhere")
    os.environ.update((more or {}).get("vars", {}))
    os.chdir(cwd)
    try:
        yield
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(before)


def in_process(argv, stdin, cwd, env=None):
    """main.py as a script, in this process; (status, standard output)."""
    sut.fresh()
    out = standard_output(env)
    err = io.StringIO()
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv = [os.path.join(sut.SRC, "main.py")] + argv
    sys.stdin = standard_input(stdin)
    sys.stdout, sys.stderr = out, err
    why = ""
    try:
        try:
            with within(cwd, env):
                runpy.run_path(sys.argv[0], run_name="__main__")
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            code, why = 1, f"{type(e).__name__}: {e}"
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    return code, out.buffer.getvalue(), err.getvalue() + why


def by_call(argv, stdin, cwd, env=None):
    """main.main called from another program, with what the argument vector says."""
    a = list(argv)
    kw = {"instr_filename": None, "track_filename": None, "ticks_per_note": None}
    names = {"-i": "instr_filename", "--instrument": "instr_filename", "-t": "track_filename", "--track": "track_filename",
             "-tn": "ticks_per_note", "--ticks-per-note": "ticks_per_note"}
    name = None
    while a:
        o = a.pop(0)
        key, eq, v = o.partition("=")
        if o == "-" or key not in names:
            name = a.pop(0) if o == "--" else o
        else:
            kw[names[key]] = v if eq else a.pop(0)
    if kw["ticks_per_note"] is not None:
        kw["ticks_per_note"] = int(kw["ticks_per_note"])
    s = sut.fresh()
    old = sys.argv, sys.stdin, sys.stdout
    out = standard_output(env)
    sys.argv, sys.stdin, sys.stdout = ["another program"], standard_input(stdin), out
    try:
        with within(cwd, env):
            s.main.main(name, kw["instr_filename"], kw["track_filename"], kw["ticks_per_note"])
        return 0, out.buffer.getvalue(), ""
    except Exception as e:
        return 1, out.buffer.getvalue(), f"{type(e).__name__}: {e}"
    finally:
        sys.argv, sys.stdin, sys.stdout = old


def check_call(case):
    return check(case, by_call)


def check_reject_call(case):
    return check_reject(case, by_call)


def as_process(argv, stdin, cwd, env=None):
    """main.py as a real process."""
    e = env or {}
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONDONTWRITEBYTECODE": "1", "HOME": cwd, "LC_ALL": e.get("locale", "C.UTF-8"),
           "PYTHONHASHSEED": str(e.get("hash", 0)), "VGMX": "elsewhere"}
    if "locale" not in e:
        env["PYTHONIOENCODING"] = e.get("out", "utf-8")
    env.update(e.get("vars", {}))
    if e.get("optimize"):
        env["PYTHONOPTIMIZE"] = str(e["optimize"])
    data, pipe = stdin or (b"", False)
    cmd, kw = [PYTHON, os.path.join(sut.SRC, "main.py")] + argv, {"cwd": cwd, "env": env, "timeout": 600,
                                                                "stdout": subprocess.PIPE, "stderr": subprocess.PIPE}
    # as a program without a terminal may be started: with standard streams that it has no use for closed
    closed = [n for n in e.get("closed", []) if not (n == 0 and stdin) and not (n == 1 and "-" in argv + [a.partition("=")[2] for a in argv])]
    if closed:
        cmd = ["/bin/sh", "-c", 'exec "$@" ' + " ".join(f"{n}>&-" for n in closed), "sh"] + cmd
    if pipe:
        p = subprocess.run(cmd, input=data, **kw)
    else:
        with tempfile.TemporaryFile() as f:
            f.write(data)
            f.seek(0)
            p = at_terminal(cmd, dict(kw, stdin=f)) if e.get("tty") else subprocess.run(cmd, stdin=f, **kw)
    return p.returncode, p.stdout, p.stderr.decode("utf-8", "replace")[-600:]


def songname(case):
    d = case.get("dirs", [""])[0]
    return (d + "/" if d else "") + case["names"][0]


def options(case, d=""):
    """Argument vector of a case, and the names of the output files."""
    where = {"": "", "dot": "./", "full": d + "/" if d else ""}[case.get("via", "")]
    aside = [n + "/" if n else "" for n in case.get("dirs", ["", "", ""])]
    i = ("-" if case.get("show") else case["names"][1]) if case["i"] else None
    t = case["names"][2] if case["t"] else None
    opts = []
    if i:
        n = i if i == "-" else where + aside[1] + i
        i = i if i == "-" else aside[1] + i
        opts.append(["-i", n] if case["i"] == 1 else ["--instrument", n] if case["i"] == 2 else [f"--instrument={n}"])
    if t:
        n = where + aside[2] + t
        t = aside[2] + t
        opts.append(["-t", n] if case["t"] == 1 else ["--track", n] if case["t"] == 2 else [f"--track={n}"])
    if case["tn"]:
        n = "0" * case.get("zeros", 0) + str(case["tpn"])
        opts.append([["-tn", n], ["--ticks-per-note", n], [f"--ticks-per-note={n}"]][case["tn"] - 1])
    k = case["order"] % (len(opts) + 1)
    opts = opts[k:] + opts[:k]
    name = "/dev/stdin" if case["stdin"] == "device" else "-" if case["stdin"] else where + songname(case)
    pos = case["order"] % (len(opts) + 1)
    argv = [a for o in opts[:pos] for a in o] + [name] + [a for o in opts[pos:] for a in o]
    if pos == len(opts) and case["order"] >= 6:
        argv.insert(-1, "--")       # the end of the options
    return argv, i, t


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="cli")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def contents(d):
    out = {}
    for top, _, names in os.walk(d):
        for n in names:
            if os.path.exists(os.path.join(top, n)):      # no link to nothing
                with open(os.path.join(top, n), "rb") as f:
                    out[os.path.relpath(os.path.join(top, n), d)] = f.read()
    return out


def place(d, given):
    """Files in a directory, with the directories they are in."""
    for n, b in given.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


def make_dirs(case, d):
    for n in case.get("dirs", []):
        os.makedirs(os.path.join(d, n), exist_ok=True)


def make_links(case, d, names):
    """Some of the names become links to files kept elsewhere, which need not exist yet; name -> file."""
    out = {}
    for k, n in enumerate(names):
        if n and n != "-" and case.get("links", [0, 0, 0])[k]:
            out[n] = "kept/" + "abc"[k]
            at, to = os.path.join(d, n), os.path.join(d, out[n])
            os.makedirs(os.path.dirname(to), exist_ok=True)
            if os.path.exists(at):
                os.rename(at, to)
            os.symlink(to if case["links"][k] == 2 else os.path.relpath(to, os.path.dirname(at)), at)
    return out


def songfile(case):
    """The song file of a case, and its primitive steps."""
    prims = songs.prims_of(case)
    cmds = []
    for k, p in enumerate(gens.as_commands(prims)):
        if case["foreign"] and k % 3 == 1:
            cmds.append(case["foreign"][k % len(case["foreign"])])
        cmds.append(p)
    data = vgmfmt.song(cmds, version=case["version"], fields=case.get("fields", ())) + bytes.fromhex(case["trailer"])
    if case["gz"] is not None:
        data = gens.apply_gz(data, case["gz"])
    return data, prims


def shown(out, what):
    """The instrument listing on standard output, among the progress messages."""
    text = out.decode("utf-8", "replace")
    at = re.search(r"^\[", text, re.M)
    sut.need(at is not None, f"no instruments on standard output {what}")
    try:
        return text[at.start():json.JSONDecoder().raw_decode(text, at.start())[1]].encode("utf-8")
    except ValueError as e:
        raise sut.Violation(f"no list of instruments on standard output {what}: {e}")


def neighbours(names, dirs=()):
    """Files that a user may have beside those: nothing of the tool's business, whatever it does on its way."""
    out = {}
    taken = {"/".join(d.split("/")[:k]) for d in dirs for k in range(1, d.count("/") + 2)}
    for path in names:
        at, n = os.path.split(path)
        stem = os.path.splitext(n)[0]
        for m in [n + e for e in (".tmp", ".temp", ".part", ".partial", ".bak", ".new", ".old", ".orig", ".swp", ".lock", ".gz", ".1", "~", "_")] + \
                [stem + e for e in (".tmp", ".temp", ".bak", ".new", ".xml", ".json", ".xrns", ".csv", ".zip", ".vgm", "")] + \
                ["." + n, "~" + n, "_" + n, "tmp_" + n, "#" + n + "#"]:
            full = os.path.join(at, m)
            if m and m not in (".", "..") and full not in names and full not in taken and len(os.fsencode(m)) < 250:
                out[full] = b"not yours: " + os.fsencode(m)
    for m in ("Song.xml", "tmp", "temp", "output", "out.json", "out.xrns", "song.vgm"):
        if m not in names:
            out[m] = b"not yours: " + os.fsencode(m)
    return out


def check(case, run=in_process):
    data, prims = songfile(case)
    ref = chip.Chip().run(prims)
    tpn = case["tpn"] if case["tn"] else chip.row_length_fast(sorted(ref.beats))
    with scratch() as d:
        argv, i, t = options(case, d)
        make_dirs(case, d)
        given = {}
        if not case["stdin"]:
            given[songname(case)] = data
        if case["stale"]:
            for n in (i, t):
                if n and n != "-":
                    given[n] = JUNK
        if case["stale"]:
            beside = neighbours([n for n in (songname(case), i, t) if n and n != "-"], case.get("dirs", []))
            given.update(beside)
        place(d, given)
        links = make_links(case, d, [None if case["stdin"] else songname(case), i, t])
        code, out, err = run(argv, given_input(case, data), d, case.get("env"))
        sut.need(code == 0, lambda: f"the tool fails on a well-formed song: main.py {argv}: status {code}: {err}")
        first = contents(d)
        for n, to in links.items():
            sut.need(os.path.islink(os.path.join(d, n)) and first.get(to) == first.get(n),
                     lambda: f"{n} was a link to {to}; after main.py {argv} they differ")
            first.pop(to)
        listing = shown(out, f"after main.py {argv}") if i == "-" else first.get(i)
        sut.same(sorted(first), sorted(set(given) | {n for n in (i, t) if n and n != "-"}), f"files after main.py {argv}")
        if not case["stdin"]:
            sut.need(first[songname(case)] == data, "the input file was changed")
        if case["stale"]:
            sut.same([n for n, b in beside.items() if first[n] != b], [], f"other files that changed after main.py {argv}")
        if case["again"]:
            env = dict(case.get("env") or {})
            code, out, err = run(argv, given_input(case, data), d, dict(env, hash=env.get("hash", 0) + 1))
            sut.need(code == 0, lambda: f"the tool fails when run again: {err}")
            second = contents(d)
            for to in links.values():
                second.pop(to, None)
            listing2 = shown(out, "when run again") if i == "-" else second.get(i)
            sut.same(sorted(second), sorted(first), "files after running again")
    if i:
        c08.judge(listing, ref.instruments, "instrument file")
        if case["again"]:
            sut.same(listing2, listing, "instrument file when run again")
    if t:
        root, xml = xrnsfmt.load(first[t])
        xrnsfmt.same_cells(xrnsfmt.cells(root), xrnsfmt.expected_cells(ref.events, tpn))
        sut.same(len(xrnsfmt.instruments(root)), len(ref.instruments), "instruments in the Renoise song")
        sut.same(xrnsfmt.number(xrnsfmt.song_global(root, "BeatsPerMin")), 60 * 44100 // (4 * tpn), "tempo")
        if case["again"]:
            sut.same(xrnsfmt.load(second[t])[1], xml, "Song.xml when run again")
    lab = ["row length " + ("given" if case["tn"] else "estimated"), "gzip" if case["gz"] is not None else "plain",
           "from " + {False: "a file", True: "standard input", "pipe": "a pipe", "device": "a pipe by a device's name"}[case["stdin"]],
           "writes " + ({(1, 1): "both", (1, 0): "instruments", (0, 1): "song", (0, 0): "nothing"}[bool(i) + 0, bool(t) + 0])]
    if any("\udc80" <= c <= "\udcff" for n in case["names"] for c in n):
        lab.append("names that are not UTF-8")
    if (i or t) and ref.started:
        lab.append("nontrivial")
    return lab


def check_process(case):
    return check(case, as_process)


class Fifo:
    """A named pipe, which this process writes to or reads from while the tool runs."""

    def __init__(self, path, data=None):
        os.mkfifo(path)
        self.path, self.data, self.got = path, data, []
        self.over = threading.Event()
        # a reader that waits for nobody, so that neither side ever waits for the other to come
        self.fd = None if data is not None else os.open(path, os.O_RDONLY | os.O_NONBLOCK)
        self.thread = threading.Thread(target=self.write if data is not None else self.read, daemon=True)
        self.thread.start()

    def write(self):
        try:
            with open(self.path, "wb") as f:
                f.write(self.data)
        except OSError:     # nobody wants it all
            pass

    def read(self):
        while True:
            last = self.over.is_set()
            try:
                b = os.read(self.fd, 1 << 16)
            except BlockingIOError:
                b = b""
            if b:
                self.got.append(b)
            elif last:
                return
            else:
                self.over.wait(0.002)

    def close(self):
        """What was read, or nothing."""
        self.over.set()
        if self.data is None:
            self.thread.join(60)
            os.close(self.fd)
            return b"".join(self.got)
        fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
        os.close(fd)
        self.thread.join(60)
        return None


def check_place(case, run=in_process):
    """Outputs in place of the song, and names that are pipes."""
    run = as_process if case["process"] else in_process
    job = dict(case["job"], stdin=False, show=False, dirs=["", "", ""], via="", env={}, names=["song.vgm", "i.json", "t.xrns"],
               i=1 if case["in"] != "t" else 0, t=2 if case["in"] != "i" else 0)
    data, prims = songfile(job)
    if case["pad"]:        # more than is read at once
        start = 0x34 + int.from_bytes(data[0x34:0x38], "little") if int.from_bytes(data[8:12], "little") >= 0x150 and job["gz"] is None else 0x40
        if job["gz"] is None:
            data = data[:start] + b"\xb4\x01\x02" * case["pad"] + data[start:]
    ref = chip.Chip().run(prims)
    tpn = job["tpn"] if job["tn"] else chip.row_length_fast(sorted(ref.beats))
    pipes = {}
    with scratch() as d:
        if case["own"]:
            job["names"][1 if case["in"] != "t" else 2] = "song.vgm"
        argv, i, t = options(job)
        try:
            for n in {"song.vgm", i, t} - {None}:
                if n == "song.vgm" and case["own"] or not case["pipes"]:
                    continue
                if {"song.vgm": 1, i: 2, t: 4}[n] & case["pipes"]:
                    pipes[n] = Fifo(os.path.join(d, n), data if n == "song.vgm" else None)
            if "song.vgm" not in pipes:
                place(d, {"song.vgm": data})
            code, _, err = run(argv, None, d)
        finally:
            found = {n: f.close() for n, f in pipes.items()}
        sut.need(code == 0, lambda: f"the tool fails on a well-formed song: main.py {argv}, pipes {sorted(pipes)}: status {code}: {err}")
        for n in pipes:
            sut.need(not os.path.isfile(os.path.join(d, n)), lambda: f"{n} is no pipe any more")
            os.unlink(os.path.join(d, n))
        sut.same(sorted(set(contents(d)) | set(pipes)), sorted({"song.vgm", i, t} - {None}), f"files after main.py {argv}")
        found = dict(contents(d), **found)
    if i:
        c08.judge(found[i], ref.instruments, f"instruments written to {'a pipe' if i in pipes else i}")
    if t:
        root, _ = xrnsfmt.load(found[t])
        xrnsfmt.same_cells(xrnsfmt.cells(root), xrnsfmt.expected_cells(ref.events, tpn))
    if not case["own"] and "song.vgm" not in pipes:
        sut.need(found["song.vgm"] == data, "the input file was changed")
    return ["in place of the song"] * case["own"] + [f"pipe for {n}" for n in pipes] + ["nontrivial"] * (case["own"] or bool(pipes))


def places():
    return st.fixed_dictionaries({"job": jobs(15), "own": st.booleans(), "in": st.sampled_from(["i", "t", "both"]),
                                  "pad": st.sampled_from([0, 4000, 60000]), "pipes": st.integers(0, 7),
                                  "process": st.sampled_from([False] * 7 + [True])})


VARS = {"TZ": ["UTC", "Asia/Kathmandu", "XXX+25"], "TMPDIR": ["/no such directory", ""], "COLUMNS": ["1", "0", "x"], "LANG": ["de_DE.UTF-8", "C"],
        "LC_NUMERIC": ["de_DE.UTF-8"], "LANGUAGE": ["de"], "TERM": ["dumb", ""], "NO_COLOR": ["1"], "DEBUG": ["1"], "VERBOSE": ["1"], "CI": ["true"],
        "SOURCE_DATE_EPOCH": ["0", "1000000000"], "PYTHONDEVMODE": ["1"], "PYTHONWARNINGS": ["always"], "PYTHONUNBUFFERED": ["1"],
        "HOME": ["/no such directory", ""], "USER": ["nobody"], "PWD": ["/elsewhere"]}


def environments():
    """What a process finds around it: encoding of standard output, locale, variables, a terminal, hash seed, optimisation."""
    return st.one_of(
        st.just({}),
        st.fixed_dictionaries({"tty": st.just(True), "vars": st.sampled_from([{}, {"TERM": "xterm-256color"}, {"TERM": "dumb"}])}),
        st.fixed_dictionaries({"vars": st.dictionaries(st.sampled_from(sorted(VARS)), st.integers(0, 2), max_size=4).map(
            lambda d: {k: VARS[k][v % len(VARS[k])] for k, v in d.items()})}),
        st.fixed_dictionaries({"out": st.sampled_from(["utf-8", "ascii", "latin-1", "cp1252", "utf-8"]),
                               "hash": st.integers(0, 9), "optimize": st.sampled_from([0, 0, 1, 2])}),
        st.fixed_dictionaries({"closed": st.sampled_from([[0], [1], [2], [0, 1], [1, 2], [0, 1, 2]])}),
        st.fixed_dictionaries({"locale": st.sampled_from(["C", "POSIX", "C.UTF-8"]), "hash": st.integers(0, 9),
                               "optimize": st.sampled_from([0, 0, 1, 2])}))


ODD = [" ", "  ", "a", "B", "$VGMX", "${VGMX}", "%VGMX%", "~", "%s", "%d", "%", "{}", "{0}", "\u00e9", "e\u0301", "\u00df", "\ufb01", "\u2460", "\u202e",
       "\t", "'", '"', ";", "&", "*", "?", "[a]", "#", "@", "=", ",", ":", "|", "<", ">", "\\", "\\n", "!", "..", ".", "-", "+", "0", "1e3", "CON",
       ".json", ".xrns", ".vgm", ".vgz", ".gz", ".zip", ".tmp", "\U0001f3b5", "\udcff", "\n", "x" * 60,
       "file:", "http:", "none", "None", "null", "NUL", "nul", "nil", "undefined", "False", "false", "True", "no", "off", "auto", "default",
       "stdin", "stdout", "stderr", "temp", "test", "tty", "con", "aux", "PRN", "dev", "proc", "Song.xml", "quit", "help", "-i", "--help",
       ".JSON", ".XRNS", ".VGM", ".csv", ".txt", ".xml", ".bak", "NaN", "1", "-1", "2.5", "0x10"]


def odd_names():
    """Names that mean something to a shell, to a formatter or to the eye, and are names all the same."""
    one = st.lists(st.sampled_from(ODD), min_size=1, max_size=4).map("".join).filter(
        lambda n: n not in (".", "..") and len(os.fsencode(n)) < 230)
    return st.lists(one, min_size=3, max_size=3, unique=True).filter(lambda ns: "-" not in ns[1:])


def jobs(ops=25, devices=()):
    names = st.sampled_from([["song.vgm", "i.json", "t.xrns"], ["a b.vgz", "in str.json", "tr ack.xrns"],
                             ["s\u00f6ng.vgm", "\u00fc.json", "\u4e2d.xrns"], ["x", "y", "z"],
                             ["caf\udce9.vgm", "\udcff.json", "\udc83\udcdc.xrns"]])
    names = st.one_of(names, names, names, odd_names(), odd_names(), st.just(["-", "-i.json", "-t.xrns"]))
    sc = songs.scored(ops, lengths=st.one_of(st.sampled_from([1, 64, 735, 1000, 1500, 3000]), st.integers(1, 9000)))
    rest = st.fixed_dictionaries({
        "names": names, "i": st.sampled_from([0, 1, 1, 2, 3]), "t": st.sampled_from([0, 1, 1, 2, 3]),
        "tn": st.sampled_from([0, 1, 1, 1, 2, 3]), "order": st.integers(0, 11), "stdin": st.sampled_from([False, False, False, False, True, "pipe", *devices]),
        "stale": st.booleans(), "again": st.sampled_from([False, False, True]),
        "foreign": st.lists(gens.foreign(), max_size=2), "env": environments(),
        "version": st.one_of(st.sampled_from([100, 110, 151, 171]), gens.VERSIONS), "fields": gens.fields(),
        "gz": st.one_of(st.none(), gens.gzopts()),
        "show": st.sampled_from([False] * 5 + [True]),
        "via": st.sampled_from(["", "", "dot", "full"]),
        "dirs": st.one_of(st.just(["", "", ""]), st.lists(st.sampled_from(["", "", "in", "a b/c", "songs.vgm", "~"]), min_size=3, max_size=3)), "zeros": st.sampled_from([0, 0, 0, 1, 3]),
        "links": st.one_of(st.just([0, 0, 0]), st.just([0, 0, 0]), st.lists(st.integers(0, 2), min_size=3, max_size=3)),
        "trailer": st.sampled_from(["", "47643320" + "00" * 20, "540878540800"])})
    return st.tuples(sc, rest).map(lambda t: named(dict(t[0], **t[1])))


def named(case):
    """Names that look like options are given with a directory before them."""
    if any(n.startswith("-") for n in case["names"]) and not case["via"]:
        case = dict(case, via="dot")
    # a file and a directory of one name cannot be in one place
    if set(case.get("dirs", ())) - {""} and any(n in {d.split("/")[0] for d in case["dirs"]} for n in case["names"]):
        case = dict(case, dirs=["", "", ""])
    return case


def check_reject(case, run=in_process):
    """Not a VGM song: failure, no output, whatever was there stays."""
    data = bytes.fromhex(case["data"])
    argv, i, t = options(case)
    missing = case["missing"] if not case["stdin"] else False
    with scratch() as d:
        given = {}
        if not case["stdin"] and not missing:
            given[case["names"][0]] = data
        if case.get("stale"):
            given.update({n: JUNK for n in (i, t) if n and n != "-"})
        place(d, given)
        path = os.path.join(d, case["names"][0])
        if missing == "directory":
            os.mkdir(path)
        elif missing == "dangling":
            os.symlink("nowhere", path)
        elif missing == "loop":
            os.symlink(case["names"][0], path)
        code, out, err = run(argv, given_input(case, data), d, case.get("env"))
        sut.need(code != 0, lambda: f"the tool reports success on {'a missing file' if missing is True else missing or data[:40]}")
        if missing in ("dangling", "loop"):
            sut.need(os.path.islink(path), "a link was removed when its song was rejected")
            sut.need(not os.path.exists(path), "a rejected input made the song that a link leads to")
            os.unlink(path)
        after = contents(d)
    sut.same(sorted(after), sorted(given), "files after a rejected input")
    for n in given:
        sut.need(after[n] == given[n], f"{n} was changed by a rejected input")
    return (["nontrivial"] if i or t else []) + (["missing file"] if missing else ["not a song"])


def check_reject_process(case):
    return check_reject(case, as_process)


def damaged(case):
    """The bytes of a song file with damage: cut short, or some bytes changed."""
    data = songfile(case["job"])[0]
    if case["cut"] is not None:
        data = data[:case["cut"] % (len(data) + 1)]
    data = bytearray(data)
    for pos, x in case["flips"]:
        if data:
            data[pos % len(data)] ^= x
    return bytes(data)


def check_damaged(case, run=in_process):
    """A damaged song: refused leaving nothing behind, or taken as another song with all outputs."""
    job = case["job"]
    data = damaged(case)
    with scratch() as d:
        argv, i, t = options(job, d)
        make_dirs(job, d)
        given = {}
        if not job["stdin"]:
            given[songname(job)] = data
        if job["stale"]:
            for n in (i, t):
                if n and n != "-":
                    given[n] = JUNK
        place(d, given)
        code, _, err = run(argv, given_input(job, data), d, job.get("env"))
        after = contents(d)
    if code != 0:
        sut.same(sorted(after), sorted(given), f"files after a song that was refused ({err})")
        for n in given:
            sut.need(after[n] == given[n], lambda: f"{n} was changed by a song that was refused ({err})")
    else:
        sut.same(sorted(after), sorted(set(given) | {n for n in (i, t) if n and n != "-"}), "files after a damaged song was accepted")
        ref = model_of(data)
        if i == "-":
            pass
        elif i and ref is not None:
            c08.judge(after[i], ref.instruments, "instrument file of a damaged song")
        elif i:
            c08.strict(after[i].decode("utf-8"))
        if t:
            root, _ = xrnsfmt.load(after[t])
            if ref is not None and job["tn"]:
                xrnsfmt.same_cells(xrnsfmt.cells(root), xrnsfmt.expected_cells(ref.events, job["tpn"]))
    return ["refused" if code else "accepted", "cut" if case["cut"] is not None else "changed bytes"] + \
        (["nontrivial"] if i or t else [])


def model_of(data):
    """The model for the complete commands of any file that is not compressed and has a fixed header; None: not judged."""
    if data[:4] != b"Vgm " or len(data) < 0x40 or int.from_bytes(data[8:12], "little") >= 0x150:
        return None
    cmds, rest, upto = vgmfmt.decode(data[0x40:])
    ends = [k for k, c in enumerate(cmds) if c["type"] == "EOS"]
    if not ends and upto < len(data) - 0x40:
        return None
    prims = [["w", c["reg"], c["value"]] if c["type"] == "YM2151" else ["t", c["samples"]]
             for c in (cmds[:ends[0]] if ends else cmds) if c["type"] in ("YM2151", "WAIT")]
    if sum(p[1] for p in prims if p[0] == "t") > 5_000_000:
        return None
    return chip.Chip().run(prims)


def damages():
    # a changed byte can make a wait long: not too many rows then
    return st.fixed_dictionaries({
        "job": jobs(12).map(lambda j: dict(j, tpn=max(j["tpn"], 200))), "cut": st.one_of(st.none(), st.integers(0, 200), st.integers(0, 5000)),
        "flips": st.one_of(st.just([]), st.lists(st.tuples(st.one_of(st.integers(0x40, 150), st.integers(0, 3000)),
                                                           st.integers(1, 255)), max_size=3))})


def check_unwritable(case, run=in_process):
    """An output that cannot be written is a failure, and the song file stays."""
    argv, i, t = options(case)
    data = songfile(case)[0]
    with scratch() as d:
        with open(os.path.join(d, "song.vgm"), "wb") as f:
            f.write(data)
        for n in (i, t):
            if n and n.startswith("full"):
                os.symlink("/dev/full", os.path.join(d, n))
        code, _, _ = run(argv, None, d, case.get("env"))
        still = {n for n in os.listdir(d) if os.path.islink(os.path.join(d, n))}
        for n in still:
            os.unlink(os.path.join(d, n))
        after = contents(d)
    bad = [n for n in (i, t) if n and ("/" in n or n in still)]
    if not bad:
        sut.need(code == 0, "the tool fails on a well-formed song")
        return []
    sut.need(code != 0, lambda: f"the tool reports success though it could not write {bad}")
    sut.need(after.get("song.vgm") == data, "the song file was changed")
    sut.need(set(after) <= {"song.vgm", i, t} - {"-"}, lambda: f"other files were written: {sorted(after)}")
    return ["nontrivial"]


def unwritable():
    names = st.tuples(st.sampled_from(["i.json", "no such directory/i.json", "full i.json"]),
                      st.sampled_from(["t.xrns", "no such directory/t.xrns", "full t.xrns"])).map(lambda t: ["song.vgm", *t])
    return st.tuples(jobs(8), names).map(lambda t: dict(t[0], names=t[1], stdin=False, dirs=["", "", ""]))


def bad_inputs():
    import gzip
    good = vgmfmt.song([["ym", 8, 0x78], ["w60"], ["eos"]])
    magic = st.tuples(st.integers(0, 3), st.integers(1, 255)).map(
        lambda t: good[:t[0]] + bytes([good[t[0]] ^ t[1]]) + good[t[0] + 1:])
    data = st.one_of(st.sampled_from([b"", b"V", b"Vgm", b"vgm \0", b"\x1f", b"\x1f\x8b", b"PK\3\4", b"{}"]),
                     st.binary(max_size=80).filter(lambda b: not b.startswith(b"Vgm ") and not b.startswith(b"\x1f\x8b")),
                     magic, magic.map(lambda b: gzip.compress(b, mtime=0)), st.just(gzip.compress(b"", mtime=0)),
                     st.just(gzip.compress(gzip.compress(good, mtime=0), mtime=0)))
    names = st.just(["song.vgm", "i.json", "t.xrns"])
    return st.fixed_dictionaries({
        "data": data.map(bytes.hex), "names": names, "i": st.integers(0, 2), "t": st.integers(0, 2), "tn": st.integers(0, 1),
        "tpn": st.integers(1, 5000), "order": st.integers(0, 5), "stdin": st.sampled_from([False, False, False, False, True, "pipe"]),
        "missing": st.sampled_from([False] * 8 + [True, "directory", "dangling", "loop"]), "stale": st.booleans()})


def fixed(tier):
    """Songs without notes, and a plain one, with every combination of options."""
    songs_ = [[], [["off", 3]], [["t", 5000]], [["w", 0x28, 0x4A], ["on", 0, 15], ["t", 1500], ["on", 0, 15], ["t", 1500], ["on", 1, 3]]]
    for ops in songs_:
        for k in range(64):
            yield {"ops": ops, "tpn": 700, "names": ["song.vgm", "i.json", "t.xrns"], "i": k & 1, "t": k >> 1 & 1, "tn": k >> 2 & 1,
                   "order": k, "stdin": [False, True, False, "pipe"][k >> 3 & 3], "stale": bool(k >> 5 & 1), "again": False, "foreign": [],
                   "version": 151, "gz": None, "trailer": ""}


def check_succession(case):
    """main() called again and again in one process under the same names, the song's file changed in between."""
    made = [songfile(x) for x in case["jobs"]]
    size = max(len(d) for d, _ in made)
    s = sut.fresh()
    names = case["names"]
    lab = []
    with scratch() as d:
        old = sys.stdout
        try:
            for k, n in enumerate(case["order"]):
                n %= len(made)
                job, (data, prims) = case["jobs"][n], made[n]
                if case["same_size"]:
                    data += bytes(size - len(data))     # behind the end of the song (or of the compressed data)
                ref = chip.Chip().run(prims)
                for name in list(contents(d)):
                    if case["clean"]:
                        os.unlink(os.path.join(d, name))
                path = os.path.join(d, names[0])
                with open(path, "wb") as f:
                    f.write(data)
                os.utime(path, (1, 1))
                tpn = job["tpn"] if job["tn"] else chip.row_length_fast(sorted(ref.beats))
                i, t = (names[1] if job["i"] else None), (names[2] if job["t"] else None)
                sys.stdout = standard_output(None)
                what = f"call {k} of main(), with song {n}"
                try:
                    with within(d):
                        s.main.main(names[0] if not case["full"] else path, i, t, job["tpn"] if job["tn"] else None)
                except Exception as e:
                    raise sut.Violation(f"{what}: {type(e).__name__}: {e}")
                finally:
                    sys.stdout = old
                have = contents(d)
                if i:
                    c08.judge(have.get(i), ref.instruments, f"instrument file after {what}")
                if t:
                    sut.need(t in have, f"no Renoise song after {what}")
                    root, _ = xrnsfmt.load(have[t])
                    xrnsfmt.same_cells(xrnsfmt.cells(root), xrnsfmt.expected_cells(ref.events, tpn))
                    sut.same(len(xrnsfmt.instruments(root)), len(ref.instruments), f"instruments in the Renoise song after {what}")
                    sut.same(xrnsfmt.number(xrnsfmt.song_global(root, "BeatsPerMin")), 60 * 44100 // (4 * tpn), f"tempo after {what}")
                lab += ["nontrivial"] if (i or t) and ref.started and k else []
        finally:
            sys.stdout = old
    return sorted(set(lab)) + (["files of one size"] if case["same_size"] else [])


def successions():
    small = jobs(8).map(lambda j: dict(j, trailer=""))
    return st.fixed_dictionaries({
        "jobs": st.lists(small, min_size=2, max_size=3), "order": st.lists(st.integers(0, 2), min_size=2, max_size=6),
        "names": st.sampled_from([["song.vgm", "i.json", "t.xrns"], ["a.vgz", "a.json", "a.xrns"]]),
        "same_size": st.booleans(), "clean": st.booleans(), "full": st.booleans()})


def after_another(tier):
    """Two songs that differ in one byte, in their lengths of time, or in the row length asked for."""
    def job(patch, wait, tn, tpn=700):
        return {"ops": [["w", 0x28, 0x4A], ["w", 0x60, patch], ["on", 0, 15], ["t", wait], ["on", 0, 15], ["t", wait], ["off", 0], ["on", 1, 15]], "tpn": tpn, "i": 1, "t": 1, "tn": tn,
                "foreign": [], "version": 151, "gz": None, "trailer": ""}
    for a, b in ((job(1, 1500, 1), job(2, 1500, 1)), (job(1, 1500, 0), job(1, 2500, 0)), (job(1, 1500, 1), job(1, 1500, 0)),
                 (job(1, 1500, 1), job(1, 1500, 1, 300)), (job(1, 1500, 1), dict(job(3, 1500, 1), i=0)), (job(1, 1500, 1), dict(job(3, 1500, 1), t=0))):
        for order in ([0, 1, 0], [1, 0, 1], [0, 0, 1, 1]):
            for same in (False, True):
                for clean in (False, True):
                    for full in (False, True):
                        yield {"jobs": [a, b], "order": order, "names": ["song.vgm", "i.json", "t.xrns"], "same_size": same, "clean": clean, "full": full}


LENGTHS = sorted({1, 2, 3, 10, 63, 64, 99, 255, 256, 441, 735, 882, 1470, 10000, 16384, 44100, 100000, 220500, 441000, 661500, 661501, 1000000,
                  *(n + d for n in (1000, 4096, 8000, 32000, 32768, 44100, 65536, 1 << 20) for d in (-1, 0, 1)),
                  *((1 << k) + d for k in (24, 31, 32, 63, 64) for d in (-1, 0)), 10 ** 12, 10 ** 30})


def every_length(tier):
    """Given row lengths of every size: the shortest, those of video frames, whole seconds, and beyond any wait."""
    for k, n in enumerate(LENGTHS):
        step = n if n < 1 << 21 else 150000
        ops = [["w", 0x28, 0x4A], ["on", 0, 15], ["t", step - 1], ["on", 1, 3], ["t", 1], ["off", 0], ["t", step], ["on", 7, 15], ["t", step * 2 - 1], ["off", 7]]
        yield {"ops": ops, "tpn": n, "names": ["song.vgm", "i.json", "t.xrns"], "i": 1, "t": 1, "tn": 1 + k % 3, "order": k % 12, "stdin": False,
               "stale": False, "again": False, "foreign": [], "version": 151, "gz": None, "trailer": ""}


def every_name(tier):
    """Each of the odd names as the song, as each output, and as the beginning and the end of all three."""
    base = {"ops": [["t", 700], ["w", 0x28, 0x4A], ["on", 0, 15], ["t", 1500], ["off", 0]], "tpn": 700, "i": 1, "t": 1, "tn": 1,
            "stdin": False, "again": False, "foreign": [], "version": 151, "gz": None, "trailer": ""}
    plain = ["song.vgm", "i.json", "t.xrns"]
    k = 0
    for w in ODD:
        sets = [[w + n for n in plain], [n + w for n in plain]]
        if w not in (".", ".."):
            sets += [[w, *plain[1:]], [plain[0], w, plain[2]], [*plain[:2], w]]
        for names in sets:
            k += 1
            if "-" not in names[1:]:
                yield named(dict(base, names=names, order=k % 12, stale=k % 3 == 0, i=1 + k % 3, t=1 + k % 2, via=["", "dot", "", "full"][k % 4]))


PROPERTY = Property(
    "C15",
    "Songs as files (plain or gzip, with other chips' commands and bytes after the end) and command lines (options in "
    "any order and spelling, standard input, left-over output files, second runs), run as a script in this process and, "
    "for a part, as a real process or by calling main(); outputs are parsed and compared with a model. Inputs that are not songs must fail "
    "without output; damaged songs (cut, bytes changed) must either fail and leave every file as it was, or give all "
    "outputs, which agree with a model where the commands are decodable. Non-trivial: some output is asked for and the song has a key-on (or: the rejected run asked for "
    "output).",
    [
        Sub("options", check, enum=fixed),
        Sub("lengths", check, enum=every_length),
        Sub("names", check, enum=every_name),
        Sub("jobs", check, gen=jobs(), quick=1000, thorough=30000),
        Sub("rejects", check_reject, gen=bad_inputs(), quick=800, thorough=10000),
        Sub("damaged", check_damaged, gen=damages(), quick=800, thorough=20000),
        Sub("unwritable", check_unwritable, gen=unwritable(), quick=100, thorough=2000),
        Sub("places", check_place, gen=places(), quick=150, thorough=4000),
        Sub("after", check_succession, enum=after_another),
        Sub("successions", check_succession, gen=successions(), quick=150, thorough=5000),
        Sub("calls", check_call, gen=jobs(), quick=200, thorough=8000),
        Sub("rejected-calls", check_reject_call, gen=bad_inputs(), quick=200, thorough=4000),
        Sub("processes", check_process, gen=jobs(devices=["device"]), quick=80, thorough=1600),
        Sub("rejecting-processes", check_reject_process, gen=bad_inputs(), quick=24, thorough=400),
    ],
    ["instruments shown on standard output stand between progress messages", "file names do not start with '-'"],
)
