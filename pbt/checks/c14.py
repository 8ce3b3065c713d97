"""C14: independence of songs processed in one process."""
import collections
import contextlib
import functools
import io
import os
import sys
import threading

from hypothesis import strategies as st

from .. import around, chip, gens, models, songs, sut, vgmfmt, xrnsfmt
from ..core import Property, Sub
from . import c17


class Session:
    """One song being read, played and exported, step by step."""

    def __init__(self, s, spec):
        self.s, self.spec = s, spec
        cmds = list(spec["extra"]) + gens.as_commands(songs.prims_of(spec))
        data = vgmfmt.song(cmds, version=spec["version"], ym2413=spec["ym2413"], ym2151=spec["ym2151"],
                           data_start=spec["start"] if spec["version"] >= 150 else 0x40)
        self.data = data if spec["gz"] is None else gens.apply_gz(data, spec["gz"])
        self.vgm = self.state = None
        self.done = False
        self.commands = []

    def facts(self):
        v = self.vgm
        return {"size": v.size(), "version": v.version, "start": v.data_start,
                "clocks": [v.clock("ym2151"), v.clock("ym2413")],
                "supports": [bool(v.supports(c)) for c in ("ym2151", "ym2413", "ym2612", "sn76489")]}

    def step(self, n=1):
        s = self.s
        if self.vgm is None:
            self.vgm = s.core.reader(io.BytesIO(self.data))
            self.facts_at_start = self.facts()
            return
        if self.state is None:
            self.state = s.state.State()
            return
        while n > 0 and not self.done:
            n -= 1
            try:
                cmd = next(self.vgm)
            except StopIteration:
                self.done = True
                return
            self.commands.append(vgmfmt.observed(cmd))
            if isinstance(cmd, s.config.YM2151Command):
                self.state.apply(cmd)
            elif isinstance(cmd, s.command.WaitCommand):
                self.state.beat(cmd.samples)

    def export(self, kind, other=0):
        """One of the outputs, with the song's row length or another one."""
        s, st_, tpn = self.s, self.state, self.spec["tpn"]
        tpn = [tpn, tpn + 1, tpn * 2, -(-tpn // 2), tpn * 64][other % 5]
        if st_ is None:
            return None
        before = [chip.plain_state(st_), chip.plain_current(st_)]
        if kind == 0:
            r = xrnsfmt.load(songs.export_xrns(s, st_, tpn))[1].decode()
        elif kind == 1:
            r = songs.export_text(lambda p: s.extractors.extract_instruments(p, st_))
        elif kind == 2:
            r = songs.export_text(lambda p: s.extractors.extract_tracks(st_, p, tpn))
        else:
            r = st_.ticks_per_note(show_progress=False)
        sut.same([chip.plain_state(st_), chip.plain_current(st_)], before, f"extracted data after export {kind}")
        return r

    def finish(self):
        while self.vgm is None or self.state is None or not self.done:
            self.step(1 << 30)
        kinds = [0, 1, 2] + ([3] if self.spec["estimate"] else [])
        r = {"facts at the start": self.facts_at_start, "facts at the end": self.facts(), "commands": self.commands,
             "state": chip.plain_state(self.state), "parameters": chip.plain_current(self.state),
             "names": [[(str(n), n.xrns_note()) for n in self.state.key_presses(c)] for c in range(8)],
             "exports": [self.export(k) for k in kinds]}
        if self.spec["tpn"] % 2:
            for k in (0, 2):
                self.export(k, 1 + len(self.commands) % 4)
        sut.same([self.export(k) for k in kinds], r["exports"], "a second export")
        return r


def check(case):
    alone = []
    for spec in case["songs"]:
        s = sut.fresh()
        with sut.running("a song alone"):
            alone.append(Session(s, spec).finish())
    s = sut.fresh()
    with sut.running("songs side by side"):
        ses = [Session(s, spec) for spec in case["songs"]]
        for who, what, n in case["schedule"]:
            x = ses[who % len(ses)]
            if what == "go":
                x.step(n)
            else:
                x.export(n % 3, n // 3)
        got = [x.finish() for x in ses]
        for i, g in enumerate(got):
            sut.same(g, alone[i], f"song {i} beside others, against the same song alone")
        again = Session(s, case["songs"][0]).finish()
    sut.same(again, alone[0], "song 0 processed again in the same process")
    lab = []
    switches = len([1 for a, b in zip(case["schedule"], case["schedule"][1:]) if a[0] % len(ses) != b[0] % len(ses)])
    if switches >= 3:
        lab.append("interleaved")
    if any(w == "export" for _, w, _ in case["schedule"]):
        lab.append("exports in mid-song")
    if len({sp["version"] < 110 for sp in case["songs"]}) > 1:
        lab.append("different header versions")
    if len([g for g in got if g["state"]["ticks"]]) >= 2 and switches >= 3:
        lab.append("nontrivial")
    return lab


def sessions(ops=25):
    clock = st.one_of(st.sampled_from([0, 3579545, 4000000]), st.integers(0, 0xFFFFFFFF))

    def song(t):
        sc, head, gz, extra, est = t
        return dict(sc, version=head[0], ym2413=head[1], ym2151=head[2], start=head[3], gz=gz, extra=extra, estimate=est)
    sc = songs.scored(ops, lengths=st.sampled_from([1, 100, 1000, 1500, 3000]))
    one = st.tuples(sc, st.tuples(st.sampled_from([100, 101, 110, 150, 151, 171]), clock, clock,
                                  st.sampled_from([0x40, 0x80, 0x100])),
                    st.one_of(st.none(), st.none(), gens.gzopts()),
                    st.lists(gens.foreign(), max_size=2), st.sampled_from([False] * 9 + [True])).map(song)
    sched = st.tuples(st.integers(0, 2), st.sampled_from(["go", "go", "go", "export"]), st.integers(1, 15)).map(list)
    return st.fixed_dictionaries({"songs": st.lists(one, min_size=2, max_size=3),
                                  "schedule": st.sampled_from([0, 8, 20]).flatmap(lambda n: st.lists(sched, min_size=n, max_size=40))})


class Broken(io.TextIOWrapper):
    """A standard output that takes so much and then fails."""

    def __init__(self, room):
        super().__init__(io.BytesIO(), encoding="utf-8")
        self.room = room

    def write(self, text):
        self.room -= len(text)
        if self.room < 0:
            raise OSError("no room")
        return len(text)


def mishap(s, spec, kind, n):
    """Something that goes wrong in the same process: a song cut short, no song at all, an output that cannot be written."""
    x = Session(s, spec)
    old = sys.stdout
    try:
        if kind == "cut" and n & 1:
            with contextlib.redirect_stdout(io.StringIO()):
                s.main.process_vgm_file(s.core.reader(io.BytesIO(x.data[:n % (len(x.data) + 1)])))
        elif kind == "cut":
            x.data = x.data[:n % (len(x.data) + 1)]
            while x.vgm is None or x.state is None or not x.done:
                x.step(1 << 30)     # (no song at all makes it fail)
        elif kind == "no song":
            s.core.reader(io.BytesIO(x.data[n % 4 + 1:]))
        elif kind == "damaged":
            b = bytearray(x.data)
            b[n % len(b)] ^= 1 + n % 255
            for _ in s.core.reader(io.BytesIO(bytes(b))) or ():
                pass
        elif kind == "left":
            x.step(), x.step(), x.step(n % 20)
        else:
            while x.vgm is None or x.state is None or not x.done:
                x.step(1 << 30)
            out = "/dev/full" if n & 1 else "/no such directory/file"
            if n & 2:
                sys.stdout = Broken(n // 8 % 80)
                out = os.devnull
            if kind == "shown":     # nothing wrong with that
                sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="utf-8")
                out = os.devnull if n // 4 % 4 == 0 else "-"
            [lambda: s.extractors.extract_tracks_to_xrns(x.state, out, spec["tpn"]),
             lambda: s.extractors.extract_instruments(out, x.state),
             lambda: s.extractors.extract_tracks(x.state, out, spec["tpn"]),
             lambda: x.state.ticks_per_note(show_progress=True)][n // 4 % 4]()
    except Exception:   # what it is, is not the question here
        pass
    finally:
        sys.stdout = old


def check_sequence(case):
    """Many songs one after the other in one process, with mishaps between them."""
    want = []
    for spec in case["songs"]:
        with sut.running("a song alone"):
            want.append(Session(sut.fresh(), spec).finish())
    s = sut.fresh()
    kept = []
    for name in s.NAMES:
        getattr(s, name)
    with sut.running("many songs in a row"), around.unchanged("many songs in a row"):
        for at, k in enumerate(case["order"]):
            i = k % len(want)
            for when, who, kind, n in case.get("mishaps", []):
                if when == at:
                    mishap(s, case["songs"][who % len(want)], kind, n)
            x = Session(s, case["songs"][i])
            sut.same(x.finish(), want[i], f"song {i} after {len(kept)} others in the same process")
            kept.append((i, x))
        for i, x in kept[::3]:
            sut.same(x.finish(), want[i], f"song {i}, kept, after all others")
    return ["nontrivial"] if sum(1 for w in want if w["state"]["ticks"]) >= 2 else []


def sequences():
    wrong = st.tuples(st.integers(0, 5), st.integers(0, 2), st.sampled_from(["cut", "cut", "no song", "damaged", "left", "output", "output", "shown"]),
                      st.integers(0, 4000)).map(list)
    return st.tuples(sessions(12), st.lists(st.integers(0, 2), min_size=6, max_size=14), st.lists(wrong, max_size=6)).map(
        lambda t: {"songs": [dict(x, estimate=False) for x in t[0]["songs"]], "order": t[1], "mishaps": t[2]})


def neighbours(tier):
    """Two songs that differ in one respect, one after the other in either order: what one sets the other leaves as it is."""
    notes = [["on", 0, 15], ["t", 1100], ["on", 3, 5], ["t", 900], ["off", 0], ["t", 1000], ["on", 7, 15], ["t", 400], ["off", 7]]
    base = dict(ops=notes, tpn=1000, version=151, ym2413=0, ym2151=3579545, start=0x40, gz=None, extra=[], estimate=False)
    pairs = []
    for r in [0x0F, 0x18, 0x19, 0x1B, 0x01, 0x14] + [x + c for x in (0x20, 0x28, 0x30, 0x38) for c in (0, 3, 7)] + \
            [x + 8 * i + (i * 3 + x) % 8 // 4 * 7 for x in (0x40, 0x60, 0x80, 0xA0, 0xC0, 0xE0) for i in range(4)]:
        for v in (0xFF, 0x2A):
            pairs.append((dict(base, ops=[["w", r, v]] + notes), base))
            pairs.append((dict(base, ops=notes + [["w", r, v]]), base))
    many = [o for i in range(300) for o in (["w", 0x60, i % 128], ["w", 0x80, i // 128], ["on", i % 8, 15], ["t", 7])]
    for ops in ([], [["off", 0]], [["t", 5000]], [["t", 5000], *notes], [["off", 3], ["t", 70000], *notes], many, notes * 20, [["t", 64000], *notes],
                [o for i in range(40) for o in (["on", i % 8, 15], ["t", 1500])], [o if o[0] != "on" else ["on", o[1], 1] for o in notes],
                [["on", 0, 15]] * 9, notes[:1], notes[:-1]):
        pairs.append((dict(base, ops=ops), base))
        pairs.append((dict(base, ops=ops, estimate=True), dict(base, estimate=True)))
    for other in (dict(version=100), dict(version=109, ym2413=4000000), dict(start=0x100), dict(ym2151=0), dict(ym2413=3579545), dict(tpn=1), dict(tpn=1500),
                  dict(gz={"level": 6, "mtime": 0, "name": None, "extra": None, "comment": None, "hcrc": False, "members": 1, "pad": 0}),
                  dict(extra=[["op", 0x52, "2a00"]]), dict(extra=[["blk", 0, True, 9, 0x54]]), dict(estimate=True)):
        pairs.append((dict(base, **other), base))
        pairs.append((dict(base, version=100, **{k: v for k, v in other.items() if k not in ("start", "version")}), base))
    for a, b in pairs:
        yield {"songs": [a, b], "order": [0, 1, 0] if len(a["ops"]) > 99 else [0, 1, 0, 0, 1, 1]}
        yield {"songs": [a, b], "order": [1, 0, 1]}


def check_successors(case):
    """Songs of one shape (same commands, other values) one after the other, each gone before the next."""
    import gc
    variants = []
    for k in case["values"]:
        first = [["w", 0x18, k], ["w", 0x0F, k & 0x9F]] + [["w", r + ch, k ^ ch] for r in (0x28, 0x30, 0x60, 0xE8) for ch in range(8)]
        variants.append(dict(case["song"], ops=first + case["song"]["ops"], estimate=False))
    want = []
    for spec in variants:
        with sut.running("a song alone"):
            want.append(Session(sut.fresh(), spec).finish())
    s = sut.fresh()
    with sut.running("songs of one shape in a row"):
        for i, spec in enumerate(variants):
            gc.collect()
            sut.same(Session(s, spec).finish(), want[i], f"song {i} after others of the same shape in the same process")
    return ["nontrivial"] if want[0]["state"]["ticks"] else []


def successors():
    return st.tuples(sessions(12), st.lists(st.integers(0, 255), min_size=4, max_size=10, unique=True)).map(
        lambda t: {"song": t[0]["songs"][0], "values": t[1]})


class Trace:
    """Watches the lines of the program (not of its document model) that the current thread executes."""

    def __init__(self, on_line):
        self.on_line = on_line

    def run(self, fn):
        def local(frame, event, arg):
            if event == "line":
                self.on_line(frame)
            return local

        def calls(frame, event, arg):
            c = frame.f_code
            if c.co_filename.startswith(sut.SRC) and c.co_name != "<module>" and "renoise_song" not in c.co_filename:
                return local
        old = sys.gettrace()
        sys.settrace(calls)
        try:
            return fn()
        finally:
            sys.settrace(old)


def importing(frame):
    while frame is not None:
        if frame.f_code.co_name == "<module>" and frame.f_code.co_filename.startswith(sut.SRC):
            return True
        frame = frame.f_back
    return False


def work_on(s, spec, what):
    """Something to do with a song; gives what came of it."""
    if what == "read":
        def read():
            x = Session(s, spec)
            while not x.done:
                x.step(1 << 30)
            return [x.facts_at_start, x.facts(), x.commands, chip.plain_state(x.state), chip.plain_current(x.state)]
        return read
    st_ = chip.feed(s, s.state.State(), songs.prims_of(spec))
    return {
        "song": lambda: xrnsfmt.load(songs.export_xrns(s, st_, spec["tpn"]))[1],
        "texts": lambda: [songs.export_text(lambda p: s.extractors.extract_instruments(p, st_)),
                          songs.export_text(lambda p: s.extractors.extract_tracks(st_, p, spec["tpn"]))],
        "estimate": lambda: st_.ticks_per_note(show_progress=True)}[what]


def wait_for(thread):
    """It has all it needs now; one that stays at one place for long is stuck."""
    seen, same = None, 0
    while thread.is_alive():
        thread.join(1)
        f, at = sys._current_frames().get(thread.ident), []
        while f is not None:
            at.append((id(f), f.f_lasti))
            f = f.f_back
        same = same + 1 if at == seen else 0
        seen = at
        sut.need(same < 40, "a song in another thread is stuck")


def check_threads(case):
    """One song is stopped at given lines of the program while another thread works on the other song."""
    a, b = case["songs"]
    lines = collections.Counter()

    def count(frame):
        lines[frame.f_code.co_filename, frame.f_lineno] += 1
    with sut.running("a song alone"):
        s = loaded()
        want_a = Trace(count).run(work_on(s, a, case["what"][0]))
        want_b = work_on(loaded(), b, case["what"][1])()
    order = sorted(lines)
    start = case["from"] * len(order) // 10000
    points = {}
    for i, key in enumerate((order + order)[start:start + min(case["lines"], len(order))]):
        points[key] = 1 + (case["when"] + i * 7919) % 10000 * lines[key] // 10000
    s = loaded()
    hits = collections.Counter()
    threads = []
    got_b = []

    def job():
        try:
            got_b.append(other())
        except BaseException as e:      # told to the main thread
            got_b.append(e)

    def stop(frame):
        key = frame.f_code.co_filename, frame.f_lineno
        if key not in points:
            return
        hits[key] += 1
        if points[key] != hits[key] or importing(frame):
            return
        t = threading.Thread(target=job, daemon=True)
        threads.append(t)
        t.start()
        t.join(5)       # it waits for us if the program guards something by a lock

    with sut.running("two threads with a song each"):
        other = work_on(s, b, case["what"][1])
        got_a = Trace(stop).run(work_on(s, a, case["what"][0]))
        for t in threads:
            wait_for(t)
        for g in got_b:
            if isinstance(g, BaseException):
                raise g
            sut.same(g, want_b, f"a song in another thread ({case['what']}), against the same song alone")
        sut.same(got_a, want_a, f"a song beside another thread ({case['what']}), against the same song alone")
    lab = ["both: " + case["what"][0]] if case["what"][0] == case["what"][1] else ["two kinds of work"]
    return lab + (["nontrivial"] if threads and all(chip.Chip().run(songs.prims_of(x)).started for x in (a, b)) else [])


def loaded():
    s = sut.fresh()
    for n in sut.Sut.NAMES:
        getattr(s, n)
    return s


def threaded():
    kinds = ["read", "read", "read", "song", "texts", "estimate"]
    rest = st.fixed_dictionaries({"from": st.integers(0, 9999), "lines": st.one_of(st.integers(1, 600), st.integers(100, 600)),
                                  "when": st.integers(0, 9999),
                                  "what": st.one_of([st.sampled_from(kinds).map(lambda k: [k, k])] * 3 + [
                                      st.tuples(st.sampled_from(kinds), st.sampled_from(kinds)).map(list)])})
    return st.tuples(sessions(12), rest).map(lambda t: dict(t[1], songs=[dict(x, rows=150, estimate=False) for x in t[0]["songs"][:2]]))


def check_models(case):
    """Songs built side by side from the parts, and exporters used between."""
    s = sut.fresh()
    with sut.running("building songs side by side"):
        built = [models.Built(s, sp) for sp in case["specs"]]
        todo = [list(sp["steps"]) for sp in case["specs"]]
        for who in case["order"]:
            i = who % len(built)
            if todo[i]:
                built[i].step(todo[i].pop(0))
            if who >= 6:
                c17.write(s, built[i].song)
        for b, rest in zip(built, todo):
            for o in rest:
                b.step(o)
        datas = [c17.write(s, b.song) for b in built]
    for b, d in zip(built, datas):
        c17.judge(d, b.want())
    return ["nontrivial"] if sum(1 for sp in case["specs"] if len(sp["steps"]) >= 3) >= 2 else []


def side_models():
    return st.fixed_dictionaries({"specs": st.lists(models.specs(10, 15), min_size=2, max_size=3),
                                  "order": st.lists(st.integers(0, 7), min_size=3, max_size=30)})


def successive(tier):
    """Two songs that differ in one part, one after the other: a full value, an empty one, the usual one, in every order."""
    parts = []
    for k, v in models.DEFAULTS.items():
        rich = [100, 0, 50, 25, 1] if isinstance(v, list) else (not v) if isinstance(v, bool) else v + 77 if isinstance(v, int) else "a name & more"
        blank = [] if isinstance(v, list) else False if isinstance(v, bool) else 0 if isinstance(v, int) else ""
        parts.append([[["global", k, rich]], [["global", k, blank]], [["global", k, v]], []])
    for kind in ("tracks", "master_tracks", "send_tracks"):
        for field, rich, blank in (("name", "a name", ""), ("name", "a name", None), ("state", "Muted", "Active"), ("soloed", True, False)):
            parts.append([[["track", kind, 1, field, rich]], [["track", kind, 1, field, blank]], []])
        parts.append([[["add", kind, "more"]], [["add", kind, None]], [["drop", kind, 0]], []])
    for rich in (["C-4", "0A", "80"], ["Off", None, None], [None, "01", None], ["", "", ""]):
        parts.append([[["note", 1, 1, 5, *rich]], [["note", 1, 1, 5, None, None, None]], [["note", 1, 1, 5, "D-3", None, None]], [["note", 0, 0, 5, "D-3", "01", "00"]]])
    parts.append([[["seq", 3], ["seq", 1]], [["seq", 0]], []])
    parts.append([[["instr"]] * 3, [["instr"]], [["drop", "instrument", 0]], []])
    parts.append([[["pool", 16], ["note", 2, 0, 0, "C-4", None, None]], [["note", 2, 0, 0, "C-4", None, None]], [["note", 2, 0, 0, "C-4", None, None], ["length", 1, 99]], []])
    for values in parts:
        for a in values:
            for b in values:
                if a is not b:
                    specs = [{"tracks": 3, "instruments": 2, "steps": a}, {"tracks": 3, "instruments": 2, "steps": b}]
                    yield {"specs": specs, "order": []}
                    yield {"specs": specs, "order": [6, 7, 6, 7, 6]}
    for a in (0, 1, 3, 8, 9, 12):
        for b in (0, 1, 3, 8, 9, 12):
            yield {"specs": [{"tracks": a, "instruments": b, "steps": []}, {"tracks": b, "instruments": a, "steps": []}], "order": [6, 7]}


VIEWS = {
    "song": lambda s, st_, n: xrnsfmt.load(songs.export_xrns(s, st_, n))[1].decode(),
    "listing": lambda s, st_, n: songs.export_text(lambda p: s.extractors.extract_tracks(st_, p, n)),
    "instruments": lambda s, st_, n: songs.export_text(lambda p: s.extractors.extract_instruments(p, st_)),
    "estimate": lambda s, st_, n: st_.ticks_per_note(show_progress=n % 2 == 0)}


def check_views(case):
    """One song looked at in several ways, one after the other: each look shows what it shows alone."""
    s = sut.fresh()
    with sut.running("several outputs of one song"):
        st_ = songs.feed(s, songs.prims_of(case))
        for k, (what, n) in enumerate(case["views"]):
            got = VIEWS[what](s, st_, n)
            sut.same(got, alone(tuplify(case["ops"]), case["tpn"], what, n), f"{what} (row length {n}) after {case['views'][:k]}")
    return ["nontrivial"] if len({tuple(v) for v in case["views"]}) > 1 else []


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, (list, tuple)) else x


@functools.lru_cache(1000)
def alone(ops, tpn, what, n):
    s = sut.fresh()
    return VIEWS[what](s, songs.feed(s, songs.prims_of({"ops": ops, "tpn": tpn})), n)


def views(tier):
    """Every sequence of three outputs, at two row lengths."""
    some = [["w", 0x28, 0x4A], ["w", 0x20, 0x80], ["on", 0, 15], ["t", 1500], ["off", 0], ["t", 1499], ["w", 0x60, 9], ["on", 3, 15], ["t", 1], ["on", 0, 3],
            ["t", 70000], ["on", 7, 15]]
    looks = [("song", 1000), ("song", 1500), ("listing", 1000), ("listing", 1500), ("instruments", 0), ("estimate", 0), ("estimate", 1)]
    for ops in (some, some[:3]):
        for a in looks:
            for b in looks:
                for c in looks:
                    if (a, b) != (b, c):
                        yield {"ops": ops, "tpn": 1000, "views": [a, b, c]}


PROPERTY = Property(
    "C14",
    "Two or three songs read, played and exported step by step in a generated order in one process, each compared in "
    "every observable (header facts, commands, events, instruments, parameters, Song.xml, JSON, CSV, estimate) with "
    "the same song alone in a fresh process image, then one of them again; many songs in a row, with mishaps between them (cut songs, no songs, failing outputs), also of one shape and each gone before the next; a song stopped at given lines of the program while another thread "
    "works on another; every sequence of three outputs of one song, at two row lengths; song models built side by side; two that differ in one part, one after the other. Non-trivial: "
    "at least three switches and key-ons in at least two songs.",
    [
        Sub("sessions", check, gen=sessions(), quick=640, thorough=30000),
        Sub("sequences", check_sequence, gen=sequences(), quick=120, thorough=5000),
        Sub("neighbours", check_sequence, enum=neighbours),
        Sub("views", check_views, enum=views),
        Sub("successors", check_successors, gen=successors(), quick=120, thorough=5000),
        Sub("threads", check_threads, gen=threaded(), quick=200, thorough=8000, slow=5),
        Sub("successive", check_models, enum=successive),
        Sub("models", check_models, gen=side_models(), quick=800, thorough=20000),
    ],
    ["a fresh import of the program's modules stands for a fresh process",
     "songs are interleaved between commands, and in sub-check threads between lines of the program (not within the XML library)"],
)
