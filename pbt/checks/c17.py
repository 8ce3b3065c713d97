"""C17: arbitrary song models."""
import io

from hypothesis import strategies as st

from .. import models, sut, xrnsfmt
from ..core import Property, Sub


def write(s, song):
    buf = io.BytesIO()
    s.writer.writer(buf, song)
    return buf.getvalue()


def texts(el, what, allow=()):
    """{tag: text} of the simple children of an element; each at most once."""
    d = {}
    for c in el:
        sut.need(c.tag not in d, lambda: f"{what}: <{c.tag}> appears twice")
        if len(c) == 0:
            d[c.tag] = c.text or ""
        else:
            d[c.tag] = None
    return d


def boolean(b):
    return "true" if b else "false"


def judge_tracks(root, want):
    got = xrnsfmt.tracks(root)
    by = {"SequencerTrack": "tracks", "SequencerMasterTrack": "master_tracks", "SequencerSendTrack": "send_tracks"}
    mixers = {"SequencerTrack": "TrackMixerDevice", "SequencerMasterTrack": "MasterTrackMixerDevice",
              "SequencerSendTrack": "SendTrackMixerDevice"}
    for kind, key in by.items():
        have = [t for t in got if t["kind"] == kind]
        exp = []
        for i, (name, state, soloed) in enumerate(want[key]):
            color = {"tracks": models.PALETTE[i] if i < len(models.PALETTE) else None, "master_tracks": models.MASTER,
                     "send_tracks": models.SEND}[key]
            exp.append({"kind": kind, "type": kind, "name": name, "color": color, "state": state, "soloed": boolean(soloed),
                        "devices": [mixers[kind]]})
        sut.same(have, exp, key)
    sut.same([t["kind"] for t in got], [k for k, key in by.items() for _ in want[key]], "order of the tracks")
    # nothing else may carry a value of its own
    usual = {"Name", "Color", "ColorBlend", "State", "Soloed", "PanningColumnIsVisible", "FilterDevices"}
    for t in xrnsfmt._one(root, "Tracks"):
        d = texts(t, t.tag)
        sut.need(set(d) <= usual, lambda: f"{t.tag} has unexpected {sorted(set(d) - usual)}")
        sut.same(d.get("ColorBlend", "0"), "0", f"colour blend of a {t.tag}")
        if t.tag == "SequencerTrack":
            sut.same(d.get("PanningColumnIsVisible"), "true", "panning column of a track is visible")


def judge(data, want):
    root, _ = xrnsfmt.load(data)
    sut.same(sorted(root.attrib), ["doc_version"], "attributes of the document")
    sut.same(sorted(c.tag for c in root), sorted(["GlobalSongData", "Instruments", "Tracks", "PatternPool", "PatternSequence"]),
             "parts of the document")
    g = xrnsfmt._one(root, "GlobalSongData")
    d = texts(g, "global data")
    exp = {}
    for k, tag in models.GLOBALS.items():
        v = want["g"][k]
        if k == "shuffle_amounts":
            el = xrnsfmt._one(g, tag)
            sut.same([c.tag for c in el], ["ShuffleAmount"] * len(v), "shuffle amounts")
            sut.same([c.text for c in el], [str(x) for x in v], "shuffle amounts")
            d.pop(tag)
            continue
        if k == "beats_per_min":
            sut.same(xrnsfmt.number(d.pop(tag, None)), v, "tempo")
            continue
        exp[tag] = boolean(v) if isinstance(v, bool) else str(v)
    sut.same(d, exp, "global data")
    sut.same(xrnsfmt.instruments(root), ["Instrument"] * want["i"], "instruments")
    judge_tracks(root, want["t"])
    xrnsfmt.bare(root)
    pats = xrnsfmt.patterns(root)
    sut.same(xrnsfmt.lengths(root), want["l"], "numbers of lines of the patterns")
    sut.same(len(pats), len(want["p"]), "number of patterns")
    for i, (p, w) in enumerate(zip(pats, want["p"])):
        sut.same([k for k, _ in p], ["PatternTrack"] * len(w) + ["PatternMasterTrack", "PatternSendTrack"], f"tracks of pattern {i}")
        for k, lines in p:
            if k != "PatternTrack":
                sut.need(not lines, lambda: f"lines on a {k}")
        for c, (lines, wl) in enumerate(zip(xrnsfmt.note_tracks(p), w)):
            sut.same(len(lines), len({ln[0] for ln in lines}), f"pattern {i} track {c}: lines given twice")
            sut.same({ln[0]: list(ln[1:]) for ln in lines}, wl, f"pattern {i} track {c}")
    sut.same(xrnsfmt.sequence(root), want["s"], "sequence")


def check(case):
    s = sut.fresh()
    with sut.running("building and writing a song"):
        b = models.Built(s, case)
        for o in case["steps"]:
            b.step(o)
        before = b.plain()
        data = write(s, b.song)
        sut.same(b.plain(), before, "song model after writing")
        again = write(s, b.song)
    judge(data, b.want())
    sut.same(xrnsfmt.load(again)[1], xrnsfmt.load(data)[1], "Song.xml written a second time")
    lab = []
    kinds = {o[0] for o in case["steps"]}
    lab += sorted("has " + k for k in kinds)
    if len(b.t["tracks"]) > 8:
        lab.append("more tracks than colours")
    names = [t[0] for v in b.t.values() for t in v] + [b.g["song_name"], b.g["artist"]]
    if any(n and any(c in "<>&\"'" for c in n) for n in names):
        lab.append("markup characters")
    if any(n and not n.isascii() for n in names):
        lab.append("non-ASCII")
    if len(kinds) >= 3 and "note" in kinds:
        lab.append("nontrivial")
    return lab


def shapes(tier):
    for n in list(range(0, 20)) + [64, 256]:
        yield {"tracks": n, "instruments": n, "steps": [["note", 1, n - 1, 63, "C-4", "00", None], ["seq", 1], ["seq", 0]] if n else []}
    for k, v in models.DEFAULTS.items():
        new = ([1, 2, 3, 4] if isinstance(v, list) else True if v is False else v + 1 if isinstance(v, int) else "&<x>\"'")
        yield {"tracks": 1, "instruments": 0, "steps": [["global", k, new]]}
    for cp in list(range(32, 127)) + list(range(160, 800)) + [0x20AC, 0xFFFD, 0x1F600]:
        c = chr(cp)
        if c.isprintable():
            yield {"tracks": 1, "instruments": 0, "steps": [["global", "song_name", c + "x" + c], ["global", "artist", c],
                                                            ["track", "tracks", 0, "name", c], ["note", 0, 0, 0, c, None, None]]}


def lines(tier):
    """Patterns of every length, and of several lengths in one song."""
    for n in list(range(1, 130)) + [255, 256, 257, 511, 512, 1000]:
        yield {"tracks": 1, "instruments": 0, "lines": n, "steps": [["note", 1, 0, n - 1, "C-4", None, None], ["seq", 0], ["seq", 1]]}
        yield {"tracks": 1, "instruments": 0, "steps": [["pool", n], ["note", 1, 0, 0, "C-4", None, None], ["pool", 64], ["note", 2, 0, 0, "C-4", None, None],
                                                        ["length", 2, n + 1]]}


def large(tier):
    """Many of everything, and long names."""
    for n in (65, 129, 256, 1025, 70000):
        name = "".join(chr(33 + (i * 7 + i // 90) % 90) for i in range(n))
        yield {"tracks": 2, "instruments": 1, "steps": [["global", "song_name", name], ["global", "artist", name], ["track", "tracks", 1, "name", name],
                                                        ["track", "master_tracks", 0, "name", name], ["track", "send_tracks", 0, "name", name],
                                                        ["add", "tracks", name], ["note", 0, 0, 0, name, name, name]]}
    for n in (300, 1100, 5000):
        yield {"tracks": 1, "instruments": n, "steps": [["note", 0, 0, k, "C-4", f"{k:X}", None] for k in range(n)]}
        yield {"tracks": 1, "instruments": 0, "steps": [["seq", k * 7 % n] for k in range(n)]}
        yield {"tracks": 1, "instruments": 0, "steps": [["add", "tracks", str(k)] for k in range(n)] + [["add", "send_tracks", str(k)] for k in range(n)]}
        yield {"tracks": 2, "instruments": 0, "steps": [["note", n, 1, 3, "C-4", "00", None], ["note", n // 2, 0, 900, "C-5", "00", None]]}


def combined(tier):
    """Every combination of the settings of a track and of a line, and every pair of globals."""
    import itertools
    for kind, name, state, solo in itertools.product(("tracks", "master_tracks", "send_tracks"), (None, "", "T"), ("Active", "Off", "Muted"), (False, True)):
        yield {"tracks": 2, "instruments": 0, "steps": [["track", kind, 1, "name", name], ["track", kind, 1, "state", state], ["track", kind, 1, "soloed", solo]]}
    for line in (0, 63, 64):
        steps = []
        for k, (note, ins, pan) in enumerate(itertools.product((None, "", "Off", "C-4"), (None, "", "00", "FF"), (None, "", "00", "80", "F0"))):
            steps.append(["note", k, k % 2, line, note, ins, pan])
        yield {"tracks": 2, "instruments": 1, "steps": steps}
    values = {k: [[], [0], [100, 0, 50, 25]] if isinstance(v, list) else [False, True] if isinstance(v, bool) else [0, 1, 255] if isinstance(v, int) else ["", "&x"]
              for k, v in models.DEFAULTS.items()}
    for a, b in itertools.combinations(sorted(values), 2):
        for x, y in itertools.product(values[a], values[b]):
            yield {"tracks": 1, "instruments": 0, "steps": [["global", a, x], ["global", b, y]]}


def rewritten(tier):
    """A song is written, one part of it is changed (once, back, and again), and it is written again."""
    base = [["note", p, c, ln, "C-4", "01", "80"] for p in range(3) for c in range(3) for ln in (0, 5, 63)] + \
        [["seq", k] for k in (0, 1, 2, 1)] + [["global", "song_name", "first"], ["track", "tracks", 1, "name", "one"]]
    changes = []
    for k, v in models.DEFAULTS.items():
        new = ([9, 0, 1] if isinstance(v, list) else not v if isinstance(v, bool) else v + 5 if isinstance(v, int) else "second")
        changes.append([["global", k, new], ["global", k, v]])
        if isinstance(v, list):
            changes.append([["global", k, [4, 3, 2, 1]], ["global", k, [1, 2, 3, 4]]])
    for kind in ("tracks", "master_tracks", "send_tracks"):
        for i in (0, 1, 2):
            changes += [[["track", kind, i, f, v], ["track", kind, i, f, w]] for f, v, w in (
                ("name", "another", ""), ("name", None, "x"), ("state", "Muted", "Off"), ("soloed", True, False))]
        changes += [[["add", kind, "more"], ["drop", kind, 0]], [["drop", kind, 0], ["add", kind, None]]]
    for p, c, ln in ((0, 0, 0), (2, 2, 63), (1, 1, 5), (0, 2, 5), (1, 0, 7), (3, 1, 0)):
        for new in (["D-5", "01", "80"], ["C-4", "02", "80"], ["C-4", "01", "F0"], ["Off", None, None], [None, None, None]):
            changes.append([["note", p, c, ln, *new], ["note", p, c, ln, "C-4", "01", "80"]])
    changes += [[["drop", "line", p, c, 1], ["note", p, c, 5, "E-1", "00", None]] for p in range(3) for c in range(3)]
    changes += [[["again", "line", 0, 0, 1, 9], ["note", 0, 0, 9, "E-1", None, None]], [["again", "pattern", 1], ["note", 1, 0, 0, "E-1", "03", None]],
                [["again", "lines", 1, 0, 2], ["note", 1, 0, 33, "E-1", None, None]], [["again", "tracks", 1], ["track", "tracks", 1, "name", "both"]],
                [["again", "entry", 2], ["drop", "entry", 0]], [["reverse"], ["seq", 0]], [["seq", 2], ["drop", "entry", 1]], [["drop", "entry", 1], ["seq", 1]],
                [["instr"], ["drop", "instrument", 0]], [["drop", "instrument", 0], ["instr"]], [["length", 1, 16], ["length", 1, 128]],
                [["pool", 16], ["note", 4, 0, 0, "C-1", None, None]]]
    for a, b in changes:
        yield {"tracks": 3, "instruments": 4, "steps": base + [["write"], a]}
        yield {"tracks": 3, "instruments": 4, "steps": base + [["write"], a, ["write"], b]}
        yield {"tracks": 3, "instruments": 4, "steps": base + [["write"], a, b, ["write"], a]}


def check_palette(case):
    """An exporter with colours of its own: in order, and none beyond the palette."""
    s = sut.fresh()
    with sut.running("rendering with a palette"):
        cfg = s.serializer.SerializerConfig()
        cfg.track_colors = list(case["palette"])
        cfg.master_track_color, cfg.send_track_color = case["master"], case["send"]
        r = s.serializer.XrnsSerializer(cfg)
        for n in case["tracks"]:
            t = r.render(s.song.Song(tracks=n)).tracks
            p = case["palette"][:n]
            sut.same([x.color for x in t.sequencer_track], p + [None] * (n - len(p)), f"colours of {n} tracks")
            sut.same([x.color for x in t.sequencer_master_track], [case["master"]], "colour of the master track")
            sut.same([x.color for x in t.sequencer_send_track], [case["send"]], "colour of the send track")
        sut.same([cfg.track_colors, cfg.master_track_color, cfg.send_track_color],
                 [case["palette"], case["master"], case["send"]], "palette after rendering")
        # another exporter, with the usual colours
        t = s.serializer.XrnsSerializer().render(s.song.Song(tracks=10)).tracks
        sut.same([x.color for x in t.sequencer_track], models.PALETTE + [None] * 2, "colours of another exporter")
    return ["nontrivial"] if case["palette"] and max(case["tracks"], default=0) > 1 else []


def one_exporter(tier):
    """Specs of two songs and the order in which one exporter renders them."""
    for na, nb in ((1, 1), (2, 5), (8, 8), (9, 20), (0, 3), (12, 4)):
        for order in ("aa", "aba", "abab", "aabb", "aaabbbaaa"):
            for palette in (None, [], ["1,2,3", "4,5,6", "7,8,9"]):
                yield {"a": na, "b": nb, "order": order, "palette": palette}


def check_one_exporter(case):
    """Whatever an exporter rendered before, a song comes out as from a new one."""
    s = sut.fresh()
    with sut.running("rendering with one exporter"):
        def exporter():
            cfg = s.serializer.SerializerConfig()
            if case["palette"] is not None:
                cfg.track_colors = list(case["palette"])
            return s.serializer.XrnsSerializer(cfg)
        built = {}
        for k in "ab":
            n = case[k]
            b = models.Built(s, {"tracks": n, "instruments": n})
            for o in [["global", "song_name", k]] + [o for c in range(n) for o in (["track", "tracks", c, "name", f"{k}{c}"],
                                                                              ["note", c % 3, c, c, "C-4", "00", "80"], ["seq", c % 3])]:
                b.step(o)
            built[k] = b
        one = exporter()
        for j, k in enumerate(case["order"]):
            got, want = one.render(built[k].song), exporter().render(built[k].song)
            sut.need(got == want, lambda: f"song {k} as rendering {j + 1} of {case['order']} by one exporter differs from that by a new one")
            p = models.PALETTE if case["palette"] is None else case["palette"]
            sut.same([x.color for x in got.tracks.sequencer_track], (p + [None] * case[k])[:case[k]], f"colours of song {k}, rendering {j + 1}")
    return ["nontrivial"] if max(case["a"], case["b"]) > 1 else []


def palettes():
    color = st.one_of(st.tuples(*[st.integers(0, 255)] * 3).map(lambda t: ",".join(map(str, t))), st.sampled_from(["", "0,0,0"]))
    return st.fixed_dictionaries({"palette": st.lists(color, max_size=20), "master": color, "send": color,
                                  "tracks": st.lists(st.integers(0, 25), min_size=1, max_size=4)})


PROPERTY = Property(
    "C17",
    "Songs built step by step from the parts (notes anywhere and again, sequence entries, globals, track names, states, "
    "extra tracks and instruments); the written Song.xml is parsed and compared value by value with a plain record of "
    "the steps, as is the song model before and after writing. Non-trivial: at least three kinds of step, notes among "
    "them. Enumerated: 0 to 256 tracks and instruments, each global alone, each printable Latin character as a name, all combinations of a track's and of a line's settings, pairs of globals, patterns of 1 to 130 lines and more, each part changed between two writes. Exporters with palettes of their own. One exporter rendering songs again and again.",
    [
        Sub("shapes", check, enum=shapes),
        Sub("combined", check, enum=combined),
        Sub("lines", check, enum=lines),
        Sub("rewritten", check, enum=rewritten),
        Sub("large", check, enum=large, slow=5),
        Sub("exporter", check_one_exporter, enum=one_exporter),
        Sub("palettes", check_palette, gen=palettes(), quick=500, thorough=10000),
        Sub("songs", check, gen=models.specs(), quick=3000, thorough=80000),
    ],
    ["characters that XML cannot hold or normalises (control characters, line ends) are not generated",
     "the order of lines within a pattern track is judged in C09"],
)
