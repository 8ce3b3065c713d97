"""Reads an exported .xrns file with the standard zip and XML readers; the expected cells."""
import io
import xml.etree.ElementTree as ET
import zipfile

from . import sut

LINES = 64
# Renoise note names; index = semitone above C
NAMES = ["C-", "C#", "D-", "D#", "E-", "F-", "F#", "G-", "G#", "A-", "A#", "B-"]
# YM2151 key codes in ascending pitch: C# D D# E F F# G G# A A# B C (of the octave above)
CODES = [0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14]


def pitch(octave, code):
    """Renoise name of the chip's pitch, None for the four codes the chip does not define."""
    if code not in CODES:
        return None
    semis = 12 * octave + 1 + CODES.index(code)
    return f"{NAMES[semis % 12]}{semis // 12}"


def cell(e):
    """Expected (note, instrument, panning) of an event; note None: not judged."""
    if e["config_id"] < 0:
        note, ins = "Off", None
    else:
        note, ins = pitch(e["octave"], e["note"]), f"{e['config_id']:02X}"
    pan = None if (e["right"] and e["left"]) else ("00" if e["right"] else "F0")
    return note, ins, pan


def expected_cells(events, tpn):
    """{channel: {total row: cell}} of a model's events."""
    out = {}
    for ch, es in enumerate(events):
        d = {}
        for e in es:
            d[e["sample"] // tpn] = cell(e)
        out[ch] = d
    return out


def _text(el, name):
    """Text of the single child of that name, None if there is none."""
    found = el.findall(name)
    sut.need(len(found) <= 1, lambda: f"<{el.tag}> has {len(found)} <{name}>")
    if not found:
        return None
    return found[0].text or ""


def _one(el, path):
    for name in path.split("/"):
        found = el.findall(name)
        sut.need(len(found) == 1, lambda: f"<{el.tag}> has {len(found)} <{name}>, expected one")
        el = found[0]
    return el


@sut.judged
def load(data):
    """(root element, Song.xml bytes) of an exported file."""
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            sut.need(z.testzip() is None, "damaged zip entry")
            names = z.namelist()
            sut.same(names, ["Song.xml"], "files in the archive")
            # nothing before the first entry and nothing after the directory
            at = data.rfind(b"PK\5\6")
            sut.need(data[:4] == b"PK\3\4" and at + 22 + len(z.comment) == len(data),
                     "the exported file has other bytes around the archive")
            xml = z.read("Song.xml")
    except (zipfile.BadZipFile, EOFError, OSError) as e:
        raise sut.Violation(f"the exported file is not a valid zip archive: {e}")
    try:
        root = ET.fromstring(xml)
    except ET.ParseError as e:
        raise sut.Violation(f"Song.xml is not well-formed: {e}")
    sut.same(root.tag, "RenoiseSong", "document element")
    return root, xml


@sut.judged
def tracks(root):
    """[(element name, name, color, state, soloed, mixer devices)]"""
    out = []
    for t in _one(root, "Tracks"):
        dev = _one(t, "FilterDevices/Devices")
        out.append({"kind": t.tag, "type": t.get("type"), "name": _text(t, "Name"), "color": _text(t, "Color"),
                    "state": _text(t, "State"), "soloed": _text(t, "Soloed"), "devices": [d.tag for d in dev]})
    return out


@sut.judged
def patterns(root):
    """[[(track kind, [(index, note, instrument, panning)])]]"""
    out = []
    for p in _one(root, "PatternPool/Patterns"):
        sut.same(p.tag, "Pattern", "element in the pattern pool")
        pt = []
        for t in _one(p, "Tracks"):
            sut.same(t.get("type"), t.tag, f"stated type of a <{t.tag}> of a pattern")
            lines = []
            ls = t.findall("Lines")
            sut.need(len(ls) <= 1, "several <Lines> in a pattern track")
            for ln in (ls[0] if ls else ()):
                sut.same(ln.tag, "Line", "element among the lines")
                idx = ln.get("index")
                sut.need(idx is not None and idx.isdigit(), lambda: f"line index {idx!r}")
                cols = ln.findall("NoteColumns/NoteColumn")
                sut.need(len(cols) == 1, lambda: f"{len(cols)} note columns in a line")
                for c in cols:
                    for x in c:
                        sut.need(x.tag in ("Note", "Instrument", "Panning"), lambda: f"unexpected <{x.tag}> in a cell")
                    for x in ln:
                        sut.need(x.tag == "NoteColumns", lambda: f"unexpected <{x.tag}> in a line")
                    lines.append((int(idx), _text(c, "Note"), _text(c, "Instrument"), _text(c, "Panning")))
            pt.append((t.tag, lines))
        out.append(pt)
    return out


@sut.judged
def lengths(root):
    """The number of lines that each pattern states; 64, as Renoise takes it, if it states none."""
    out = []
    for p in _one(root, "PatternPool/Patterns"):
        n = _text(p, "NumberOfLines")
        sut.need(n is None or n.isdigit(), lambda: f"a pattern of {n!r} lines")
        out.append(LINES if n is None else int(n))
    return out


@sut.judged
def bare(root):
    """Nothing but what a song model has: no further elements, attributes or texts."""
    kids = {"Instruments": {"Instrument"}, "Instrument": set(), "Devices": {"TrackMixerDevice", "MasterTrackMixerDevice", "SendTrackMixerDevice"},
            "FilterDevices": {"Devices"}, "TrackMixerDevice": set(), "MasterTrackMixerDevice": set(), "SendTrackMixerDevice": set(),
            "PatternPool": {"Patterns"}, "Patterns": {"Pattern"}, "PatternTrack": {"Lines"}, "PatternMasterTrack": {"Lines"},
            "PatternSendTrack": {"Lines"}, "Lines": {"Line"}, "Line": {"NoteColumns"}, "NoteColumns": {"NoteColumn"},
            "NoteColumn": {"Note", "Instrument", "Panning"}, "PatternSequence": {"SequenceEntries"},
            "SequenceEntries": {"SequenceEntry"}, "SequenceEntry": {"Pattern"}}

    def walk(el, path, inside=True):
        tag = el.tag
        allowed = kids.get(tag)
        if tag == "Pattern":
            allowed = {"Tracks", "NumberOfLines"} if path == "Patterns" else None
        if tag == "Instrument" and path == "NoteColumn":
            allowed = None
        attrs = {"index"} if tag == "Line" else {"type"} if path in ("Tracks", "Devices") else {"doc_version"} if tag == "RenoiseSong" else set()
        sut.need(set(el.attrib) <= attrs, lambda: f"<{tag}> in <{path}> has attributes {dict(el.attrib)}")
        if allowed is not None:
            sut.need({c.tag for c in el} <= allowed, lambda: f"<{tag}> in <{path}> holds {sorted({c.tag for c in el} - allowed)}")
            sut.need(not (el.text or "").strip(), lambda: f"<{tag}> in <{path}> has the text {el.text!r}")
        for c in el:
            sut.need(not (c.tail or "").strip(), lambda: f"text {c.tail!r} in <{tag}>")
            walk(c, tag)

    walk(root, "")


@sut.judged
def sequence(root):
    out = []
    for e in _one(root, "PatternSequence/SequenceEntries"):
        sut.same(e.tag, "SequenceEntry", "element in the sequence")
        p = _text(e, "Pattern")
        sut.need(p is not None and p.isdigit(), lambda: f"sequence entry without pattern: {p!r}")
        out.append(int(p))
    return out


@sut.judged
def instruments(root):
    return [i.tag for i in _one(root, "Instruments")]


@sut.judged
def song_global(root, name):
    return _text(_one(root, "GlobalSongData"), name)


def note_tracks(pattern):
    return [lines for kind, lines in pattern if kind == "PatternTrack"]


@sut.judged
def cells(root):
    """{channel: {total row: cell}} following the sequence, with the form of the lines checked."""
    pats = patterns(root)
    out = {c: {} for c in range(8)}
    pos = 0
    for p in sequence(root):
        sut.need(p < len(pats), lambda: f"the sequence plays pattern {p} of {len(pats)}")
        nt = note_tracks(pats[p])
        sut.same(len(nt), 8, f"note tracks in pattern {p}")
        for c, lines in enumerate(nt):
            last = -1
            for idx, note, ins, pan in lines:
                sut.need(idx > last, lambda: f"pattern {p} track {c + 1}: line {idx} follows line {last}")
                sut.need(idx < LINES, lambda: f"pattern {p} track {c + 1}: line {idx} is outside the pattern")
                last = idx
                out[c][pos * LINES + idx] = (note, ins, pan)
        pos += 1
    return out


def same_cells(got, want):
    for c in range(8):
        g, w = got[c], want[c]
        sut.same(sorted(g), sorted(w), f"rows filled in track {c + 1}")
        for r in sorted(w):
            a, b = g[r], w[r]
            if b[0] is None and a[0] is not None:
                b = (a[0],) + tuple(b[1:])
            sut.same(tuple(a), tuple(b), f"track {c + 1} row {r} (note, instrument, panning)")


def number(text):
    try:
        return float(text)
    except (TypeError, ValueError):
        raise sut.Violation(f"not a number: {text!r}")
