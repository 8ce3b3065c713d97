"""Songs built from the Renoise song parts, as lists of steps, and the XML they must give."""
from hypothesis import strategies as st

PALETTE = ["166,41,41", "166,80,41", "166,118,41", "166,144,41", "161,166,41", "118,166,47", "71,166,47", "63,166,106"]
MASTER, SEND = "220,220,220", "41,166,153"

GLOBALS = {"beats_per_min": "BeatsPerMin", "lines_per_beat": "LinesPerBeat", "ticks_per_line": "TicksPerLine",
           "signature_numerator": "SignatureNumerator", "signature_denominator": "SignatureDenominator",
           "metronome_beats_per_bar": "MetronomeBeatsPerBar", "metronome_lines_per_beat": "MetronomeLinesPerBeat",
           "shuffle_is_active": "ShuffleIsActive", "shuffle_amounts": "ShuffleAmounts", "octave": "Octave",
           "loop_coeff": "LoopCoeff", "song_name": "SongName", "artist": "Artist"}
DEFAULTS = {"beats_per_min": 120, "lines_per_beat": 4, "ticks_per_line": 12, "signature_numerator": 4,
            "signature_denominator": 4, "metronome_beats_per_bar": 4, "metronome_lines_per_beat": 0,
            "shuffle_is_active": False, "shuffle_amounts": [0, 0, 0, 0], "octave": 3, "loop_coeff": 4,
            "song_name": "Untitled", "artist": "FooBar"}


def printable():
    special = st.sampled_from(["&", "<", ">", '"', "'", "]]>", "<!--", "&amp;", "&#1;", "<?", " ", "  ", "\u00a7", "\u2028", "\U0001F3B5",
                               "e\u0301", "\u212b", "\ufb01", "\u00df", "\u0130", "\uff21", "%s", "%20", "{}", "\\n", "\\u0041", "$a", "&lt;"])
    ch = st.characters(exclude_categories=("Cs", "Cc", "Cn", "Co")).filter(str.isprintable)
    return st.one_of(st.lists(st.one_of(special, ch, ch), max_size=12).map("".join),
                     st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=20),
                     st.integers(20, 5000).map(lambda n: ("long name " * (n // 10 + 1))[:n]),
                     st.sampled_from(["", " ", " x ", "Track 1", "\u4e2d\u6587", "None", "true", "0"]))


def globals_step():
    num = st.one_of(st.integers(0, 999), st.integers(-5, 1 << 40))

    def val(k):
        if k == "shuffle_is_active":
            return st.booleans()
        if k == "shuffle_amounts":
            return st.lists(st.integers(0, 100), max_size=6)
        if k in ("song_name", "artist"):
            return printable()
        return num
    return st.sampled_from(sorted(GLOBALS)).flatmap(lambda k: st.tuples(st.just("global"), st.just(k), val(k)))


def steps(tracks):
    note = st.one_of(st.none(), st.sampled_from(["C-4", "Off", "A#0", "B-7", "C-8"]), printable())
    small = st.one_of(st.none(), st.sampled_from(["00", "0A", "FF", "F0", "80", "1FF"]))
    nt = st.tuples(st.just("note"), st.one_of(st.integers(0, 4), st.integers(0, 25)), st.integers(0, tracks - 1),
                   st.one_of(st.integers(0, 70), st.sampled_from([0, 63, 64, 511, 512, 1000, 70000])), note, small, small)
    seq = st.tuples(st.just("seq"), st.one_of(st.integers(0, 5), st.integers(0, 1000)))
    kind = st.sampled_from(["tracks", "master_tracks", "send_tracks"])
    field = st.one_of(st.tuples(st.just("name"), st.one_of(st.none(), printable())),
                      st.tuples(st.just("state"), st.sampled_from(["Active", "Off", "Muted"])),
                      st.tuples(st.just("soloed"), st.booleans()))
    tr = st.tuples(kind, st.integers(0, 30), field).map(lambda t: ("track", t[0], t[1], t[2][0], t[2][1]))
    add = st.tuples(st.just("add"), kind, st.one_of(st.none(), printable()))
    i = st.integers(0, 30)
    rows = st.one_of(st.integers(1, 512), st.sampled_from([1, 16, 32, 63, 64, 65, 128, 512]))
    length = st.one_of(st.tuples(st.just("pool"), rows), st.tuples(st.just("length"), i, rows))
    # the same object in several places; something taken out again; writing before the song is complete
    again = st.one_of(st.tuples(st.just("again"), st.sampled_from(["entry", "pattern", "tracks", "send_tracks", "instrument"]), i),
                      st.tuples(st.just("again"), st.just("line"), i, i, i, i), st.tuples(st.just("again"), st.just("lines"), i, i, i),
                      st.tuples(st.just("drop"), st.sampled_from(["entry", "tracks", "send_tracks", "master_tracks", "instrument"]), i),
                      st.tuples(st.just("drop"), st.just("line"), i, i, i), st.just(("reverse",)), st.just(("write",)))
    s = [nt, nt, nt, nt, length, again, seq, seq, globals_step(), tr, add, st.just(("instr",))] if tracks else [seq, globals_step(), tr, st.just(("instr",))]
    return st.one_of(*s).map(list)


def specs(max_tracks=14, max_steps=40):
    n = st.one_of(st.just(8), st.integers(0, max_tracks))
    return n.flatmap(lambda t: st.fixed_dictionaries({
        "tracks": st.just(t), "lines": st.one_of(st.just(64), st.sampled_from([1, 16, 32, 63, 65, 128, 512]), st.integers(1, 600)), "instruments": st.one_of(st.integers(0, 3), st.integers(0, 40)),
        "steps": st.sampled_from([n for n in (0, 5, 15, 30) if n <= max_steps]).flatmap(lambda low: st.lists(steps(t), min_size=low, max_size=max_steps))}))


class Built:
    """The song under test and the plain description of what it holds."""

    def __init__(self, s, spec):
        self.s = s
        self.song = s.song.Song(tracks=spec["tracks"], instruments=spec["instruments"], **({"lines_per_track": spec["lines"]} if "lines" in spec else {}))
        self.g = {k: (list(v) if isinstance(v, list) else v) for k, v in DEFAULTS.items()}
        n = spec["tracks"]
        self.ntracks = n
        self.t = {"tracks": [[f"Track {i + 1}", "Active", False] for i in range(n)],
                  "master_tracks": [["Mst", "Active", False]], "send_tracks": [["S01", "Active", False]]}
        self.instruments = spec["instruments"]
        self.pats = []
        self.pool, self.lens = spec.get("lines", 64), []     # lines of new patterns, and of each there is
        self.seq = []

    def step(self, o):
        song = self.song
        if o[0] == "note":
            _, p, c, line, note, ins, pan = o
            song.pattern_pool.add_note(p, c, line, note, ins, pan)
            while len(self.pats) <= p:
                self.pats.append([{} for _ in range(self.ntracks)])
                self.lens.append(self.pool)
            self.pats[p][c][line] = [note, ins, pan]
        elif o[0] == "seq":
            song.pattern_sequence.add_pattern(o[1])
            self.seq.append(o[1])
        elif o[0] == "global":
            if isinstance(o[2], list) and len(o[2]) == 4:
                getattr(song.globals, o[1])[:] = list(o[2])  # in place: must not reach other songs
            else:
                setattr(song.globals, o[1], list(o[2]) if isinstance(o[2], list) else o[2])
            self.g[o[1]] = o[2]
        elif o[0] == "track":
            _, kind, i, field, v = o
            lst = getattr(song.tracks, kind)
            if lst:
                i %= len(lst)
                setattr(lst[i], field, v)
                self.t[kind][i][("name", "state", "soloed").index(field)] = v
        elif o[0] == "add":
            cls = {"tracks": "SequencerTrack", "master_tracks": "SequencerMasterTrack", "send_tracks": "SequencerSendTrack"}[o[1]]
            getattr(song.tracks, o[1]).append(getattr(self.s.track, cls)(o[2]))
            self.t[o[1]].append([o[2], "Active", False])
        elif o[0] in ("again", "drop", "reverse"):
            self.rearrange(o)
        elif o[0] == "pool":
            if self.plain() is not None:
                song.pattern_pool.lines_per_track = self.pool = o[1]
        elif o[0] == "length":
            if self.plain() is not None and self.lens:
                k = o[1] % len(self.lens)
                one = song.pattern_pool.patterns[k]
                one.lines_per_track = o[2]
                self.lens = [o[2] if p is one else n for p, n in zip(song.pattern_pool.patterns, self.lens)]
        elif o[0] == "write":
            import io
            self.s.writer.writer(io.BytesIO(), song)
        elif o[0] == "instr":
            song.instruments.append(self.s.instrument.Instrument())
            self.instruments += 1

    def rearrange(self, o):
        """The same object put in twice, or one taken out: the lists of the model share and lose in the same way."""
        if self.plain() is None:
            return      # the parts keep their content in another form
        song = self.song
        pats = song.pattern_pool.patterns
        what = o[1] if len(o) > 1 else "entry"
        if what in ("line", "lines"):
            if not pats or not self.ntracks:
                return
            p, c = o[2] % len(pats), o[3] % self.ntracks
            lines, mine = pats[p].tracks[c].lines, self.pats[p][c]
            if what == "lines":
                d = o[4] % self.ntracks
                pats[p].tracks[d] = pats[p].tracks[c]
                self.pats[p][d] = mine
            elif mine:
                k = sorted(mine)[o[4] % len(mine)]
                if o[0] == "drop":
                    del lines[k], mine[k]
                else:
                    lines[o[5]], mine[o[5]] = lines[k], mine[k]
            return
        pairs = {"entry": (song.pattern_sequence.sequence_entries, self.seq), "pattern": (pats, self.pats)}
        pairs.update({k: (getattr(song.tracks, k), self.t[k]) for k in self.t})
        if what == "instrument":
            if song.instruments:
                if o[0] == "again":
                    song.instruments.append(song.instruments[o[2] % len(song.instruments)])
                else:
                    song.instruments.pop(o[2] % len(song.instruments))
                self.instruments += 1 if o[0] == "again" else -1
            return
        theirs, mine = pairs[what]
        if what == "pattern" and o[0] == "again" and mine:
            self.lens.append(self.lens[o[2] % len(mine)])
        if o[0] == "reverse":
            theirs.reverse()
            mine.reverse()
        elif mine:
            k = o[2] % len(mine)
            if o[0] == "again":
                theirs.append(theirs[k])
                mine.append(mine[k])
            else:
                theirs.pop(k)
                mine.pop(k)

    def plain(self):
        """What the song object holds, through its public attributes; None if they have another form."""
        try:
            return self._plain()
        except (AttributeError, TypeError):
            return None

    def _plain(self):
        g = self.song.globals
        return {"g": {k: (list(getattr(g, k)) if k == "shuffle_amounts" else getattr(g, k)) for k in GLOBALS},
                "t": {k: [[t.name, t.state, t.soloed] for t in getattr(self.song.tracks, k)] for k in self.t},
                "i": len(self.song.instruments),
                "p": [[{ln: [x.note, x.instrument, x.pan] for ln, x in tr.lines.items()} for tr in p.tracks]
                      for p in self.song.pattern_pool.patterns],
                "l": [p.lines_per_track for p in self.song.pattern_pool.patterns],
                "s": [e.pattern for e in self.song.pattern_sequence.sequence_entries]}

    def want(self):
        return {"g": self.g, "t": self.t, "i": self.instruments, "p": self.pats, "l": self.lens, "s": self.seq}
