"""Reference model of what is to be extracted: a plain register file.

Parameters are derived from the raw bytes last written, at the moment they are needed; the model
shares neither structure nor field-by-field update code with the program.
"""

OPF = ("total_level", "attack_rate", "first_decay_rate", "first_decay_level", "second_decay_rate",
       "release_rate", "key_scale", "multiply", "first_detune", "second_detune", "ase")
CHF = ("fb", "ams", "pms", "connection", "noise", "noise_freq")
BASEF = ("lfo", "amp_md", "phs_md", "waveform")
NOTEF = ("right", "left", "octave", "note", "key_fraction")


class Chip:
    def __init__(self):
        self.mem = [0] * 256
        self.amd = self.pmd = 0
        self.time = 0
        self.events = [[] for _ in range(8)]
        self.instruments = []
        self.index = {}
        self.beats = set()
        self.started = False

    # -- parameters ---------------------------------------------------------------------------
    def base(self):
        m = self.mem
        return {"lfo": m[0x18], "amp_md": self.amd, "phs_md": self.pmd, "waveform": m[0x1B] % 4}

    def operator(self, ch, i):
        a, b, c, d, e, f = (self.mem[r + 8 * i + ch] for r in (0x40, 0x60, 0x80, 0xA0, 0xC0, 0xE0))
        return {"first_detune": a // 16 % 8, "multiply": a % 16, "total_level": b % 128,
                "key_scale": c // 64, "attack_rate": c % 32, "ase": d >= 128,
                "first_decay_rate": d % 32, "second_detune": e // 64, "second_decay_rate": e % 32,
                "first_decay_level": f // 16, "release_rate": f % 16}

    def channel(self, ch):
        m = self.mem
        a, b = m[0x20 + ch], m[0x38 + ch]
        return {"fb": a // 8 % 8, "connection": a % 8, "pms": b // 16 % 8, "ams": b % 4,
                "noise": ch == 7 and m[0x0F] >= 128, "noise_freq": m[0x0F] % 32 if ch == 7 else 0,
                "operators": [self.operator(ch, i) for i in range(4)]}

    def notecfg(self, ch):
        m = self.mem
        return {"right": m[0x20 + ch] >= 128, "left": m[0x20 + ch] // 64 % 2 == 1,
                "octave": m[0x28 + ch] // 16 % 8, "note": m[0x28 + ch] % 16,
                "key_fraction": m[0x30 + ch] // 4}

    # -- history ------------------------------------------------------------------------------
    def write(self, reg, value):
        if reg == 0x08:
            self.key(value % 8, value // 8 % 16)
        elif reg == 0x19:
            if value >= 128:
                self.pmd = value - 128
            else:
                self.amd = value
        else:
            self.mem[reg] = value

    def key(self, ch, ops):
        ident = -1
        if ops:
            self.started = True
            inst = {"base": self.base(), "ops": ops, "channel": self.channel(ch)}
            k = repr(inst)
            ident = self.index.get(k)
            if ident is None:
                ident = self.index[k] = len(self.instruments)
                self.instruments.append(inst)
            self.beats.add(self.time)
        if self.started:
            self.events[ch].append(dict(self.notecfg(ch), config_id=ident, sample=self.time))

    def run(self, prims):
        for p in prims:
            if p[0] == "w":
                self.write(p[1], p[2])
            else:
                self.time += p[1]
        return self

    def observe(self):
        return {"events": self.events, "instruments": self.instruments, "ticks": sorted(self.beats)}

    def current(self):
        return {"base": self.base(), "channels": [self.channel(c) for c in range(8)]}


# -- the same plain form, from the program's objects -------------------------------------------

def plain_operator(o):
    return {f: getattr(o, f) for f in OPF}


def plain_channel(c):
    d = {f: getattr(c, f) for f in CHF}
    d["operators"] = [plain_operator(o) for o in c.operators]
    return d


def plain_base(b):
    d = {f: getattr(b, f) for f in BASEF}
    d["waveform"] = d["waveform"].value
    return d


def plain_instrument(c):
    return {"base": plain_base(c), "ops": c.enabled_operators.value, "channel": plain_channel(c)}


def plain_event(n):
    d = {f: getattr(n, f) for f in NOTEF}
    d["config_id"], d["sample"] = n.config_id, n.sample
    return d


def plain_state(st):
    return {"events": [[plain_event(n) for n in st.key_presses(c)] for c in range(8)],
            "instruments": [plain_instrument(c) for c in st.configs],
            "ticks": list(st.ticks())}


def plain_current(st):
    return {"base": plain_base(st), "channels": [plain_channel(st.channel_config(c)) for c in range(8)]}


def feed(sut, st, prims):
    create = sut.config.create
    for p in prims:
        if p[0] == "w":
            st.apply(create(p[1], p[2]))
        else:
            st.beat(p[1])
    return st


# -- row length --------------------------------------------------------------------------------

def row_length(ticks):
    """Smallest shift in 1000..7999 with the fewest mismatches, from the definition in C12."""
    a = sorted(t for t in set(ticks) if t < 32000)
    if not a:
        return 1000
    aset = set(a)
    last = a[-1]
    best = None
    for d in range(1000, 8000):
        b = {t + d for t in a}
        cost = len(aset - b) + sum(1 for t in b - aset if t <= last)
        if best is None or cost < best[0]:
            best = (cost, d)
    return best[1]


def row_length_fast(ticks):
    """The same through tick differences (kept equal to row_length by a self-test in C12)."""
    return best_row_lengths(ticks, 1)[0]


def best_row_lengths(ticks, n):
    """The n shifts with the fewest mismatches, smaller ones first among equals."""
    import bisect
    import heapq
    from collections import Counter
    a = sorted(t for t in set(ticks) if t < 32000)
    if not a:
        return list(range(1000, 1000 + n))
    diff = Counter()
    for i, x in enumerate(a):
        for y in a[i + 1:]:
            diff[y - x] += 1
    size, last = len(a), a[-1]
    return [d for _, d in heapq.nsmallest(n, ((size + bisect.bisect_right(a, last - d) - 2 * diff.get(d, 0), d)
                                              for d in range(1000, 8000)))]
