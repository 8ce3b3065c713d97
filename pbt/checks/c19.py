"""C19: equality and copies of settings."""
import copy
import types

from hypothesis import strategies as st

from .. import chip, sut
from ..core import Property, Sub

B = "bool"
KINDS = {
    "BaseConfig": {"lfo": 255, "amp_md": 127, "phs_md": 127, "waveform": "wave"},
    "OperatorConfig": {"total_level": 127, "attack_rate": 31, "first_decay_rate": 31, "first_decay_level": 15,
                       "second_decay_rate": 31, "release_rate": 15, "key_scale": 3, "multiply": 15, "first_detune": 7,
                       "second_detune": 3, "ase": B},
    "NoteConfig": {"right": B, "left": B, "octave": 7, "note": 15, "key_fraction": 63},
    "ChannelConfig": {"fb": 7, "ams": 3, "pms": 7, "connection": 7, "noise": B, "noise_freq": 31},
}


def make(s, kind, plain):
    o = getattr(s.config, kind)()
    put(s, o, kind, plain)
    return o


def put(s, o, kind, plain):
    for f, lim in KINDS[kind].items():
        setattr(o, f, s.config.Waveform(plain[f]) if lim == "wave" else plain[f])
    if kind == "ChannelConfig":
        for op, p in zip(o.operators, plain["operators"]):
            put(s, op, "OperatorConfig", p)


def plain_of(o, kind):
    d = {f: getattr(o, f) for f in KINDS[kind]}
    if "waveform" in d:
        d["waveform"] = d["waveform"].value
    if kind == "ChannelConfig":
        d["operators"] = [plain_of(x, "OperatorConfig") for x in o.operators]
    return d


def set_path(s, o, kind, path, v):
    """Change one parameter, possibly of a nested operator."""
    if path[0] == "operators":
        return set_path(s, o.operators[path[1]], "OperatorConfig", path[2:], v)
    setattr(o, path[0], s.config.Waveform(v) if KINDS[kind][path[0]] == "wave" else v)


def with_path(plain, path, v):
    d = copy.deepcopy(plain)
    x = d
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v
    return d


def paths(kind):
    out = [[f] for f in KINDS[kind]]
    if kind == "ChannelConfig":
        out += [["operators", i, f] for i in range(4) for f in KINDS["OperatorConfig"]]
    return out


def limit(kind, path):
    return KINDS["OperatorConfig" if path[0] == "operators" else kind][path[-1]]


def other_values(kind, path, old):
    lim = limit(kind, path)
    if lim == B:
        return [not old]
    top = 3 if lim == "wave" else lim
    out = {old ^ (1 << b) for b in range(8)} | {top - old, 0, top}
    return sorted(v for v in out if 0 <= v <= top and v != old)


def foreign_values(s):
    return [None, 0, 1, True, "x", "", [], {}, (), object(), s.config.Operators.MOD1]


class Alike:
    """A value of another kind with the same attributes."""

    def __init__(self, d):
        self.__dict__.update(d)


def alikes(s, x, kind):
    """Values of other kinds that hold the same parameters."""
    names = list(KINDS[kind]) + (["operators"] if kind == "ChannelConfig" else [])
    d = {f: getattr(x, f) for f in names}
    d.update(getattr(x, "__dict__", {}))        # and whatever else it keeps in the open
    return [Alike(d), types.SimpleNamespace(**d), d, list(d.values()), tuple(d.values()), str(x), repr(x)]


def check_pair(case):
    """Equality of two values; and with anything of another kind."""
    s = sut.fresh()
    kind = case["kind"]
    with sut.running(f"comparing two {kind}"):
        a, b = make(s, kind, case["a"]), make(s, kind, case["b"])
        want = case["a"] == case["b"]
        for x, y, w in ((a, b, want), (b, a, want), (a, a, True), (b, b, True)):
            sut.same([x == y, x != y], [w, not w], f"{kind}: equality of {plain_of(x, kind)} and {plain_of(y, kind)}")
        others = [make(s, k, zero(k)) for k in KINDS if k != kind] + foreign_values(s)
        fresh = getattr(s.config, kind)()
        for x in (a, fresh):
            for o in others + alikes(s, x, kind):
                sut.need(not (x == o) and not (o == x) and x != o, lambda: f"{kind} equals {o!r}")
        sut.same([plain_of(a, kind), plain_of(b, kind)], [case["a"], case["b"]], f"{kind} after comparing")
    return ["nontrivial", "equal" if want else "different"]


def zero(kind):
    d = {f: (False if lim == B else 0) for f, lim in KINDS[kind].items()}
    if kind == "ChannelConfig":
        d["operators"] = [zero("OperatorConfig") for _ in range(4)]
    return d


def check_copy(case):
    """A copy equals the original; changes to either do not reach the other; copies of copies too."""
    s = sut.fresh()
    kind = case["kind"]
    with sut.running(f"copying a {kind}"):
        cls = getattr(s.config, kind)
        make_copy = {"deepcopy": copy.deepcopy, "constructor": lambda o: cls(o)}[case["how"]]
        objs = [make(s, kind, case["a"])]
        want = [case["a"]]
        for src, path, v in case["steps"]:
            src %= len(objs)
            if path is None:
                objs.append(make_copy(objs[src]))
                want.append(copy.deepcopy(want[src]))
                sut.need(objs[-1] is not objs[src] and type(objs[-1]) is cls, f"{kind}: copying gives something else")
                sut.need(objs[-1] == objs[src], f"{kind}: the copy is not equal to the original")
            else:
                set_path(s, objs[src], kind, path, v)
                want[src] = with_path(want[src], path, v)
            sut.same([plain_of(o, kind) for o in objs], want, f"{kind}: originals and copies after {[src, path, v]}")
        for i in range(len(objs)):
            for j in range(len(objs)):
                sut.same(objs[i] == objs[j], want[i] == want[j], f"{kind}: equality among originals and copies")
        # a new value is unaffected by anything before
        sut.same(plain_of(cls(), kind), zero(kind), f"{kind}: a new value")
    n = len(objs)
    changed = any(p is not None for _, p, _ in case["steps"])
    return ["nontrivial"] if n >= 2 and changed else []


def check_compare(case):
    """A stored instrument against a patch."""
    s = sut.fresh()
    with sut.running("comparing an instrument with a patch"):
        def patch(p):
            return make(s, "BaseConfig", p["base"]), make(s, "ChannelConfig", p["channel"]), s.config.Operators(p["ops"])
        ident = case["id"]
        base, channel, ops = patch(case["a"])
        c = s.config.Config(ident, base, channel, ops)
        for p in (case["a"], case["b"]):
            want = p == case["a"]
            sut.same(bool(c.compare(*patch(p))), want, f"comparing {case['a']} with {p}")
        # with the very settings it was made of, and with settings that are the same in part
        other = patch(case["b"])
        for mask in range(8):
            parts = [other[i] if mask >> i & 1 else (base, channel, ops)[i] for i in range(3)]
            want = all(not mask >> i & 1 or case["a"][k] == case["b"][k] for i, k in enumerate(("base", "channel", "ops")))
            sut.same(bool(c.compare(*parts)), want, f"comparing with parts of its own and of {case['b']}")
        same_again = s.config.Config(ident, *other)
        sut.same(bool(same_again.compare(base, channel, ops)), case["a"] == case["b"], "comparing the other way round")
        sut.same(chip.plain_instrument(c), {"base": case["a"]["base"], "ops": case["a"]["ops"], "channel": case["a"]["channel"]},
                 "an instrument's parameters")
    return ["nontrivial", "same patch" if case["a"] == case["b"] else "different patch"]


# -- generators ---------------------------------------------------------------------------------

def val(lim):
    return st.booleans() if lim == B else st.integers(0, 3 if lim == "wave" else lim)


def plain(kind):
    d = {f: val(lim) for f, lim in KINDS[kind].items()}
    if kind == "ChannelConfig":
        d["operators"] = st.lists(plain("OperatorConfig"), min_size=4, max_size=4)
    return st.fixed_dictionaries(d)


MEETING = (1, 2, 4, 8, 10, 11, 12, 16, 32, 64, 100)


def traded(kind, a):
    """Two parameters changed at once: one a little, the other by an amount that could make up for it."""
    def trade(t):
        b = a
        for p, delta in zip(t[0], (t[1], -t[1] * t[2] if t[3] else t[2])):
            x = a
            for k in p:
                x = x[k]
            lim = limit(kind, p)
            b = with_path(b, p, (not x) if lim == B else max(0, min(3 if lim == "wave" else lim, x + delta)))
        return b
    return st.tuples(st.lists(st.sampled_from(paths(kind)), min_size=2, max_size=2, unique_by=tuple), st.sampled_from([-1, 1]),
                     st.sampled_from(MEETING), st.booleans()).map(trade)


def pairs():
    def near(kind):
        def change(a):
            one = st.sampled_from(paths(kind)).flatmap(
                lambda p: val(limit(kind, p)).map(lambda v: with_path(a, p, v)))
            return st.fixed_dictionaries({"kind": st.just(kind), "a": st.just(a),
                                          "b": st.one_of(st.just(a), one, one, swapped(kind, a), traded(kind, a), traded(kind, a), plain(kind))})
        return plain(kind).flatmap(change)
    return st.sampled_from(sorted(KINDS)).flatmap(near)


def swapped(kind, a):
    """Two parameters exchanged, or two operators."""
    if kind == "ChannelConfig":
        def sw(t):
            ops = list(a["operators"])
            ops[t[0]], ops[t[1]] = ops[t[1]], ops[t[0]]
            return dict(a, operators=ops)
        return st.tuples(st.integers(0, 3), st.integers(0, 3)).map(sw)
    names = sorted(KINDS[kind])
    return st.tuples(st.sampled_from(names), st.sampled_from(names)).map(
        lambda t: dict(a, **{t[0]: a[t[1]], t[1]: a[t[0]]})).filter(lambda d: legal(kind, d)).map(lambda d: d)


def legal(kind, d):
    for f, lim in KINDS[kind].items():
        if (lim == B) != isinstance(d[f], bool):
            return False
        if lim != B and d[f] > (3 if lim == "wave" else lim):
            return False
    return True


def copies():
    def steps(kind):
        change = st.sampled_from(paths(kind)).flatmap(lambda p: st.tuples(st.integers(0, 5), st.just(p), val(limit(kind, p))))
        step = st.one_of(st.tuples(st.integers(0, 5), st.none(), st.none()), change, change).map(list)
        return st.fixed_dictionaries({"kind": st.just(kind), "how": st.sampled_from(["deepcopy", "constructor"]), "a": plain(kind),
                                      "steps": st.lists(step, min_size=2, max_size=14)})
    return st.sampled_from(["ChannelConfig", "ChannelConfig", "BaseConfig", "OperatorConfig", "NoteConfig"]).flatmap(steps)


def patch_st():
    return st.fixed_dictionaries({"base": plain("BaseConfig"), "channel": plain("ChannelConfig"), "ops": st.integers(1, 15)})


def compares():
    def near(a):
        b = st.one_of(
            st.just(a), st.integers(1, 15).map(lambda o: dict(a, ops=o)),
            st.sampled_from(paths("BaseConfig")).flatmap(lambda p: val(limit("BaseConfig", p)).map(lambda v: dict(a, base=with_path(a["base"], p, v)))),
            st.sampled_from(paths("ChannelConfig")).flatmap(lambda p: val(limit("ChannelConfig", p)).map(lambda v: dict(a, channel=with_path(a["channel"], p, v)))),
            swapped("ChannelConfig", a["channel"]).map(lambda c: dict(a, channel=c)), patch_st())
        return st.fixed_dictionaries({"id": st.one_of(st.just(0), st.integers(0, 300)), "a": st.just(a), "b": b})
    return patch_st().flatmap(near)


def single_differences(tier):
    for kind in sorted(KINDS):
        bases = [zero(kind), full(kind)]
        for a in bases:
            yield {"kind": kind, "a": a, "b": a}
            for p in paths(kind):
                x = a
                for k in p:
                    x = x[k]
                for v in other_values(kind, p, x):
                    yield {"kind": kind, "a": a, "b": with_path(a, p, v)}


def full(kind):
    d = {f: (True if lim == B else 3 if lim == "wave" else lim) for f, lim in KINDS[kind].items()}
    if kind == "ChannelConfig":
        d["operators"] = [full("OperatorConfig") for _ in range(4)]
    return d


def single_changes(tier):
    for kind in sorted(KINDS):
        for how in ("deepcopy", "constructor"):
            for a in (zero(kind), full(kind)):
                for p in paths(kind):
                    x = a
                    for k in p:
                        x = x[k]
                    v = other_values(kind, p, x)[0]
                    for who in (0, 1):
                        yield {"kind": kind, "how": how, "a": a, "steps": [[0, None, None], [who, p, v]]}


def double_differences(tier):
    """Two parameters of one kind differ, for every two of them and values that could make up for each other."""
    for kind in sorted(KINDS):
        ps = paths(kind)
        for i, p in enumerate(ps):
            for j, q in enumerate(ps):
                if p == q or tier == "quick" and kind == "ChannelConfig" and (i + 3 * j) % 4:
                    continue
                lp, lq = limit(kind, p), limit(kind, q)
                for y in [1] if lq == B else [v for v in MEETING if v <= (3 if lq == "wave" else lq)]:
                    z = zero(kind)
                    yield {"kind": kind, "a": with_path(z, p, True if lp == B else 1), "b": with_path(z, q, True if lq == B else y)}


def patch_differences(tier):
    for f in (zero, full):
        a = {"base": f("BaseConfig"), "channel": f("ChannelConfig"), "ops": 15 if f is full else 1}
        for o in range(1, 16):
            yield {"id": o, "a": a, "b": dict(a, ops=o)}
        for part in ("base", "channel"):
            kind = {"base": "BaseConfig", "channel": "ChannelConfig"}[part]
            for p in paths(kind):
                x = a[part]
                for k in p:
                    x = x[k]
                for v in other_values(kind, p, x):
                    yield {"id": 0, "a": a, "b": dict(a, **{part: with_path(a[part], p, v)})}


PROPERTY = Property(
    "C19",
    "Pairs of settings that are equal, differ in one parameter, have two parameters or operators exchanged, or are "
    "unrelated; chains of copies with changes to originals and copies; instruments against patches. The oracle is the "
    "plain record of the parameters. Non-trivial: every pair; for copies, at least one copy and one change. Enumerated: "
    "every parameter alone with every bit changed, from all-zero and all-full settings.",
    [
        Sub("differences", check_pair, enum=single_differences),
        Sub("doubles", check_pair, enum=double_differences),
        Sub("changes", check_copy, enum=single_changes),
        Sub("patches", check_compare, enum=patch_differences),
        Sub("pairs", check_pair, gen=pairs(), quick=2500, thorough=60000),
        Sub("copies", check_copy, gen=copies(), quick=2000, thorough=60000),
        Sub("compare", check_compare, gen=compares(), quick=1500, thorough=50000),
    ],
    ["a copy is made by copy.deepcopy or by the constructor, the two ways the program offers"],
)
