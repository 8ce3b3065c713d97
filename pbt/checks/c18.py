"""C18: the Renoise document model."""
import dataclasses
import enum
import functools
import json
import keyword
import os
import re
import typing
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from .. import models, sut
from ..core import Property, Sub


# -- the classes of the model, by their qualified names -----------------------------------------

@functools.lru_cache(None)
def inventory():
    """({qualified name: data class}, {qualified name: enumeration})"""
    dao = sut.fresh().dao
    classes, enums = {}, {}

    def walk(owner):
        for n, v in vars(owner).items():
            if isinstance(v, type) and v.__module__ == dao.__name__ and v.__name__ == n:
                if issubclass(v, enum.Enum):
                    enums[v.__qualname__] = v
                elif dataclasses.is_dataclass(v):
                    classes[v.__qualname__] = v
                    walk(v)
    walk(dao)
    if len(classes) < 100 or len(enums) < 50:
        raise sut.Violation(f"the document model has only {len(classes)} classes and {len(enums)} enumerations")
    return classes, enums


@functools.lru_cache(None)
def hints(cls):
    return typing.get_type_hints(cls, vars(sut.fresh().dao))


def shape(t):
    """(is a list, type of one value)"""
    args = typing.get_args(t)
    if typing.get_origin(t) is list:
        return True, args[0]
    if typing.get_origin(t) is typing.Union:
        rest = [a for a in args if a is not type(None)]
        return False, rest[0]
    return False, t


def settable(cls):
    return [f for f in dataclasses.fields(cls) if f.init]


# -- plain values and the objects they describe -------------------------------------------------

def build_value(t, v):
    from xsdata.models.datatype import XmlDate, XmlTime
    if v is None:
        return None
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return list(t)[v % len(list(t))]
    if t is XmlDate:
        return XmlDate(*v)
    if t is XmlTime:
        return XmlTime(*v)
    if dataclasses.is_dataclass(t):
        return build(t, v)
    return v


def build(cls, plain):
    kw = {}
    for k, v in plain.items():
        many, t = shape(hints(cls)[k])
        kw[k] = [build_value(t, x) for x in v] if many else build_value(t, v)
    return cls(**kw)


def values(t, depth):
    from xsdata.models.datatype import XmlDate, XmlTime
    if t is str:
        # white space at the ends belongs to a text value; control characters are not XML
        return models.printable()
    if t is bool:
        return st.booleans()
    if t is int:
        return st.one_of(st.sampled_from([0, 1, -1, 255, 65535]), st.integers(-(1 << 31), 1 << 40))
    if t is float:
        return st.one_of(st.sampled_from([0.0, 1.0, -0.5, 0.1, 1e-7, 1e22]), st.floats(allow_nan=False, allow_infinity=False))
    if t is XmlDate:
        return st.tuples(st.integers(1, 9999), st.integers(1, 12), st.integers(1, 28)).map(list)
    if t is XmlTime:
        return st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(list)
    if issubclass(t, enum.Enum):
        return st.integers(0, len(list(t)) - 1)
    return objects(t, depth - 1)


@functools.lru_cache(None)
def objects(cls, depth):
    fields = [f for f in settable(cls) if depth > 0 or not dataclasses.is_dataclass(shape(hints(cls)[f.name])[1])]
    if not fields:
        return st.just({})

    def chosen(names):
        d = {}
        for n in names:
            many, t = shape(hints(cls)[n])
            v = st.deferred(lambda t=t: values(t, depth))
            d[n] = st.lists(v, min_size=1, max_size=3) if many else v
        return st.fixed_dictionaries(d)
    # mandatory fields are always given
    must = [f.name for f in fields if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING]
    return st.lists(st.sampled_from([f.name for f in fields]), unique=True, max_size=6).map(
        lambda ns: tuple(sorted(set(ns) | set(must)))).flatmap(chosen)


# -- writing and reading ------------------------------------------------------------------------

@functools.lru_cache(None)
def context():
    from xsdata.formats.dataclass.context import XmlContext
    return XmlContext()


def render(obj):
    from xsdata.formats.dataclass.serializers import XmlSerializer
    from xsdata.formats.dataclass.serializers.config import SerializerConfig
    return XmlSerializer(context=context(), config=SerializerConfig(pretty_print=True, encoding="UTF-8", xml_version="1.0")).render(obj)


def parse(xml, cls):
    import warnings
    from xsdata.formats.dataclass.parsers import XmlParser
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return XmlParser(context=context()).from_string(xml, cls)


def norm(s):
    return re.sub(r"[^0-9a-z]", "", s.lower())


def own_name(field):
    if field.endswith("_value") and keyword.iskeyword(field[:-6]):
        field = field[:-6]  # a Python keyword cannot be a field name
    n = norm(field)
    return "type" if n == "typeattribute" else n


def judge_names(el, obj, where):
    """Element names, attribute names, stated types and enumeration values of an object's element."""
    cls = type(obj)
    expected = {}
    names = {f.name for f in dataclasses.fields(cls)}
    for f in dataclasses.fields(cls):
        v = getattr(obj, f.name)
        # the format has three attributes; "type" is an element where the class also has type_attribute
        attr = f.name in ("type_attribute", "doc_version", "index") or (f.name == "type" and "type_attribute" not in names)
        for x in (v if isinstance(v, list) else [v]):
            if x is not None:
                expected.setdefault(("attribute " if attr else "element ") + own_name(f.name), []).append((f, x))
    got = {}
    for k, v in el.attrib.items():
        got.setdefault("attribute " + norm(k), []).append(v)
    for c in el:
        got.setdefault("element " + norm(c.tag), []).append(c)
    sut.same({k: len(v) for k, v in got.items()}, {k: len(v) for k, v in expected.items()},
             f"names under {where} of {cls.__qualname__}")
    for k, items in expected.items():
        for (f, x), g in zip(items, got[k]):
            if dataclasses.is_dataclass(x) and isinstance(g, ET.Element):
                judge_names(g, x, f"{where}/{g.tag}")
                continue
            text = g if isinstance(g, str) else (g.text or "")
            if not f.init and k == "attribute type":
                own = norm(cls.__name__)
                sut.need(norm(text) == own or (own.endswith("devicepreset") and norm(text) == "filterdevicepreset"),
                         f"{cls.__qualname__} states its type as {text!r}")
            elif isinstance(x, enum.Enum):
                judge_member(x)
                sut.same(text, x.value, f"text of {x} in {where}")
            elif isinstance(x, bool):
                sut.same(text, "true" if x else "false", f"text of {f.name} in {where}")
            elif isinstance(x, (str, int)):
                sut.same(text, str(x), f"text of {f.name} in {where}")


def judge_member(m):
    """An enumeration member is named after its value."""
    name, v = norm(m.name), norm(str(m.value))
    base = re.sub(r"_\d+$", "", m.name)
    ok = v in (name, norm(base)) or (m.name.startswith("VALUE_") and v in (name[5:], norm(base)[5:])) or \
        (m.name.endswith("_VALUE") and v == name[:-5]) or (v == "" and name.startswith("value"))
    sut.need(ok, lambda: f"{type(m).__qualname__}.{m.name} is written as {m.value!r}")


def check(case):
    classes, _ = inventory()
    cls = classes.get(case["cls"])
    if cls is None:
        raise sut.Violation(f"the document model has no {case['cls']}")
    with sut.running(f"writing and reading {case['cls']}"):
        obj = build(cls, case["fields"])
        xml = render(obj)
        back = parse(xml, cls)
        again = render(back)
    sut.need(type(back) is cls and back == obj, lambda: f"{case['cls']} reads back as {sut._short(back)}, was {sut._short(obj)}")
    sut.same(again, xml, f"{case['cls']} written again")
    judge_names(ET.fromstring(xml.encode("utf-8")), obj, "/")
    n = len(case["fields"])
    lab = ["nontrivial"] if n else []
    if any(isinstance(v, (dict, list)) for v in case["fields"].values()):
        lab.append("nested or repeated")
    if n >= 3:
        lab.append("three or more properties")
    return lab


# -- enumerations -------------------------------------------------------------------------------

def sample(t, k, depth=3):
    """A fixed value of a type, different for different k."""
    from xsdata.models.datatype import XmlDate, XmlTime
    if t is str:
        return ["a & <b>", "", " x "][k % 3]
    if t is bool:
        return k % 2 == 0
    if t is int:
        return [7, 0, -3][k % 3]
    if t is float:
        return [0.1, 0.0, 1e-9][k % 3]
    if t is XmlDate:
        return [2021, 2, 3 + k]
    if t is XmlTime:
        return [23, 59, 1 + k]
    if issubclass(t, enum.Enum):
        return k % len(list(t))
    d = {}
    for f in settable(t):
        if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING:
            many, u = shape(hints(t)[f.name])
            d[f.name] = [sample(u, k)] if many else sample(u, k)
    return d


def every_field(tier):
    """Every property of every class alone; every member of its enumeration; nothing set at all."""
    classes, _ = inventory()
    for name, cls in sorted(classes.items()):
        base = sample(cls, 0)
        yield {"cls": name, "fields": base}
        for f in settable(cls):
            many, t = shape(hints(cls)[f.name])
            k = len(list(t)) if issubclass(t, enum.Enum) else 3
            if dataclasses.is_dataclass(t) or t is bool:
                k = 2 if t is bool else 1
            if many:
                yield {"cls": name, "fields": dict(base, **{f.name: [sample(t, i) for i in range(max(k, 2))]})}
                yield {"cls": name, "fields": dict(base, **{f.name: [sample(t, 0)]})}
            else:
                for i in range(k):
                    yield {"cls": name, "fields": dict(base, **{f.name: sample(t, i)})}


def check_enum(case):
    _, enums = inventory()
    e = enums.get(case["enum"])
    if e is None:
        raise sut.Violation(f"the document model has no {case['enum']}")
    seen = {}
    for n, m in e.__members__.items():
        judge_member(m)
        sut.need(m.name == n, lambda: f"{case['enum']}.{n} is the same value as {m.name}")
        sut.need(m.value not in seen, lambda: f"{case['enum']}: {n} and {seen[m.value]} have one value")
        seen[m.value] = n
    return ["nontrivial"]


def every_enum(tier):
    for name in sorted(inventory()[1]):
        yield {"enum": name}


# -- the format's own names, from XML written by hand -------------------------------------------

@functools.lru_cache(None)
def schema():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "renoise65.json")
    with open(path, encoding="utf-8") as f:
        return json.load(f)


TEXTS = {"str": ["a & <b>", "", "007", "true"], "bool": ["true", "false"], "int": ["7", "-3"], "float": ["0.5", "-2.25"],
         "XmlDate": ["2021-02-03"], "XmlTime": ["23:59:01"]}


def texts_of(p):
    if isinstance(p["kind"], list):
        return p["kind"]
    return TEXTS.get(p["kind"], [""])


def check_format(case):
    """An element with one property, as the format writes it, is read and written with that property."""
    classes, _ = inventory()
    name, i, k = case["cls"], case["prop"], case["value"]
    entry = schema()[name]
    cls = classes.get(name)
    sut.need(cls is not None, f"the format's {name} is not in the document model")
    root = ET.Element(entry["root"])
    p = entry["props"][i] if i >= 0 else None
    for q in entry["props"]:
        if q["fixed"] is not None:
            root.set(q["tag"], q["fixed"])
    given = []
    if p is not None:
        vals = texts_of(p)
        given = [vals[(k + j) % len(vals)] for j in range(2 if p["many"] else 1)]
        for v in given:
            if p["attr"]:
                root.set(p["tag"], v)
            else:
                ET.SubElement(root, p["tag"]).text = v or None
    xml = ET.tostring(root, encoding="unicode")
    with sut.running(f"reading and writing {xml[:200]}"):
        obj = parse(xml, cls)
        out = ET.fromstring(render(obj).encode("utf-8"))
    sut.same(out.tag, entry["root"], "element name")
    for q in entry["props"]:
        if q["fixed"] is not None:
            sut.same(out.get(q["tag"]), q["fixed"], f"{q['tag']} of {name}")
    if p is not None:
        if p["attr"]:
            sut.same(out.get(p["tag"]), given[0], f"attribute {p['tag']} of {name}")
        else:
            got = [e.text or "" for e in out.findall(p["tag"])]
            if str(p["kind"]).startswith("class "):
                got = ["" for _ in got]
                for q in schema()[p["kind"][6:]]["props"]:
                    if q["fixed"] is not None and q["attr"]:
                        for e in out.findall(p["tag"]):
                            sut.same(e.get(q["tag"]), q["fixed"], f"{q['tag']} of {p['tag']} in {name}")
            if p["kind"] == "float":
                got = [float(x) for x in got]
                given = [float(x) for x in given]
            sut.same(got, given, f"{p['tag']} of {name}")
        judge_kind(obj, p, name)
    return ["nontrivial"] if p is not None else []


KINDS = {"str": "str", "bool": "bool", "int": "int", "float": "float", "XmlDate": "XmlDate", "XmlTime": "XmlTime"}


def judge_kind(obj, p, name):
    """A value read for a property is of the property's kind (a number, a truth value, a text, a date...)."""
    kind = p["kind"]
    if isinstance(kind, str) and kind not in KINDS:
        return
    for f in dataclasses.fields(type(obj)):
        if own_name(f.name) == norm(p["tag"]) and f.init:
            v = getattr(obj, f.name)
            for x in v if isinstance(v, list) else [v]:
                if x is None or x == "":
                    continue
                got = "enumeration" if isinstance(x, enum.Enum) else type(x).__name__
                sut.same(got, KINDS[kind] if isinstance(kind, str) else "enumeration", f"kind of the value of {f.name} of {name}")


def every_name(tier):
    for name, entry in sorted(schema().items()):
        yield {"cls": name, "prop": -1, "value": 0}
        for i, p in enumerate(entry["props"]):
            if p["fixed"] is None:
                for k in range(len(texts_of(p))):
                    yield {"cls": name, "prop": i, "value": k}


def check_documents(case):
    """Whole documents: the one shipped with the project, and one with nothing in it."""
    s = sut.fresh()
    if case["doc"] == "empty":
        with sut.running("writing and reading an empty song document"):
            obj = s.dao.RenoiseSong()
            xml = render(obj)
            back = parse(xml, s.dao.RenoiseSong)
        sut.need(back == obj, "an empty song document reads back differently")
        sut.same(ET.fromstring(xml.encode()).get("doc_version"), "65", "document version")
        return ["nontrivial"]
    path = os.path.join(sut.REPO, "data", "stripped_song", "Song.xml")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        text = f.read()
    with sut.running("reading the stripped song"):
        a = parse(text, s.dao.RenoiseSong)
        xml = render(a)
        b = parse(xml, s.dao.RenoiseSong)
    sut.need(a == b, "the stripped song reads back differently after writing")
    # every element and text of the file that the model knows is in what is written
    def flat(el, path=""):
        p = path + "/" + el.tag
        yield p, (el.text or "").strip(), tuple(sorted(el.attrib.items()))
        for c in el:
            yield from flat(c, p)
    src = sorted(x for x in flat(ET.fromstring(text.encode("utf-8"))))
    out = sorted(x for x in flat(ET.fromstring(xml.encode("utf-8"))))
    sut.same([x[0] for x in out], [x[0] for x in src], "elements of the stripped song")
    return ["nontrivial"]


def check_absent(case):
    """What is not given is not written, and what is not written is read as absent."""
    classes, _ = inventory()
    cls = classes.get(case["cls"])
    sut.need(cls is not None, f"the document model has no {case['cls']}")
    given = sample(cls, 0)
    stated = {f.name for f in dataclasses.fields(cls) if not f.init} | {"doc_version"}
    with sut.running(f"writing and reading a bare {case['cls']}"):
        obj = build(cls, given)
        root = ET.fromstring(render(obj).encode("utf-8"))
        bare = ET.Element(root.tag, {k: v for k, v in root.attrib.items() if norm(k) in {norm(own_name(n)) for n in stated}})
        for c in root:
            if norm(c.tag) in {own_name(n) for n in given}:
                bare.append(c)
        back = parse(ET.tostring(bare, encoding="unicode"), cls)
    sut.same(sorted(norm(k) for k in root.attrib), sorted(own_name(n) for n in stated & {f.name for f in dataclasses.fields(cls)}
                                                          if n not in given), f"attributes of a bare {case['cls']}")
    sut.same(sorted(norm(c.tag) for c in root), sorted(own_name(n) for n in given), f"elements of a bare {case['cls']}")
    sut.need(back == obj, lambda: f"a bare {case['cls']} reads back as {sut._short(back)}, was {sut._short(obj)}")
    return ["nontrivial"]


def check_apart(case):
    """Elements share nothing: what is done to one is not seen in another, made, read or yet to be made."""
    classes, _ = inventory()
    cls = classes.get(case["cls"])
    sut.need(cls is not None, f"the document model has no {case['cls']}")
    given = sample(cls, 0)
    with sut.running(f"making and reading elements of {case['cls']}"):
        one, two = build(cls, given), build(cls, given)
        xml = render(two)
        three = parse(xml, cls)
        changed = 0
        for f in settable(cls):
            many, t = shape(hints(cls)[f.name])
            new = build_value(t, sample(t, 0))
            for obj, others in ((one, (two, three)), (three, (two,))):
                if many:
                    getattr(obj, f.name).append(new)
                elif getattr(obj, f.name) is None:
                    setattr(obj, f.name, new)
                else:
                    continue
                changed += 1
                for o in others:
                    sut.need(obj != o, lambda: f"{case['cls']} with another {f.name} is the same as without, or shares it")
        four, five = build(cls, given), parse(xml, cls)
        sut.same([render(x) for x in (two, four, five)], [xml] * 3, f"other elements of {case['cls']} after one was changed")
        sut.need(two == four, f"a {case['cls']} differs from one made after another was changed")
    return ["nontrivial"] if changed else []


def every_class(tier):
    for name in sorted(inventory()[0]):
        yield {"cls": name}


def any_object():
    classes, _ = inventory()
    names = sorted(classes)
    big = [n for n in names if len(settable(classes[n])) >= 6]
    return st.one_of(st.sampled_from(names), st.sampled_from(big)).flatmap(
        lambda n: st.fixed_dictionaries({"cls": st.just(n), "fields": objects(classes[n], 2)}))


PROPERTY = Property(
    "C18",
    "Every property of every element class of the format alone with several values and every enumeration member, then "
    "random trees of elements: written as XML, read back, compared for equality, and the XML's names, stated types and "
    "texts compared with the object's own; every property and enumeration value of the format as hand-written XML, read "
    "and written again. Non-trivial: at least one property is set. The stripped song shipped with "
    "the project and an empty document as whole documents. One element of each class is changed beside others, which must not change.",
    [
        Sub("documents", check_documents, enum=lambda tier: [{"doc": "empty"}, {"doc": "stripped"}]),
        Sub("absent", check_absent, enum=every_class),
        Sub("apart", check_apart, enum=every_class),
        Sub("enumerations", check_enum, enum=every_enum),
        Sub("format", check_format, enum=every_name),
        Sub("properties", check, enum=every_field),
        Sub("trees", check, gen=st.deferred(any_object), quick=2500, thorough=80000),
    ],
    ["values are those XML can hold: no control characters, finite numbers",
     "the names of the format are those of the pinned commit's generated model (pbt/data/renoise65.json), which cannot be "
     "compared with Renoise's own schema here", "the XML reader and writer are those of xsdata, as in "
     "the program"],
)
