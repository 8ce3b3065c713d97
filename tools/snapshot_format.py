"""Writes pbt/data/renoise65.json: the names of the Renoise song format, version 65, as the pinned
commit's generated document model has them.  Run once; the checks only read the result."""
import dataclasses
import enum
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt.checks import c18  # noqa: E402


def kind(t):
    if issubclass(t, enum.Enum):
        return [m.value for m in t]
    if dataclasses.is_dataclass(t):
        return "class " + t.__qualname__
    return t.__name__


def main():
    classes, _ = c18.inventory()
    out = {}
    for name, cls in sorted(classes.items()):
        meta = vars(cls).get("Meta")
        props = []
        for f in dataclasses.fields(cls):
            many, t = c18.shape(c18.hints(cls)[f.name])
            props.append({"tag": f.metadata.get("name", f.name), "attr": f.metadata["type"] == "Attribute", "many": many,
                          "kind": kind(t), "fixed": None if f.init else str(f.default)})
        out[name] = {"root": getattr(meta, "name", None) or cls.__name__, "props": props}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt", "data", "renoise65.json")
    with open(path, "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")


main()
