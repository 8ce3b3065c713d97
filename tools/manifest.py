"""Writes MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("property-based testing: generated command streams against an independent encoder", "round trip from an independent encoder"),
    "C02": ("property-based testing: generated headers and gzip framings against an independent encoder", "round trip and rejection"),
    "C03": ("fault injection by property-based testing: every cut position of generated files", "truncation at every byte of generated files"),
    "C04": ("model-based property testing: register histories against a register-file model", "reference model after every write"),
    "C05": ("model-based property testing: register histories against a register-file model", "reference model after every key-on"),
    "C06": ("model-based property testing: register histories against a register-file model", "reference model of the event log"),
    "C07": ("metamorphic property testing: songs against rewritten songs and a model", "metamorphic relation and reference model"),
    "C08": ("property-based testing: instrument files parsed back and compared with a model", "round trip through strict JSON"),
    "C09": ("model-based property testing: exported songs parsed and compared with a model", "reference model of the cells"),
    "C10": ("model-based property testing: exported cells compared with a model of pitch and panning", "reference model of the cells"),
    "C11": ("property-based testing: exported documents parsed, invariants and exact tempo", "invariants over the parsed document"),
    "C12": ("differential property testing: row length estimate against a reference from its definition", "differential against an exhaustive reference"),
    "C13": ("model-based property testing: CSV listing parsed and compared with a model", "reference model of every line"),
    "C14": ("stateful metamorphic testing: interleaved sessions against the same sessions alone", "interleaved against alone"),
    "C15": ("end-to-end property testing of the command line tool, in process and as processes", "outputs parsed and compared with a model"),
    "C16": ("property-based testing with injected failures and stand-in standard streams", "modelled streams and files"),
    "C17": ("model-based property testing: song models built by generated steps against the parsed file", "plain record of the steps"),
    "C18": ("round-trip property testing of every element class, property and enumeration value", "round trip, and hand-written XML in the format's names"),
    "C19": ("property-based testing: equality and copies against plain records", "plain records of the parameters"),
}
NOTE = ("Searches generated inputs with an explicit oracle ({}); the enumerated parts are complete over the sets DESIGN.md "
        "names, the rest is a sample. Trusts the reference in /verif/pbt, CPython, Hypothesis and, where the program uses "
        "it, xsdata.")
m = {
    "version": 1,
    "setup_cmd": "/opt/veriftools/pyvenv/bin/python -c 'import hypothesis, sys; sys.exit(0)'",
    "checks": [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": NOTE.format(n)}
               for p, (t, n) in sorted(T.items())],
    "not_applicable": [],
    "notes": "No hooks: the checks use the program's own interfaces. Known findings and fixes: known_findings.txt.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
