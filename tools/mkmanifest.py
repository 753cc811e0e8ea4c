"""Regenerates /verif/MANIFEST.json."""
import importlib, json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import vf.env  # noqa

TECH = {
    "C01": "property-based testing of generated schemas and values against a reference encoder",
    "C02": "property-based round trips of generated schemas, with a reference decoder",
    "C03": "property-based testing with streams of several records and junk, against a reference encoder",
    "C04": "generated schemas and values; every cut point and random leftovers",
    "C05": "property-based testing of reported sizes and offsets against a reference encoder",
    "C06": "property-based differential testing: one field against the full load and a reference decoder",
    "C07": "property-based differential testing: partial loads at every field and cut point against a reference decoder",
    "C08": "property-based differential testing: partial dumps against a reference encoder",
    "C09": "exhaustive small widths and boundary-biased random integers against byte arithmetic",
    "C10": "exhaustive short encodings and boundary-biased random integers against the formats' definitions",
    "C11": "exhaustive binary16 and random bit patterns and numbers against exact IEEE-754 arithmetic",
    "C12": "property-based testing of instants, zones and resolutions against exact rational arithmetic",
    "C13": "property-based testing of texts, codecs, sizes and UUIDs against the codecs and byte arithmetic",
    "C14": "property-based testing with mutated null representations against a reference encoder and decoder",
    "C15": "property-based testing of generated conditions against a reference encoder and decoder, with recorded callbacks",
    "C16": "model-based testing of value sources against the documented order",
    "C17": "model-based testing of generated class trees with recording validators",
    "C18": "property-based testing of arrays against concatenation by a reference encoder",
    "C19": "differential property-based testing of unions and nested structs against the chosen declaration alone",
    "C20": "stateful testing of declaration histories with snapshots, and generated misconfigurations",
    "C21": "differential property-based testing of generated source in both declaration styles",
    "C22": "differential property-based testing of Meta options against explicit arguments",
    "C23": "stateful model-based testing of histories against a dictionary",
    "C24": "stateful testing of histories with injected faults, reentrancy and threads against a reference encoder",
    "C25": "structure-aware fuzzing of input bytes against an independent decoder",
    "C26": "property-based testing of generated schemas with user-defined field classes against a reference encoder and decoder, with recorded calls",
    "C27": "generated faults in data, values and declarations; error attributes compared with what was made faulty",
    "C28": "property-based testing of overriding arguments against a reference decoder, with recorded constructor calls",
    "C29": "property-based differential testing of single fields against a reference encoder and the whole struct",
    "C30": "stateful model-based property testing of stream functions against a list of bytes",
    "C31": "schedule-driven property-based testing: generated interruptions and thread schedules at line level, against a reference codec and uninterrupted runs",
}
TRUST = ("Trusts the reference encoder/decoder in vf/ref.py (written from the documentation,"
         " not from the code), CPython's codecs, datetime and struct modules.")

checks = []
for id, tech in sorted(TECH.items()):
    mod = importlib.import_module("vf.checks." + id.lower())
    n = sum(s.n for s in mod.SUBS if s.cases is None)
    enum = [s.name for s in mod.SUBS if s.cases is not None]
    note = f"About {n} generated cases per quick run (25 times that when thorough)"
    if enum:
        note += ", plus an exhaustive part (" + ", ".join(enum) + ")"
    note += ": no violation found in what was generated, no proof beyond it. " + TRUST
    checks.append({
        "property": id,
        "quick_cmd": f"./check {id}",
        "thorough_cmd": f"./check {id} --tier thorough",
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3-vt -c 'import hypothesis'",
    "checks": checks,
    "not_applicable": [],
    "notes": "Everything is Python and imports binobj from /repo's working tree; nothing is built. No hooks. See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
