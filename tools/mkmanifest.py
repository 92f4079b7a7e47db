"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusted: TLC, the executor in harness/ (it only records), the reading of RFC 5545 written down in spec/. "
         "Exhaustive within the bounds of the models, sampled beyond them.")
NOTES = {
    "C01": ("MCTrip, MCStore", "every program of a few calls from the menus is built, written, transported and read in the model and on the real code; random longer programs and streams"),
    "C02": ("MCCodec, MCDecode", "every value over the escaping alphabet up to the bound is encoded, written, read and decoded in the model and by the library; random longer values in other properties"),
    "C03": ("MCFold", "the folding machine is checked for every mixture of character widths at every position near the limits, then the library's lines for those and for random long lines"),
    "C04": ("MCUnfold, MCTransport", "every text over line breaks and white space up to the bound is unfolded; every way to transport small streams is read"),
    "C05": ("MCParam, MCLine", "every short parameter value and every short parameter text over the delimiters is written and read; random longer ones"),
    "C06": ("MCTrip, MCCodec", "the text of every small calendar is parsed by the specification's own reader and compared line by line with what is stored"),
    "C07": ("MCReader, MCLine", "the push-down reader is checked on every stream of a few lines and replayed on the library; random deep and wide streams"),
    "C08": ("MCReader, MCLine, MCDecode", "every stream of a few lines, well-formed or not, every prefix of streams, texts nobody would write; death and hanging of the process count as contradiction"),
    "C09": ("MCReader", "every small stream is converted by the specification and by the library; random streams with repeated names and nested components"),
    "C10": ("MCStore", "every program of a few builder calls is run on the model and on the library and compared after each call; random programs of up to 60 calls"),
    "C11": ("MCStore", "the same for calendars: push, extend, append, collect, properties, done, iteration and indexing"),
    "C12": ("MCDate, MCDateText", "a calendar walked day by day and date texts put together part by part are compared with the library; all forms, setters and getters"),
    "C13": ("MCStore (typed menu)", "every short program of typed setters, all enumerated values and all 256 percentages, raw values in and out of range"),
    "C14": ("MCDur, MCStore (alarm menu)", "every short duration text by the RFC grammar and around it; alarms and triggers built, written, read"),
    "C15": ("MCStore (meta menu)", "every short program of calendar data setters and X- variants, written and read again"),
    "C16": ("MCReader, MCLine", "every small stream and line is read, printed and read again; the printed text is judged by the specification"),
    "C17": ("MCReader, MCLine", "every small stream and line is turned to JSON and back, compared, and printed again"),
    "C18": ("MCZone, MCDate", "local times around every transition of four zones for 2011 to 2029 and random ones in 35 zones are converted by the specification's own zone rules and by the library"),
    "C19": ("MCTypes", "the whole table of names, VALUE parameters and value types, written and read"),
    "C20": ("MCReader, MCTrip", "all readers on the same texts and all writers on the same objects have to agree with each other and with the specification"),
}


def main():
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f]
    checks = []
    for i in ids:
        models, what = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "technique": "TLA+ specification model-checked with TLC (%s); its behaviours and random cases replayed on the library, recorded traces checked against the specification (Conform.tla)" % models,
            "level": "model_checking",
            "level_note": what[0].upper() + what[1:] + ". " + TRUST,
        })
    m = {"version": 1, "setup_cmd": "python3 tools/check.py build", "checks": checks, "not_applicable": [],
         "notes": "No hooks: the harness uses the public API only. Repairs of /repo are 'fix:' commits, listed in known-findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
