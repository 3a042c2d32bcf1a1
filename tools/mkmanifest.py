#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import checks
WIRE = ("TLA+ wire-format machine model-checked with TLC; TLC-generated behaviours replayed into the library and "
        "recorded decodes/encodes validated against the specification by TLC")
VALUE = ("TLA+ value/encoder specification model-checked with TLC; generated values replayed into the library and "
         "recorded encodings validated against the specification by TLC")
SRC = ("TLA+ machine deriving declarations model-checked with TLC; derived sources replayed into Context::parse and "
       "recorded parses validated against the specification by TLC")
REG = ("TLA+ registry machine model-checked with TLC; generated operation histories replayed into the library and "
       "recorded histories validated against the specification by TLC")
HIST = ("TLA+ memo/concurrency machine model-checked with TLC; recorded concurrent histories validated against it by TLC")
TECH = {}
for i in range(1, 9): TECH["C%02d" % i] = WIRE
TECH["C09"] = TECH["C10"] = VALUE
for i in ("C11", "C12", "C13", "C14", "C15", "C20", "C21", "C23", "C24"): TECH[i] = SRC
for i in ("C16", "C17", "C18", "C19"): TECH[i] = REG
TECH["C22"] = HIST
TECH["C25"] = ("TLA+ source and wire-format machines composed and model-checked with TLC; sources and payloads derived from them decoded "
               "by the library and the recorded decodes validated against the composed specification by TLC")
NOTE = ("The specification is checked exhaustively within the bounds recorded in the evidence file; the library is bound to "
        "it by replaying the behaviours TLC generated (all, or an evenly spread part, as the evidence says) and by validating seeded recorded executions, so the verdict on the "
        "code is bounded by those behaviours. Trusted: TLC, the harness's projection of the public API, rustc.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: every observation goes through the public API. The specification is TLA+, checked with TLC."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": TECH[i], "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "its specification module and conformance check are still under construction"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
