#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "manifest_notes.py")).read())
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in NOTES:
        continue
    tech, note = NOTES[i]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the checks observe the engine interface by a recording wrapper, loaded documents by the exported fields, and the bytes of the PDF."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
