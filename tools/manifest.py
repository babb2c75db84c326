#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC explores the specification of the public API and the design models within the bounds DESIGN.md states; the real "
        "code is bound to it by running histories generated from the specification and random ones at node widths 4 and 64, "
        "recording every call and having TLC judge the recordings. Every run is judged by an oracle that mirrors the "
        "specification; TLC judges a sample of all runs and everything the oracle suspects. Assumes the element types, "
        "widths and bounds used are representative; says nothing about runs it did not make.")
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "technique": "TLA+ specification checked with TLC; trace validation and replay of generated histories against the real code"
                   + {"C14": "; TLC judges every tree shape recorded", "C16": "; TLC on a model of copy on write under threads"}.get(i, ""),
                   "level": "model_checking", "level_note": NOTE})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
commits = [x.split()[0] for x in hooks.split("\n") if " verif hook" in x]
m = {"version": 1,
     "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "cfg(librrb_verif), cfg(librrb_verif_w4), cfg(librrb_verif_w8)",
               "enable": "RUSTFLAGS=\"--cfg librrb_verif --cfg librrb_verif_w4\" cargo build --offline (in /verif/harness)",
               "source_commits": commits},
     "checks": checks, "not_applicable": [],
     "notes": "DESIGN.md describes the specification, how it is bound to the code, and which check catches which planted change."}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
