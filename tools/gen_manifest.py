#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
note_cluster = ("Seeded search, no exhaustiveness: whole clusters of the real library (public API, both protocol layers, real storage) in one "
    "process under a scheduler that decides every delivery, tick, crash, restart, storage fault and partition; oracles of this property after every "
    "act and at the end. Assumes non-Byzantine servers and the fault model of DESIGN.md.")
note_store = ("Seeded search: the real storages against a reference storage with kills, cut and torn write-ahead logs, full disk and failing "
    "serialisation. Trusts RocksDB's own recovery.")
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "deterministic simulation with fault injection, seeded search",
        "level": "exploration",
        "level_note": note_store if i == "C16" else (note_store + " " + note_cluster if i == "C17" else note_cluster),
    })
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: the Storage trait, the message queues and tick() are the seams."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
