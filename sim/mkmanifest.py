#!/usr/bin/env python3
"""Writes MANIFEST.json from the scenario table and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "sim"))
from scenarios import SCENARIOS
NOTE = "Seeded search over schedules and injected faults of the real library inside one process; a clean run is evidence on the runs it made, not a proof. Trusts the simulator (sim/simrt), the reference model in sim/harness and that threads interact only at the interception points."
EXTRA = {
    "C13": " Sockets are simulated (in-process TCP streams with arbitrary segmentation, delays and errors); the kernel's TCP is not run.",
    "C14": " Sockets are simulated (in-process datagram sockets); the kernel's UDP is not run.",
    "C18": " Files are simulated by interposing the C library's file calls; the external nuscr program is a stand-in.",
    "C19": " Files are simulated by interposing the C library's file calls; the external nuscr program is a stand-in.",
    "C20": " Files are simulated by interposing the C library's file calls; the external KMC tool is a stand-in.",
    "C21": " Files are simulated by interposing the C library's file calls; the external KMC tool is a stand-in.",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the seams are the C library's symbols (overridden in the harness executables) and a vendored crossbeam-channel with a scheduling hook, substituted with [patch.crates-io].",
}
for p in props:
    i = p["id"]
    if i in SCENARIOS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "python3 check.py " + i + " thorough",
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with seeded schedule and fault search against a reference model",
            "level": "exploration",
            "level_note": NOTE + EXTRA.get(i, ""),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Harness not built yet; the property is not claimed.")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
