#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "trace monitors over deterministic simulated runs of the real launch() with a hostile scheduler"
T = {
 "C01": "model-based conformance monitor on every evaluate() argument; " + SIM,
 "C02": SIM, "C03": SIM, "C04": SIM, "C05": SIM, "C06": SIM,
 "C07": "process-level monitor: /proc scan and child-side event logs of the real binary under every way of ending",
 "C08": SIM, 
 "C09": "trace comparison of repeated runs (same process, other threads, other processes, perturbed timing)",
 "C10": "generated spec documents against an independent reference reader (differential oracle), crash monitor",
 "C11": "round-trip and reference-validator monitors on generated and corrupted values",
 "C12": "provenance oracle on every offspring of generated populations",
 "C13": "mutation relation oracle on generated values, lineage monitor on whole runs",
 "C14": SIM + "; comparison of report files with the child-side log",
 "C15": "panic/hang/log-difference monitors under extreme objective values and hostile child output",
 "C16": "scripted objective program logs its invocations; exit status, output, files checked against a protocol model",
 "C17": "benchmark battery with known optima, selection-frequency and liveness statistics",
}
NOTE = ("Holds on everything explored: the real code, driven by generated inputs, schedules and faults (counts in the evidence file); "
        "no claim beyond the executions observed. Trusts the harness' reference model and the toolchain.")
DONE = os.environ.get("DONE", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17").split()
m = {
 "version": 1, "setup_cmd": "bash build.sh",
 "checks": [{"property": p, "quick_cmd": f"bash run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
   "technique": T[p], "level": "exploration", "level_note": NOTE} for p in T if p in DONE],
 "not_applicable": [{"property": p, "reason": "check not built yet"} for p in T if p not in DONE],
 "notes": "No hooks in /repo. Findings and repairs: known_findings.json, DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
