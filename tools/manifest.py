#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "default": "TLC checks the design model exhaustively within its stated constants, and validates every recorded session of the real code (model-generated scenarios plus seeded random ones) against the same specification; corrupted copies must be rejected. Bounded exploration of the code: the domains are in DESIGN.md. Trusts TLC, the Go toolchain and the driver's projection of Go values.",
 "P05": "Exhaustive over 0..65535 and over all byte strings of up to 3 bytes (4 by class) on both sides, code and specification. Trusts TLC, the Go toolchain and the driver.",
 "P27": "All interleavings of the modelled schedules are enumerated by TLC and replayed on the real code step by step; free-running goroutines are sampled, also under the race detector. Trusts TLC, the Go toolchain and the driver.",
 "P08": "Trace validation of measured allocations (runtime.MemStats) against the specification's linear bound on generated hostile inputs; sampled, the constants are in DESIGN.md.",
}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p,
        quick_cmd="python3 check.py %s --tier quick" % p,
        thorough_cmd="python3 check.py %s --tier thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique="TLA+ specification: TLC model checking of the design, generated scenarios replayed on the code, TLC trace validation of recorded behaviour",
        level="model_checking", level_note=NOTE.get(p, NOTE["default"])))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the public API exposes all observed state. Repairs of genuine defects are listed in known_findings.txt.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
