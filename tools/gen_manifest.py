#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "property-based testing: stateful generation of cluster histories over real nodes, judged by reference-model oracles, with shrinking"
UNIT = "property-based testing: model-based / differential generation against a reference implementation, with shrinking"
TECH = {p: SIM for p in ["C%02d" % i for i in range(1, 40)]}
for p in "C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C35 C37".split():
    TECH[p] = UNIT
TECH["C31"] = "fuzzing: generated histories under AddressSanitizer and UBSan, coverage-guided (libFuzzer) in the thorough tier"
TECH["C32"] = "property-based testing: generated concurrent programs under ThreadSanitizer with a serialisability oracle"
TECH["C34"] = "property-based testing: generated multi-threaded programs under ThreadSanitizer, differential against the same programs run alone"
NOTE = {
    "sim": "searched, not exhausted: random histories of 1-7 real nodes with generated faults, see DESIGN.md",
    "unit": "searched, not exhausted: random operation sequences against a reference model, see DESIGN.md",
}
claimed = [l.strip() for l in open(V + "/tools/claimed.txt") if l.strip() and not l.startswith("#")]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
            "level_note": NOTE["unit"] if TECH[i] == UNIT or i in ("C32", "C34") else NOTE["sim"],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness replaces std::random_device and the logger from outside. Every check builds /repo's working tree itself into /verif/build (ignored by git)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
