#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when contracts/<id>.gvc exists and it is not in PENDING."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N01": "liveness over the whole server (every goroutine eventually ends): contracts state safety of one call, no variant or fairness argument spans the runtime, epoll and the timer wheel",
 "N02": "real-time behaviour of a third-party timer wheel and the scheduler; not expressible as a contract on gev's code",
}
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(root, "contracts", i + ".gvc")) and i in NOTES:
        checks.append({
            "property": i,
            "quick_cmd": "bash tools/check.sh %s quick" % i,
            "thorough_cmd": "bash tools/check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "contract-based deductive verification (gvc: contracts on go/ssa of the real code, z3/cvc5)",
            "level": "proof",
            "level_note": NOTES[i],
        })
    else:
        na.append({"property": i, "reason": "no check yet: the contracts for this property are not finished"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
