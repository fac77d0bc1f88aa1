#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props

HERE = os.path.dirname(os.path.abspath(__file__))
NA = getattr(props, "NOT_APPLICABLE", [])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.PROPS.values():
        assert len(p.title) <= 80, p.pid
        f.write(json.dumps({
            "id": p.pid, "title": p.title, "statement": p.statement,
            "quantifier": {"over": p.over, "text": p.quant}, "why_tests_cant": p.why,
            "anchors": {"files": p.files, "mechanism": [{"name": n, "where": w} for n, w in p.mech],
                        "observe_at": p.observe, "hook_needed": None},
        }) + "\n")
checks = []
for p in props.PROPS.values():
    if p.plan is None:
        continue
    checks.append({
        "property": p.pid, "quick_cmd": "python3 check.py %s" % p.pid, "thorough_cmd": "python3 check.py %s --tier thorough" % p.pid,
        "evidence_file": "evidence/%s.json" % p.pid, "technique": p.technique, "level": "model_checking",
        "level_note": "Bounded: " + p.note + ". Bounds: " + "; ".join(p.jobs("quick").bounds) + ". Trusts the executor, z3, rustc's IR and the harness oracle; counterexamples are replayed natively before being reported.",
    })
m = {
    "version": 1, "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none: the harness uses only the public API", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p.pid, "reason": p.note} for p in props.PROPS.values() if p.plan is None],
    "notes": "All checks run kse (a symbolic executor over rustc's LLVM IR, in kse/) on harness/ linked with /repo's current sources. Findings: known-findings.txt. Design: DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
