import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {
 "C90": "Convergence is a limit statement about real sequences produced by arbitrary operators; no static argument over the source bounds it. The update formulas convergence rests on are decided by C01-C05.",
 "C91": "Rounding error and numerical accuracy of iterative estimates quantify over floating-point values; the formulas and stopping rules are decided by C10, C16 and C17, the accuracy itself cannot be read off the source.",
}
NOTE = ("Every client program in spec/probes that concerns the property is abstractly interpreted over "
        "symbolic arguments against the current source and against the specification (spec/ref), and the "
        "resulting value graphs (results, exceptions, effects, foreign writes, internal errors) are compared "
        "leaf by leaf. Loops are unrolled only where their bound is constant; loops of unknown length are "
        "summarised by their recurrences. Assumes exact real arithmetic, the algebraic laws for "
        "numpy/scipy functions listed in DESIGN.md, and deterministic user operators. Leaves that can be shown "
        "neither equal nor different are reported as undecided in the evidence and raise no alarm.")
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                   "thorough_cmd": "./check.sh " + p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": "static abstract interpretation to gated value graphs (value numbering with loop and heap summaries), compared with a specification",
                   "level": "other", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the analysis needs no change to the code. Repairs of genuine defects are the fix: commits in /repo, listed in known-findings.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
