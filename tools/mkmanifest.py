#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks in lib/props."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
NA = {}
CONC = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C35", "C36"}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    if os.path.exists(os.path.join(V, "lib/props", i.lower() + ".py")) and i not in NA:
        if i in CONC:
            tech = "TLA+ specification checked exhaustively with TLC; histories of the real code under a controlled scheduler validated against it (trace validation)"
            note = "Bounded: small client programs, bounded-preemption DFS plus randomised schedules of the real code; every recorded history is decided by TLC against the specification, the specification itself is explored exhaustively on small instances. Trusts the scheduler's model of pthreads/sockets and sequential consistency."
        else:
            tech = "TLA+ specification checked with TLC; behaviours generated from / recorded around the real code validated against it (trace validation)"
            note = "Bounded: exhaustive small inputs plus seeded random larger ones run through the real code; every recorded result is decided by TLC against the specification. Trusts the driver's transcription of calls and results."
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "none", "enable": "no source hooks: the checks compile /repo's sources unchanged and interpose at the pthread/socket/libc boundary", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
