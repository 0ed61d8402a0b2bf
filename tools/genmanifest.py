#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = "Seeded search, not enumeration: a clean batch is evidence for the runs made. Trusts the source-to-source instrumentation, the in-memory storage model and, outside the repository, the textlayout module and the Go runtime. "
claimed = {
 "C01": "Saves and loads of scanned and generated font sets through streams and files that split the bytes, compared value by value.",
}
NA = {
 "N01": "A pure function of the paragraph: no schedule, clock, storage, fault or shared state takes part, so there is nothing for a simulator to control.",
 "N02": "A pure function of the text: no schedule, clock, storage, fault or shared state takes part.",
 "N03": "A pure function of the document held in memory; parsing reads no stream supplied by the caller.",
 "N04": "A pure function of the string or value printed: no schedule, fault or history takes part.",
 "N05": "Pure algebra on values: no schedule, fault or history takes part.",
 "N06": "Optimality of a score computed from query and database is a pure function of both; what depends on history, schedules and enumeration order is claimed under C08, C09, C15 and C17.",
 "N07": "A pure function of the list operations applied to one value owned by the caller.",
}
try:
    extra = json.load(open(os.path.join(here, "tools", "claims.json")))
    claimed.update(extra)
except FileNotFoundError:
    pass
checks = []
na = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search over workloads, schedules, storage faults and enumeration orders)",
            "level": "exploration",
            "level_note": claimed[i] + " " + NOTE.strip(),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet.")})
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none: /repo holds no hook; scheduling points, simulated locks, storage and enumeration order are put in by source-to-source instrumentation through 'go build -overlay', in a scratch directory of /verif, on every check", "enable": "bash check.sh <property> instruments and builds /repo's working tree", "source_commits": []},
 "checks": checks,
 "not_applicable": na,
 "notes": "Replay a violation with: bash check.sh replay <file>. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
