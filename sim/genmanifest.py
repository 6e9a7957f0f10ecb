#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the table of checks in simctl."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
props = [json.loads(l)["id"] for l in open(os.path.join(top, "properties.jsonl"))]
src = open(os.path.join(here, "cmd/simctl/props.go")).read()
have = set(re.findall(r'\{id: "(C\d+)"', src))
NA = {
 "C30": "A pure function of its input: no concurrency, time, I/O, fault or second party is involved, so a simulated schedule or fault cannot change or reveal anything about it; it needs a reference decoder and input generation, not simulation.",
 "C31": "A pure function of its input (field values to bytes): nothing for a simulator to schedule or to fail.",
 "C33": "A pure predicate on parse results: independent of schedule, time, faults and history; input generation or static analysis would decide it, not simulation.",
}
TECH = {
 "fetch": "deterministic simulation of the whole refresh program (scheduler, clock, network, disk, crashes) with seeded fault injection",
 "lib": "deterministic simulation of callers, certificate sources, network, clock and scheduler with seeded fault injection",
 "parse": "deterministic simulation of storage faults on synthetic files with a reference model and injected schedules",
 "cli": "deterministic simulation of the command with seeded file and output fault injection",
}
def tech(id):
    n = int(id[1:])
    if n in (15,16,17,18,19,20): return TECH["fetch"]
    if n == 21: return TECH["cli"]
    if n in (10,11,12,13,14): return TECH["parse"]
    return TECH["lib"]
NOTE = "Seeded random search: no violation was found in the runs counted in the evidence; nothing is proved beyond them. Real repository code runs; the simulator replaces scheduler, clock, transport and the fault decisions of the file system by patches to the Go standard library applied at build time. Trusted: those patches, the simulated servers and the oracle in sim/harness."
m = {
 "version": 1,
 "setup_cmd": "bash sim/check.sh setup",
 "checks": [], "not_applicable": [],
 "notes": "One command per property: bash sim/check.sh ID (VERIF_SEED, VERIF_TIER from the environment). It rebuilds the repository's working tree against a patched copy of the Go standard library (build overlay; nothing is added to /repo, so there are no hooks). Replay: bash sim/check.sh replay FILE.",
}
for p in props:
    if p in have:
        m["checks"].append({"property": p, "quick_cmd": f"bash sim/check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash sim/check.sh {p}", "evidence_file": f"evidence/{p}.json",
          "technique": tech(p), "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "No check has been built for it yet.")})
json.dump(m, open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(top, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
