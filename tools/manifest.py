#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and na.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(here + "/tools/na.json"))
skip = {x["property"] for x in na}
TECH = "deterministic simulation with fault injection: seeded search over "
tech = {
 "P01": "read-delivery schedules (short reads, EINTR, clock) and container layouts, against a reference model",
 "P02": "placements of failing system calls in call histories, against a reference model",
 "P03": "storage damage before and during use, with step and allocation budgets",
 "P04": "truncation and tearing points before and during use, against a reference model",
 "P05": "statement-level interleavings of threads, against solo runs, with race detection on every second batch",
 "P06": "failing system calls and descriptor limits in open/close histories, watching the simulated descriptor table",
 "P07": "call histories of sources and cursors, against a reference model",
 "P08": "runtime randomness, recycling, place and preceding activity, by comparing complete outcomes",
 "P09": "histories of reads and seeks over container layouts, against a byte-array model",
 "P10": "partitions of encrypted streams into calls, against the plain text",
 "P11": "interleavings of the converter's goroutines and processor counts, against a reference model",
 "P12": "write-side faults and disk capacities in converter runs, checked on the simulated disk",
 "P13": "instants of process death and the following re-run, checked on the simulated disk",
 "P14": "faulty inputs of both command-line tools, against solo runs and a reference model",
 "P15": "histories of registrations and opens with accepting, declining and failing formats, against a reference model",
}
note = "Evidence from sampled executions, each exactly repeatable from its seed or replay file, not a proof. Trusted: the simulated kernel answers like Linux, the rewriting which inserts yield points keeps the meaning of the code, and the generators and reference models under sim/gen. The repository and the standard library above the system calls run for real."
checks = []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in skip:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH + tech[i],
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none (no hook is committed to the repository)", "enable": "sim/build rewrites copies of the repository's sources at check time (yield points, simulated synchronisation) and passes them, with patched runtime, syscall and os packages, to go build -overlay", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "known-findings.txt lists what was repaired; DESIGN.md describes the simulator, the oracles and what they were tested with.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
