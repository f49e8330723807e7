#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties run.py has checks for."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
import run
MODEL = "model-based property testing (rapid): generated call histories judged against a reference semantics, shrunk to a replay file"
TECH = {
    "C06": "model-based property testing (rapid) plus a metamorphic twin: Next call vs explicit call at the cursor",
    "C09": "model-based property testing (rapid) plus a metamorphic relation: history with and without refused calls",
    "C12": "stateful invariant testing (rapid) over generated histories",
    "C13": "stateful property testing (rapid): aliasing and construction invariants over generated slices and histories",
    "C14": "metamorphic property testing (rapid): alone vs interleaved vs parallel (race detector), scrambled arguments and results",
    "C16": "differential property testing (rapid) of six implementations over generated histories",
    "C17": "generated concurrent histories (rapid) under the Go race detector with exact, parity and no-tearing oracles; forced lock hand-overs with a linearizability oracle",
    "C18": "generated concurrent readers (rapid) under the Go race detector, compared with their results alone",
    "C19": "property testing (rapid) of lock state after every call, and generated concurrent appends under the caller's lock with the race detector",
    "C20": "metamorphic property testing (rapid): same history with different prior contents of out variables",
    "C21": "property testing over generated template arrangements: each is generated, compiled and driven by model-based histories",
    "C22": "property testing over generated template texts against a compositional oracle",
    "C23": "stateful property testing over generated directory populations and run/edit sequences",
    "C25": "metamorphic property testing (rapid): same history amid different surrounding bytes; fault injection with unmapped and read-only pages",
    "C26": "property testing (rapid): generated accesses on a large sparse buffer with allocation and page-residency bounds, generated histories made tens of thousands of times",
    "C27": "metamorphic property testing (rapid): a call held up at the lock while the contents change, against the same call made after the change; forced schedules, also under the race detector",
    "C24": "differential property testing (rapid) of the regenerated against the shipped package",
}
NOTE = "Holds on every generated case of the run (counts and distribution in the evidence); no claim about inputs not generated. Trusts the reference semantics in harness/, rapid and the Go toolchain."
NOTES = {
    "C17": NOTE + " Schedules are those the Go scheduler produced; data races are found by happens-before analysis, so they need the two calls to be generated unordered rather than to collide in time; lost updates and torn reads without a data race need a real collision, which mode orders forces for two goroutines at the first point where a call gives the lock back.",
    "C18": NOTE + " Schedules are those the Go scheduler produced; races are found by happens-before analysis.",
    "C19": NOTE + " Schedules are those the Go scheduler produced; the lock-state part is sequential and does not depend on them.",
}
checks = []
for p in sorted(run.CONF):
    checks.append(dict(property=p, quick_cmd=f"./run.py {p} quick", thorough_cmd=f"./run.py {p} thorough", evidence_file=f"evidence/{p}.json",
                       technique=TECH.get(p, MODEL), level="exploration", level_note=NOTES.get(p, NOTE)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [dict(property=p, reason="check not built yet") for p in props if p not in run.CONF]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check uses the public API and the generator's command line. Replay a violation with ./run.py --replay FILE."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
