#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the harness implements."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {}
for line in open(os.path.join(here, "properties.jsonl")):
    d = json.loads(line); props[d["id"]] = d
have = open(os.path.join(here, "tools", "claimed.txt")).read().split()
TECH = "property-based testing (rapid: structured generation, shrinking)"
ORACLE = {
 "C01": "reads of an independent reference reader before and after formatting",
 "C02": "token and line-break stream of an independent reference reader before and after",
 "C03": "comment accounting over the reference trees of source and output",
 "C04": "metamorphic relation: formatting twice equals formatting once",
 "C05": "histories and concurrent groups compared with fresh sequential runs, under the race detector",
 "C06": "fuzzing with structured and raw bytes for crashes, hangs and unprintable trees",
 "C07": "differential against an independent reference reader",
 "C08": "positions of an independent reference reader",
 "C09": "filter over the full tree of the reference reader",
 "C10": "model of parents over histories of child replacements",
 "C11": "injected read and write faults and chunkings at generated positions",
 "C12": "reference indentation model evaluated on the output",
 "C13": "reference model of override resolution, read off the indentation of the output",
 "C14": "metamorphic relation: re-spaced source formats identically",
 "C15": "functional specification of the sorted ns form on reference trees",
 "C16": "functional specification of the rewritten ns form on reference trees",
 "C17": "functional specification of line breaks on reference trees",
 "C18": "functional specification of line breaks on reference trees",
 "C19": "model of the libraries, aliases and names an ns form provides",
 "C20": "model of which aliases, names and libraries are used",
 "C21": "functional specification of docstring alignment on reference trees",
 "C22": "reference indentation model and metamorphic relation with the threaded argument written out",
 "C23": "model of the command against the real binary on generated files, flags and failing output",
 "C24": "model of the directory walk against the real binary on generated trees",
 "C25": "model of configuration and flags against the real binary",
 "C26": "reference definition of the predicates on generated nodes",
}
LEVEL = "exploration"
checks = []
for id in have:
    checks.append(dict(property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
        evidence_file=f"evidence/{id}.json", technique=f"{TECH}; oracle: {ORACLE[id]}", level=LEVEL,
        level_note="Held on every generated case; no claim beyond them. Trusts the oracle (harness/refclj and harness/props), the generator's coverage as measured in the evidence, and rapid."))
na = [dict(property=i, reason="no check yet") for i in props if i not in have]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="replay.sh FILE re-evaluates a replay file. known_findings.txt lists repaired and known defects. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
