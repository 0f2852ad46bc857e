#!/usr/bin/env python3
""" writes MANIFEST.json for the checks in vp/props """
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "reference-model monitor: every call on the converted model is judged online against the same call on the native object"
T = {
    "C13": REF + "; method-availability probe",
    "C16": "offline replay monitor: answers recorded before pickling are re-executed by a bare interpreter with an import deny-list and compared bit for bit",
    "C17": "object-graph sanitizer: walks everything reachable from live models and results and checks exact types",
    "C18": "three-outcome monitor over configurations (refused, or equal to the native answer), with a must-refuse list and a version gate driven by faked versions",
    "C19": "history monitor: recorded call sequences with mutation of returned results, each answer compared with a fresh copy's",
    "C20": "metamorphic monitor: batch against single rows, permutations and duplicates, bit for bit",
    "C21": "metamorphic monitor: sparse against dense executions",
    "C22": "seeded cooperative scheduler (context switch at traced lines) plus free-running threads; every recorded result compared with its sequential one",
    "C23": "fault injection at every traced line of a call (asynchronous exception), then history comparison with a fresh copy",
    "C24": "online invariant monitor on probabilities under extreme inputs",
    "C25": "label-domain monitor (value and exact type) on every answer",
    "C26": "must-refuse monitor over malformed inputs, with untouched-model comparison",
    "C27": REF,
    "C28": "state-isolation monitor: snapshots of the native object around conversion, mutation afterwards, repeat conversions in this and other processes",
    "C29": "metamorphic monitor: the same numbers written as integers, floats and booleans",
    "C30": "audit-hook, process-snapshot and memory-growth monitor around calls",
    "C31": REF,
    "C32": "growth monitor: processor time of the same call on n and on 64 n things",
    "C33": "comparison of answers and refusals across interpreters with other settings, bit for bit",
    "C34": "growth monitor: allocated memory and processor time of the same sparse rows at width n and 64 n",
    "C35": "trace monitor on recording stand-in models: calls and durations against the printed report",
    "C36": "memory monitor: pickle sizes and allocated memory of converted models against the native artefact",
}
NOTE = {
    "C23": "Faults are enumerated over every traced line event of the sampled calls (up to a stated cap per call); calls themselves are sampled.",
    "C22": "Schedules are sampled (seeded), not enumerated; a switch can happen before any traced line of this package.",
}
LEVEL = {"C23": "fault_enumeration"}
BASE = "Observes seeded executions of the real code of the working tree; says nothing about inputs or configurations not generated. Trusts the installed native libraries as the reference, apart from the native defects listed in DESIGN.md."

checks = []
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for p in props:
    if not os.path.exists(os.path.join(HERE, "vp", "props", p.lower() + ".py")):
        continue
    checks.append({
        "property": p,
        "quick_cmd": "./run.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough ./run.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": T.get(p, REF),
        "level": LEVEL.get(p, "exploration"),
        "level_note": (NOTE.get(p, "") + " " + BASE).strip(),
    })
claimed = {c["property"] for c in checks}
doc = {
    "version": 1,
    "setup_cmd": "./run.py --setup",
    "checks": checks,
    "not_applicable": [
        {"property": p, "reason": "machinery not built yet"} for p in props if p not in claimed
    ],
    "notes": "Plain Python, nothing to compile: every check imports /repo's working tree directly, without bytecode caches. /repo needs no hooks.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(doc, fh, indent=1)
    fh.write("\n")
