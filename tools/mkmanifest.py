#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NA = {
    "C31": "The generator is a Python program outside the crate that transforms runtime lists; its losslessness quantifies over every list and block size, which no static argument in reach bounds. What it has generated is covered by C01-C09.",
}
TRUST = ("Trusted: rustc's front end (MIR construction), the abstract interpreter in /verif/engine and its models of the allocator and of intrinsics, and the frozen Unicode 15.1.0 data "
         "in /verif/oracle (validated against ICU 74). What the analyser cannot decide is counted as undecided in the evidence and raises no alarm.")
PROOF = ("Whole domain: every input is in an exactly decided cell, or counted as undecided. ")
FAM = ("Bounded: exhaustive over the listed families of texts (whole sets of characters per position), no claim beyond their lengths. ")
OTHER = {"C18", "C20", "C21", "C22", "C23", "C24", "C26", "C30"}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    if i == "C27":
        tech, lvl, note = "interprocedural effect analysis over rustc MIR (call graph from every public operation)", "proof", "Sound for the listed rules over everything reachable in MIR; trusts rustc and the standard library's own unsafe code."
    elif i == "C28":
        tech, lvl, note = "compile-fail witnesses with compiling twins, checked by rustc; producers of CodePoint by abstract interpretation", "other", "Each witness is one violating program that must not type-check; its twin must. Trusts rustc's checkers."
    else:
        tech = "abstract interpretation of rustc MIR over partitioned input sets (exact on every cell), compared with frozen Unicode 15.1.0 data"
        if i in ("C11", "C13", "C21", "C22", "C23", "C25", "C26", "C29", "C30"):
            tech = "abstract interpretation of rustc MIR over partitioned input sets (exact on every cell)"
        lvl = "other" if i in OTHER else "proof"
        note = (FAM if i in OTHER else PROOF) + TRUST
    checks.append(dict(property=i, quick_cmd=f"python3-vt checks/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3-vt checks/check.py {i}", evidence_file=f"evidence/{i}.json",
                       technique=tech, level=lvl, level_note=note))
json.dump(dict(version=1, setup_cmd="python3-vt checks/setup.py", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes="No hooks in /repo: the harness uses the public interface. Five fix: commits are listed in known_findings.jsonl."),
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
