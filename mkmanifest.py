#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan in run.py."""
import json, os
import run
props = [json.loads(l) for l in open(os.path.join(run.HERE, "properties.jsonl"))]
TECH = {
    "C01": "property-based testing against a brute-force oracle",
    "C02": "property-based testing against a brute-force oracle",
    "C03": "property-based testing against a minimum-image brute-force oracle",
    "C04": "property-based testing against brute force over all periodic images",
    "C05": "property-based and differential testing (batched against single queries and brute force), varied pools and concurrency",
    "C06": "property-based testing against brute force with a bipartite matching of components, differential against ordinary queries",
    "C07": "property-based testing of structural invariants of the built tree",
    "C08": "differential property-based testing (parallel against serial construction) under perturbed schedules",
    "C09": "property-based testing with injected non-finite values",
    "C10": "property-based testing of acceptance against a reference predicate, and of answers against brute force",
    "C11": "property-based testing against brute force in each of twelve build configurations",
    "C12": "property-based testing with degenerate-input generators against saturating brute force",
    "C13": "stateful (model-based) testing of histories against fresh trees",
    "C14": "property-based testing of partition invariants",
    "C15": "property-based testing of depth and counted arithmetic against bounds",
    "C16": "property-based testing against reference formulas and metamorphic relations",
    "C17": "property-based testing (hypothesis) of the Python module against brute force",
    "C18": "stateful property-based testing (hypothesis) of the Python module with fault injection",
    "C19": "property-based testing of call sequences under a poisoning allocator (differential) and AddressSanitizer",
    "C20": "property-based testing of repeated histories under a counting allocator",
}
NOTE = ("Exploration: holds on every generated case of this run (about {n} in the quick tier, {t} times as many in the thorough one), "
        "decided by an oracle independent of the code; nothing is claimed about inputs that were not generated. {extra}")
EXTRA = {
    "C08": "Schedules are varied by pool sizes, concurrent builds and yields/sleeps inside the arithmetic of an instrumented float type, not enumerated.",
    "C13": "Concurrent steps are run, not exhaustively scheduled.",
    "C15": "Bounds are several times what the unchanged tree needs (see DESIGN.md); wall time is not measured.",
    "C19": "Out-of-bounds accesses are found by AddressSanitizer and crashes, uses of uninitialised memory by filling fresh memory with different patterns.",
}
checks = []
for p in props:
    i = p["id"]
    n = sum(x[2] for x in run.PLAN[i])
    checks.append({
        "property": i, "quick_cmd": f"python3 run.py check {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {i}",
        "technique": TECH[i], "level": "exploration",
        "level_note": NOTE.format(n=f"{n:,}", t=run.THOROUGH, extra=EXTRA.get(i, "")).strip(),
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 run.py selftest",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check compiles what it needs from /repo's working tree into /verif/target (ignored by git). No hooks in /repo are needed.",
}, open(os.path.join(run.HERE, "MANIFEST.json"), "w"), indent=1)
