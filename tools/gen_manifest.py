#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl. Usage: gen_manifest.py"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = os.environ.get("CLAIMED", "").split() or None
NA = {
    "M01": "pure arithmetic of packages/math and packages/pool: no concurrency, time, I/O or multi-party behaviour that a schedule or a fault could influence; a seeded simulation would be plain input generation against a reference, which is another technique (differential fuzzing)",
    "M02": "a pure parser from string to struct: no schedule, fault, clock or state for a simulation to vary",
}
NOTE = {
    "vault": "seeded search over simulated histories of the real vault contract on a simulated chain (bank, token factory, exchange stubs); every transaction is judged against an executable reference model; not exhaustive",
    "periphery": "seeded search over simulated histories of the real periphery and vault contracts on a simulated chain (bank, token factory, exchange stubs); every transaction is judged by recorded-history oracles; not exhaustive",
    "airdrop": "seeded search over simulated histories of the real airdrop contract on a simulated chain with real hashing and signatures; every transaction is judged against an executable reference model; not exhaustive",
    "all": "seeded search over simulated histories of all three real contracts, re-executed on a second thread, after crashes, and in two further processes; not exhaustive",
}
checks = []
na = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    if CLAIMED and p not in CLAIMED:
        na.append({"property": p, "reason": "check under construction"})
        continue
    fam = "periphery" if p[0] == "P" else "airdrop" if p[0] == "A" else "all" if p in ("D01", "C15") else "vault"
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "technique": "deterministic simulation with fault injection: seeded schedules and faults over the real contract code, reference-model and history oracles, minimised replayable traces",
        "level": "exploration",
        "level_note": NOTE[fam],
    })
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
