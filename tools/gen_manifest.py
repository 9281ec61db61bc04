#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "deploy": "deterministic simulation: seeded search over delivery, clock, rotation and fault schedules against a signing ledger",
    "cache": "deterministic simulation: seeded search over client interleavings, clock steps and allocation faults against a reference model",
    "threads": "deterministic simulation: seeded search over thread schedules (own scheduler at every instrumented access) with happens-before race detection",
}
N = {
    "deploy": "Sampled simulated histories of the real parser, key loader and verifier (ASan+UBSan) on seeded deliveries, clocks and faults; "
              "every verdict is compared with a ledger of what was signed. Trusts BoringSSL's signing side, protobuf's JSON parser and the model. A clean batch is evidence, not proof.",
    "cache": "Sampled simulated histories of the real cache template (six instantiations, ASan+UBSan), compared after every operation with an "
             "executable model. Trusts the model; allocation faults only with std::unordered_map, as absl's map is not exception safe.",
    "threads": "Sampled schedules of real threads, one running at a time, switch points at every access the library's own code makes; verdicts compared with "
               "the sequential ones, races by vector clocks. Accesses inside libcrypto, protobuf and abseil are not instrumented.",
}
import sys
sys.path.insert(0, VERIF)
import check
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
REASON = {
    "N01": "a pure function of one document: no schedule, clock, fault or history in it",
    "N02": "a constant table: no schedule, clock, fault or history in it",
    "N03": "a timing property: a simulator that owns the clock cannot observe real execution time",
    "N04": "a pure function of one document and one path: no schedule, clock, fault or history in it",
}
have_threads = os.path.exists(os.path.join(VERIF, "sim", "world_threads.cc"))
for p in props:
    i = p["id"]
    w = check.WORLD.get(i)
    if w is None or (w == "threads" and not have_threads):
        na.append({"property": i, "reason": REASON.get(i, "the simulated scheduler for it is not finished")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[w], "level": "exploration", "level_note": N[w]})
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is outside it (see DESIGN.md)."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
