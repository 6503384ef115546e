#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "panic, abort, step-budget and stack monitor over coverage-guided hostile inputs",
 "C02": "panic monitor while every operation is applied to accepted values",
 "C03": "allocator and executed-edge counters against bounds, online",
 "C04": "round-trip monitor against a reference value",
 "C05": "differential monitor of compressed and plain output",
 "C06": "structural trace checker over compressed output",
 "C07": "octet-exact comparison with an independent encoder",
 "C08": "comparison with an independent decoder",
 "C09": "three-valued reference oracle over malformed inputs",
 "C10": "size monitor on every value and record",
 "C11": "online refinement check of edit histories against a list model",
 "C12": "online refinement check of header histories, exhaustive flag words",
 "C13": "non-interference monitor over paired executions",
 "C14": "comparison with a reference name resolver",
 "C15": "Miri and AddressSanitizer over recorded corpora, data race detection on shared values",
 "C16": "offline comparison of result logs across repeats, threads and processes; output capture",
 "C17": "online refinement check of names against a label list",
 "C18": "exhaustive run of every code table against registry tables",
 "C19": "re-serialisation monitor over accepted hostile inputs",
 "C20": "sign-verify monitor for all algorithms",
 "C21": "tamper and hostile-key monitor",
 "C22": "comparison with a sorting model over permutations",
 "C23": "comparison with independently computed tags, digests and texts",
 "C24": "two-way comparison with independent signing code and published vectors",
 "C25": "comparison with a set model, exhaustive pairs",
 "C26": "online refinement check of cursor histories",
 "C27": "exhaustive classes and model comparison in both configurations",
 "C28": "offline comparison of result logs of four feature builds",
 "C29": "comparison of constructed and edited values with their specification",
}
DONE = os.environ.get("DONE", ",".join(T)).split(",")
checks = [{"property": p, "quick_cmd": f"VERIF_TIER=quick python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
           "technique": "runtime monitoring: " + T[p], "level": "exploration",
           "level_note": "executes the real library; decides the generated executions only (bounds and oracle: DESIGN.md)"} for p in T if p in DONE]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in T if p not in DONE]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
