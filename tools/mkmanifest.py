#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and bin/plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from plan import PLAN  # noqa

TECH = {
    "C01": "stateful model-based testing against a map model, with shrinking",
    "C02": "stateful round-trip testing with an independent reader of the format",
    "C03": "stateful testing of space figures against an independent parse",
    "C04": "stateful testing with injected refusals (exhausted buffers, invalid requests)",
    "C05": "structure-aware mutation fuzzing under address and undefined-behaviour sanitizers",
    "C06": "differential testing of validation against an independent validator on mutated tuples",
    "C07": "model-based testing of null, absent and default values",
    "C08": "randomised and edge-value testing of numeric writes and reads against exact arithmetic",
    "C09": "differential testing of all scan implementations against a linear search, with guard pages",
    "C10": "stateful testing of schema definitions against a dictionary model",
    "C11": "stateful model-based testing of every form of iteration",
    "C12": "stateful testing of self-growing tuples up to the limits of the format",
    "C13": "stateful model-based testing of the C functions",
    "C14": "randomised and edge-value testing against calendar arithmetic in 128-bit integers",
    "C15": "randomised testing plus a sweep over all 32-bit values, against snprintf",
    "C16": "randomised round-trip and differential testing against strtod and shortest to_chars",
    "C17": "randomised and edge-value testing against 128-bit arithmetic; stateful arena testing",
    "C18": "stateful testing of handle histories under the address sanitizer with exact heap accounting",
    "C19": "differential testing of comparisons against memcmp, with metamorphic relations",
    "C20": "differential stateful testing of static against run-time tokens; attribute round-trip",
    "C21": "model-based testing of views against std::string; metamorphic testing of memory helpers with guarded ranges",
    "C22": "metamorphic testing: the same generated edits in differently filled memory must give identical images",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": "property-based testing: generated cases decided by an explicit oracle; "
                          + "harnesses " + ", ".join(sorted({r["harness"] + "/" + r["variant"] for r in PLAN[i]})),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks build the unmodified /repo tree"},
     "checks": checks, "not_applicable": na,
     "notes": "known-findings.txt lists the defects found and repaired (fix: commits in /repo)."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
