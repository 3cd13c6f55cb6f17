#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the bins that exist."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
TECH = {
 "C01": "runtime monitor: every operator form against an exact coefficient-list model (modular, free non-commutative and integer rings)",
 "C02": "runtime monitor: evaluation against the exact power sum, homomorphism laws on observed values",
 "C03": "runtime monitor: ring axioms and equivalence laws checked on generated nested values",
 "C04": "runtime monitor: components against the textbook formulas over exact rings and a double-double oracle",
 "C05": "runtime monitor: inversion laws over an exact field, double-double oracle with error bounds for floats",
 "C06": "runtime monitor: double-double oracle with error bounds over exponent-uniform arguments",
 "C07": "runtime monitor: double-double oracle with error bounds, sign rules of the principal root",
 "C08": "runtime monitor: double-double oracle with error bounds, quadrant rules",
 "C09": "runtime monitor: higher-precision oracle over specials and bit patterns (thorough: every f32)",
 "C10": "runtime monitor: component model for all dimensions and operand forms, iteration call logs",
 "C11": "runtime monitor: row-major model for all shapes and operand forms",
 "C12": "runtime monitor: random expression trees of library operations against eagerly computed models",
 "C13": "runtime monitor: random expression trees of library operations against eagerly computed models",
 "C14": "runtime monitor: products of all shapes against sums of ordered products, algebraic laws",
 "C15": "runtime monitor: inner products against conjugated ordered sums, sesquilinearity laws",
 "C16": "trace monitor: call logs of element functions and counting leaves (laziness, exactly-once)",
 "C17": "runtime monitor: every binary operation on unequal shapes must be observed to panic and leave its target alone",
 "C18": "runtime monitor: all in- and out-of-range accesses against a shadow copy",
 "C19": "runtime monitor: histories of in-place updates against the out-of-place model",
 "C20": "trace monitor over the optimiser's comparator log: the result is a candidate no other beats",
 "C21": "trace monitor: the comparator log replayed against the trial specification, coordinates carry their provenance",
 "C22": "trace monitor over first members and sampled ranges; observed acceptance or panic at parameter boundaries",
 "C23": "trace monitor: two histories compared event by event, counting generator",
 "C24": "runtime monitor: values against the formula in f64",
 "C25": "AddressSanitizer, Miri and a drop ledger under panics injected at every element operation",
 "C26": "replayed, re-entrant, interrupted and concurrent histories compared with a first sequential run; ThreadSanitizer",
 "C28": "runtime monitor: equality, clones and conversions against shape-and-entries models",
 "C29": "runtime monitor: 128-bit exact model of integer results in builds with and without overflow checks",
 "C30": "runtime monitor: bit comparison with IEEE operations, double-double oracle with error bounds for sums",
 "C31": "cost monitor: counting element type, counting global allocator and small-stack threads",
 "C27": "runtime monitor: distance to the known optimum over many seeds, monotonicity in the budget",
}
NOTE = ("Held on the executions generated from VERIF_SEED, in a build with overflow checks and debug assertions and in an "
        "optimised build; the evidence file lists what was observed. Trusts the harness's own model, rustc, std and rand.")
EXTRA = {
 "C25": " Quick: checked build and AddressSanitizer; thorough adds the optimised build and Miri.",
 "C26": " Thorough adds a ThreadSanitizer build with an instrumented standard library.",
 "C27": " Statistical: the margins are far wider than any deviation seen over thousands of seeds.",
 "C22": " Spread over the box is statistical with failure odds below 1e-12.",
}
checks, na = [], []
for l in (V / "properties.jsonl").read_text().splitlines():
    i = json.loads(l)["id"]
    if (V / "harness/src/bin" / f"{i.lower()}.rs").exists():
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}",
                       "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i],
                       "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
    else:
        na.append({"property": i, "reason": "its monitor is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is generic, so element types, generators and comparators of the harness observe everything. "
              "Known findings and fixes: known_findings.txt."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
