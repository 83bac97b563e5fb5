#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "property-based testing (Hypothesis) "
TECH = {
    "C01": DIFF + "against a reference estimator with exact pair selection and error bounds",
    "C02": DIFF + "against an exact lag-grid model, structural invariants on inexact grids",
    "C03": DIFF + "against the reference estimator for each weight function",
    "C04": DIFF + "against the reference fast selection, metamorphic equality with natural selection on even sampling",
    "C05": DIFF + "differential between compiled, stepwise and top-level routes",
    "C06": DIFF + "metamorphic: affine change of values; invariant at lag 0",
    "C07": DIFF + "metamorphic: exact shift and scale of times",
    "C08": DIFF + "metamorphic: joint, separate and permuted analysis",
    "C09": DIFF + "metamorphic: same lag from different grids",
    "C10": "stateful model-based property testing of correlator histories (Hypothesis)",
    "C11": DIFF + "bit-exact round trip and consistency of accessors",
    "C12": DIFF + "against the reference estimator with missing values",
    "C13": "grammar-based generation of files, differential against in-memory columns (Hypothesis)",
    "C14": DIFF + "against a model of the shape rules",
    "C15": "fuzzing of call sequences under address/undefined-behaviour sanitizers (Hypothesis)",
    "C16": DIFF + "with injected defects and valid controls against the acceptance rules",
    "C17": DIFF + "metamorphic: repetition, mutation of inputs and results, new process",
    "C18": DIFF + "against direct textbook sums on even sampling",
    "C19": DIFF + "against the documented defaults, omitted vs explicit options",
    "C20": "stateful property testing of object lifetimes under AddressSanitizer, differential with kept-alive objects (Hypothesis)",
    "C21": "structured fuzzing of file bytes under sanitizers with a line-parser oracle (Hypothesis)",
    "C22": DIFF + "of every intermediate step against exact neighbours, distances and weights",
    "C23": DIFF + "metamorphic: same numbers in other containers and types",
    "C24": DIFF + "differential between four toolchain builds",
    "C25": "property-based testing of repeated call sequences (Hypothesis) with exact counts of live allocations as the invariant",
    "C26": "stateful property testing of random interleavings and thread schedules (Hypothesis), differential with each task run alone",
    "C27": "stateful property testing with failing calls inserted in random histories (Hypothesis), metamorphic relation: outcomes equal those without them",
    "C28": "fault injection at every read of a file (interposed read) over generated files (Hypothesis), oracle: whole dataset or the dedicated error",
    "C29": "fault injection at every large allocation (interposed operator new) over generated series and calls (Hypothesis), oracle: MemoryError or the undisturbed result, and state as before",
    "C30": DIFF + "metamorphic: CPU time and allocated bytes of the same generated task at two sizes",
    "C31": "fault injection of KeyboardInterrupt at every line of generated calls (Hypothesis), metamorphic relation: later outcomes equal those without it",
    "C32": DIFF + "generated programs in differently set up processes and places against the plain process, with process-wide state as an invariant",
}
NOTE = ("Held on every generated case of the run (counts in the evidence file), on a build of the working tree; no claim beyond the sampled cases. "
        "Trusts Hypothesis, PyPy, the compilers and the reference model in lib/ref.py.")
SAN = " Memory errors count as far as ASan/UBSan and checked containers report them."
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C21", "C22", "C24"):
    TECH[p] += "; coverage-guided cases from libFuzzer"
m = {"version": 1, "setup_cmd": "python3-vt -c 'import hypothesis' && test -x /opt/venv-pypy/bin/python",
     "checks": [{"property": p, "quick_cmd": "./check.py %s --tier quick" % p, "thorough_cmd": "./check.py %s --tier thorough" % p, "technique": t,
                 "level": "exploration", "level_note": NOTE + (SAN if p in ("C15", "C20", "C21") else "")} for p, t in sorted(TECH.items())],
     "not_applicable": [],
     "notes": "No hooks in /repo. known_findings.txt lists the defects found and repaired. VERIF_SEED selects the random seed."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
