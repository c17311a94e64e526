#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ARITH = "Runtime monitoring: online exact-arithmetic oracle over generated calls of the real code, checked and release builds"
T = {
    "C18": "Sanitizers: AddressSanitizer, MemorySanitizer, ThreadSanitizer, Miri and checked builds over all operations and feature sets",
    "C19": "Runtime monitoring of compiler and programs: generated literal programs, observed values and compile errors judged against exact decimals",
    "C20": "Runtime monitoring: generated wrapper types over all layouts and operand pairings, every result judged against exact arithmetic",
    "C21": "Runtime monitoring: recorded result histories of the same calls compared across builds (features, profiles, std/no_std)",
    "C23": "Runtime monitoring: offline comparison of recorded histories (permuted, repeated, concurrent, cold processes), conservation ledger and ThreadSanitizer",
    "C05": ARITH + ", with and without std",
    "C10": "Runtime monitoring: online oracle for the canonical text of every result, parse-back, several feature sets",
    "C15": "Runtime monitoring: online model-based oracle over JSON, XML, RON and schema round trips and hostile documents",
    "C16": "Runtime monitoring: online oracle over bincode, CBOR and the opt-in serde modules, round trips and hostile inputs",
    "C17": "Runtime monitoring: online byte-level oracle over SCALE and compact encodings, round trips and hostile bytes",
    "C22": "Runtime monitoring: online oracle for comparisons, hashes, constants and model-checked collection histories",
}
NOTE = {
    "C18": "No report from any instrument on the calls executed; calls not generated and schedules not observed are not covered. Trusts the sanitizers and Miri.",
    "C19": "Every literal generated either had exactly its value or did not compile (or stopped). Trusts rustc's attribution of errors to lines and Python integers.",
    "C20": "All combinations of wrapper operations were exercised with boundary-heavy operands; operands not generated are not judged.",
    "C21": "Equality of results over the same generated calls in all listed builds; only x86-64 Linux.",
    "C23": "Equality of repeated results over the observed histories and interleavings; ledgers audited with exact integers.",
}
D = "Every observed call is judged against exact integer arithmetic that shares no code with the library; calls not generated are not judged. Trusts the oracle (self-tested at start-up)."
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                 "technique": T.get(i, ARITH), "level": "exploration", "level_note": NOTE.get(i, D)} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything monitored is public. Exit 2 means the check has no answer. `python3 check.py --replay FILE` re-executes a reported violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
