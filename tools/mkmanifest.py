#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "py"))
import check
REG = check.registry()
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Generated-input search with shrinking: the real library sources compiled with ASan/UBSan run against a simulated MPI whose scheduler, completion "
        "delays and audits the harness controls; every result is compared with an explicit oracle. No exhaustiveness is claimed; trusts sim/simmpi.c and the "
        "Python models. Cases and their measures are in the evidence file.")
TECH = "property-based testing (Hypothesis generators and shrinking over programs and schedules, "
ORC = {"C01": "byte-array reference model", "C02": "nested-loop reference model", "C03": "segment-list reference model", "C04": "exact-arithmetic reference model",
       "C05": "sum-of-contributions model over random schedules", "C06": "linearizability checker over concurrent histories", "C07": "reference model under delayed completion",
       "C08": "visibility model under delayed remote completion", "C09": "sequential reference model", "C10": "visibility model at the flag's observer",
       "C11": "exclusion and progress invariants over random schedules", "C12": "stateful allocation model", "C13": "stateful group model", "C14": "reference reductions and routes",
       "C15": "pack/unpack round-trip and model", "C16": "interval-set model", "C17": "configuration-metamorphic relation to one model", "C18": "stateful init/finalize model",
       "C19": "MPI-usage, leak and memory-safety invariants", "C20": "must-reject oracle over generated invalid calls", "C21": "bit-exact value model",
       "C22": "coherence model under a separate-memory window", "C23": "differential and call-count oracle over generated interposition", "C24": "reference model and linearizability oracles over thread schedules",
       "C25": "algebraic invariants", "C26": "differential against the reference world plus a count/byte model of the report"}
m = {"version": 1, "setup_cmd": "./check.py build", "checks": [], "not_applicable": []}
for i in ids:
    if i in REG:
        m["checks"].append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                            "technique": TECH + ORC[i] + ")", "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "unclaimed")
