#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": "stateful model-based testing: random block histories against an independent reference model",
 "C02": "stateful model-based testing: pollards with random caches against model and forest",
 "C03": "stateful property testing: generated honest (also partial, unsorted) proofs must be accepted",
 "C04": "stateful property testing with a forger: accepted claims are judged against the model",
 "C05": "metamorphic testing: rejected claims against a twin that never saw them",
 "C06": "stateful model-based testing of cached proofs",
 "C07": "stateful invariant testing of held nodes against the model's branches",
 "C08": "stateful model-based testing of the prover, with an independent verifier",
 "C09": "stateful inverse (round-trip) testing of undo against the model",
 "C10": "stateful round-trip and crash-point testing of the forest file",
 "C11": "round-trip and byte-level fuzzing of the wire format against an independent codec",
 "C12": "round-trip and byte-level fuzzing of the wire format against an independent codec",
 "C13": "stateful testing with injected invalid blocks against the model",
 "C14": "differential testing of position arithmetic against (row, index) arithmetic",
 "C15": "differential testing of pollards against a sparse reference of huge forests",
 "C16": "differential testing against an independent SHA-512 implementation",
 "C17": "structured and byte-level fuzzing under address and undefined-behaviour sanitizers",
 "C18": "stateful differential testing of comparisons on pairs of forests",
 "C19": "stateful model-based testing of bridge, wire and clients with reorganisations",
 "C20": "fault injection (write limit, truncation) over generated forests and sizes",
 "C21": "differential testing of deletion plans against a sparse reference, and round trip of undo",
 "C22": "stateful testing of allocated memory over repeated and long generated histories",
 "C23": "generated scripts with model answers, run interleaved and in threads under the thread sanitizer",
 "C24": "differential testing of generated call scripts over eight builds of the library, with the model's roots",
 "C25": "stateful model-based testing of the printed output, read back from std::cout",
}
checks = []
for k, v in T.items():
    checks.append({
        "property": k,
        "quick_cmd": f"python3 run.py check {k}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {k}",
        "technique": v,
        "level": "exploration",
        "level_note": "Random search from a recorded seed over generated cases with an explicit oracle, library and harness built with " + ("the thread sanitizer" if k == "C23" else "address and undefined-behaviour sanitizers") + "; failures are confirmed three times in fresh processes and shrunk. It shows the property on the cases explored, not in general. "
                      "Trusts the reference model, the second SHA-512 and the compiler; thorough adds longer histories, the library's own checks" + ("." if k == "C23" else " and libFuzzer."),
    })
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are used. Known findings: known-findings.txt. `python3 run.py replay C07 FILE` shows a failing case step by step."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
