#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = {
 "C18": "TLA+ odometer (Radix.tla) enumerated by TLC; every state replayed on the code, large bases through RadixTrace",
 "C06": "TLA+ backend algebra and circuit machine; the same TLC histories replayed on all five backends",
 "C21": "TLA+ machine of operator flows and caller-held Moments (Flow.tla); TLC histories replayed on the code",
 "C26": "TLA+ machine of caller-held Moments and flows (Flow.tla); TLC histories and driver histories replayed on the code",
 "C24": "TLA+ shelf of gate objects (Gates.tla) with exact matrices; TLC histories and driver histories replayed on the code",
 "C25": "TLA+ machine of overlapping calls (Overlap.tla over QuDiet.tla); TLC schedules and driver schedules forced on real threads by a scheduler",
 "C22": "TLA+ construction checked by TLC; gate lists recorded from the code executed by the specification (TreeTrace)",
 "C23": "TLA+ machine of a directory and the runner (Batch.tla); TLC histories replayed on the script in scratch directories",
 "C16": "TLA+ document model (Qasm.tla) composed with the circuit machine; TLC histories replayed on the parser",
 "C17": "TLA+ document model (Qasm.tla) composed with the circuit machine; TLC histories replayed on the parser",
}
DEF = "TLA+ circuit machine (QuDiet.tla) with exact cyclotomic amplitudes; TLC histories and driver histories replayed on the code"
NOTE = ("Exhaustive over all call histories up to the bound in the evidence file on small circuits (with the specification's "
        "invariants checked in every state), sampled beyond it by drivers whose expected observations TLC computes. Trusted: TLC, "
        "the Java overrides of Cyclo.tla (compared with their TLA+ definitions in CycloTest), and the projection in harness/real.py. "
        "Says nothing about inputs beyond the explored bounds.")
EXTRA = {
 "C06": " CUDA backends run on a NumPy/SciPy stand-in for CuPy: no statement about GPU numerics.",
 "C22": " Gate lists beyond the sizes run on the simulator are executed by the specification's CX, which C03 ties to the code.",
}
checks = []
for line in open(ROOT / "properties.jsonl"):
    i = json.loads(line)["id"]
    cmd = f"/opt/venv/bin/python harness/check.py {i}"
    checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEF), "level": "model_checking",
                   "level_note": NOTE + EXTRA.get(i, "")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the public interface exposes the abstract state. QV_REPO=<dir> makes a check read a scratch copy of /repo "
              "(used while planting bugs; unset for the registered commands)."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
