#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
CODEC = "exhaustive enumeration of a bounded input space on the real code, each case judged by an independent reference"
TRANS = "stateless model checking of the real code: exhaustive exploration of event sequences, task interleavings, faults and cancellations under a controlled scheduler, sockets and clock"
NC = ("Every element of the listed finite input spaces is executed on the real code and compared with a reference written from the standard. "
      "Nothing is sampled; inputs outside the listed spaces are not decided. Trusts the reference codecs and rustc.")
NT = ("Every event sequence up to the stated depth over the stated alphabet, with every placement of up to the stated number of scheduling deviations, "
      "is executed on the real client/monitor and every trace is judged by the property's monitor. Trusts tokio's channels/timers (original code), the checker's sockets and clock, "
      "and the monitors; deeper histories and larger alphabets are not decided.")
checks = []
for i in ids:
    codec = i <= "C10"
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=(CODEC + (" (and model checking of the client's sends)" if i == "C06" else "")) if codec else TRANS,
                       level="exploration" if codec else "model_checking", level_note=NC if codec else NT))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the checks run the unmodified public API against a vendored, instrumented tokio (vendor/tokio) selected by [patch.crates-io] in harness/Cargo.toml.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
