#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
PROG = "bounded exhaustive enumeration of programs and requests; every reference-model trace replayed on the real derive's output"
PROG_NOTE = ("Holds for every program and request of the enumerated families (bounds and counts in the evidence); "
             "assumes larger programs behave alike and trusts the reference router and rustc.")
CLAIMED = {p: (PROG, "model_checking", PROG_NOTE) for p in ("P01", "P02", "P03", "P04", "P05", "P07")}
CLAIMED["P06"] = ("bounded exhaustive enumeration of declarations; model verdicts (overlap decided by brute force over witness paths) compared with rustc running the real derive", "model_checking",
    "Holds for every declaration of the enumerated families; trusts the model verdict rules and that rustc reports each rejected item.")
STATELESS = "stateless model checking: all outcomes, readiness schedules and drops within bounds on the real derive output, judged by the reference"
STATELESS_NOTE = "Every schedule within the bounds in the evidence is executed on the real code; longer schedules are assumed to behave alike."
CLAIMED.update({p: (STATELESS, "model_checking", STATELESS_NOTE) for p in ("P08", "P10")})
SERVICE = "stateless model checking: all histories of requests, outcomes, schedules, panics and drops within bounds on the real services, judged by a reference"
CLAIMED.update({p: (SERVICE, "model_checking", STATELESS_NOTE) for p in ("P11", "P12", "P13", "P14", "P15")})
CLAIMED["P15"] = (SERVICE + "; plus thread model checking: the real code under a controlled scheduler, all interleavings up to a preemption bound",
    "model_checking", "Every schedule within the bounds in the evidence is executed on the real code, sequentially consistent; "
    "plain heap accesses and uninstrumented dependencies are not scheduling points.")
CLAIMED["P09"] = ("stateless model checking: all small bodies and all their deliveries (portions, delays, failures) on the real wrappers, compared with the parser alone",
    "model_checking", "Exhaustive within the bounds in the evidence; sizes beyond are covered by a ladder up to 16 MiB; trusts serde_json and serde_urlencoded as the meaning of the bytes.")
CLAIMED["P16"] = ("stateless model checking: all answers of the executor, closure outcomes, drops and poll orders within bounds, plus conformance runs on tokio's thread pool",
    "model_checking", STATELESS_NOTE)
CLAIMED["P18"] = ("exhaustive enumeration of the error type's state space (status x source, method lists) and observation sequences", "model_checking",
    "Complete for statuses and sets of the nine standard methods; sources and method sequences up to the bounds in the evidence.")
CLAIMED.update({p: ("bounded exhaustive enumeration of programs; each compiled and run with the real derives, and compared with the reference", "model_checking",
    "Holds for every program of the enumerated families (bounds and counts in the evidence); assumes larger programs behave alike.") for p in ("P17", "P19")})
CLAIMED["P20"] = ("stateless model checking: all outcomes, schedules, panics and drops within bounds on the real decoders, services and blocking futures; live objects counted after each execution", "model_checking",
    "Every execution within the bounds in the evidence is run on the real code; accumulation is decided on histories of thousands of requests by comparing memory in use.")
ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 mc/run.py setup",
    "checks": [
        {"property": p, "quick_cmd": "python3 mc/run.py check %s" % p, "thorough_cmd": "python3 mc/run.py check %s thorough" % p,
         "technique": CLAIMED[p][0], "level": CLAIMED[p][1], "level_note": CLAIMED[p][2]}
        for p in ids if p in CLAIMED
    ],
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in ids if p not in CLAIMED],
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
