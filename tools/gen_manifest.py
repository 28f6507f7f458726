#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the LEVEL of each check."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "explicit-state model checking of the real code: exhaustive breadth-first exploration of operation histories against a reference model"
CASES = "bounded exhaustive exploration: every input or program of a bounded space executed on the real code against an independent oracle"
T = {
 "C01": HIST, "C02": HIST + ", a refused request at every point",
 "C03": CASES, "C04": CASES, "C05": HIST, "C06": CASES + "; all format pairs and edit histories", "C07": CASES + "; every entry point",
 "C08": CASES, "C09": HIST + "; storage that answers short", "C10": "exhaustive fault enumeration: every crash byte and every refused storage write of every bounded history",
 "C11": HIST + "; every write split and read/seek sequence", "C12": HIST + "; every accessor sequence", "C13": HIST + "; every write sequence and mode",
 "C14": "exhaustive exploration of inputs, worker schedules (every completion order) and iterator interleavings under a controlled scheduler",
 "C15": CASES + "; every interleaving of edits and evaluations", "C16": CASES + "; every labelled graph", "C17": CASES, "C18": CASES, "C19": CASES,
 "C20": CASES, "C21": HIST, "C22": HIST, "C23": CASES, "C24": CASES, "C25": CASES + "; every settings combination",
 "C26": "exhaustive fault enumeration: every truncation point of every document of a bounded space", "C27": HIST,
 "C29": HIST + "; on the compiled Java classes",
 "C32": "explicit exploration of all sequences of writing and of reading calls and of all truncations on the compiled Java classes, against a model of blocks and the Python implementation",
 "C33": "stateless model checking of the compiled Java classes: all schedules up to a preemption bound under a controlled scheduler, outcomes checked for linearisability",
 "C30": HIST + "; on the compiled Java classes, documents read back by Python",
 "C31": CASES + "; every history of reference and span edits; both implementations, compiled Java classes",
 "C38": HIST + "; every header with one part changed",
 "C40": "explicit exploration of all interleavings of open iterations with edits and encodings on the real code, Python and compiled Java; oracle: the nodes that stayed attached",
 "C41": "stateless model checking of the real code: real threads under a controlled scheduler, every switching point (statements and expressions, by instrumenting the syntax tree) of all pairs of operations; in Java the same, by instrumenting the compiled classes; oracle: each operation alone",
 "C39": HIST + ": the twin that was never encoded",
 "C34": CASES + "; on the compiled Java classes",
 "C35": CASES + "; every order of questions and every truncation, on the compiled Java classes",
 "C36": HIST + "; all values, builders and removals of bounded spaces; on the compiled Java classes",
 "C37": HIST + "; all jobs and, under a controlled scheduler, all schedules up to a preemption bound; on the compiled Java classes",
 "C28": "explicit exploration of all call sequences on the compiled Java classes, cross-checked byte for byte with the Python implementation and a reference",
}
NOTE = {
 "model_checking": "Every history or call sequence within the bounds in the evidence file is executed on the real code (no abstraction: states are "
                   "states of the real objects, merged only when their full observation and internal data agree). Trusts the reference model and the bounds.",
 "exploration": "Every case within the bounds in the evidence file is executed on the real code and compared with an oracle written from the property. "
                "Nothing is claimed beyond the bounds. Trusts the oracle.",
 "fault_enumeration": "Every fault point of every history within the bounds in the evidence file is executed on the real code. Trusts the oracle and that faults "
                      "behave like a prefix of the file or a refused write.",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(line)["id"]
    lev = re.search(r'^LEVEL = "(\w+)"', open(os.path.join(root, "mc/checks/%s.py" % i.lower())).read(), re.M).group(1)
    checks.append({"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": lev, "level_note": NOTE[lev]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: schedulers and fault injectors are stand-ins passed to the real code (DESIGN.md). known_findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
