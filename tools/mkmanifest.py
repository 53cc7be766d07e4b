#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl that has one."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 P23 P24 P25".split()
MODEL = "bounded exhaustive model checking of the real code: every pattern of a bounded grammar x every text of a bounded length, each execution compared with an explicit reference model"
DIRECT = "bounded exhaustive model checking of the real code: every input of a bounded space run and compared with an independent specification"
TECH = {
 "P03": "explicit-state exploration of the match-iteration protocol (start / backtrack / convert) of the real code, for every pattern and text within bounds, in lockstep with a reference model",
 "P06": DIRECT, "P10": DIRECT, "P11": DIRECT, "P12": "exhaustive enumeration of all 1,112,064 characters (and short texts) on the real code against the standard library's classes",
 "P13": DIRECT, "P23": DIRECT,
 "P04": "bounded exhaustive model checking of the real code: every pattern of a bounded grammar x every text of a bounded length under a step budget derived from the reference model, and every number of elements up to a bound on a small stack",
 "P16": "bounded exhaustive model checking: every rule set and text within bounds against a reference model, and every history of building, moving, combining and dropping rule-set parsers up to a depth",
 "P17": "exhaustive exploration of the real code: every history of parses and parser objects up to a depth, every interleaving of two iterators, and every two-thread schedule with a bounded number of switches under a controlled scheduler",
 "P18": "bounded exhaustive model checking: every pattern of a bounded family compiled through the real macro with its real types, and every run compared with a reference evaluator",
 "P19": "bounded exhaustive model checking: every sentence of the documented grammar up to a length compiled through the real macro, and every run on every text up to a length compared with a reference evaluator",
 "P20": "exhaustive enumeration of token sequences up to a length and of all edits of patterns, each put to the real macro and compiler and compared with a reference recogniser of the documented grammar",
 "P24": "bounded exhaustive model checking of the real code: every user-written parser (script of matches) x context x text within bounds, in lockstep with a reference model and a monitor of the match protocol; a panic at every call",
 "P25": "exhaustive exploration of the real code under a counting allocator: every pattern, text, abandoned parse and panic point within bounds, after each of which the thread must hold what it held before",
 "P22": "bounded exhaustive model checking of the real code: every pattern, context and text within bounds run in both formulations, which must agree",
}
GNOTE = "Every pattern or token sequence within the bounds listed in the evidence file is put through the real macro and compiler against /repo's current tree; nothing is sampled. Trusted: the reference evaluator and recogniser (gen/pat.py, gen/malformed.py), rustc. What the documentation leaves open (counted in the evidence) is not judged. Beyond the bounds nothing is claimed."
NOTE = "Every execution within the bounds listed in the evidence file is run on the real crate, built from /repo's current tree, and compared with the model; nothing is sampled. Trusted: the reference model (mc/src/model.rs), the type-erasing wrapper (mc/src/dynp.rs), rustc and the standard library. Beyond the bounds nothing is claimed."
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, MODEL), "level": "model_checking", "level_note": GNOTE if i in ("P18", "P19", "P20") else NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "CARGO_TARGET_DIR=/verif/target cargo +stable build --release --offline --manifest-path mc/Cargo.toml && CARGO_TARGET_DIR=/verif/target cargo +stable build --offline --manifest-path gen/rt/Cargo.toml",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public interface of the crate only. Known findings and repairs: known-findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
