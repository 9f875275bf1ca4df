#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
PBT = "property-based testing (proptest): "
CL = {
 "C01": ("exploration", PBT + "generated runs and local searches; every reported value re-evaluated", ""),
 "C02": ("exploration", PBT + "generated runs; pairwise invariant over the returned and checkpointed sets", ""),
 "C03": ("exploration", PBT + "reference model of Stage 2 compared with every per-trial checkpoint of generated runs", ""),
 "C04": ("exploration", PBT + "invariant over the history of solutions found, folded by a reference model", ""),
 "C05": ("exploration", PBT + "generated scatter searches; validity predicate over result and evaluation log", ""),
 "C06": ("exploration", PBT + "differential repetition of generated runs over thread pools, schedules perturbed by random delays", ""),
 "C07": ("exploration", PBT + "differential: generated runs with and without instrumentation", ""),
 "C08": ("exploration", PBT + "differential between execution modes and four other feature builds", ""),
 "C09": ("exploration", PBT + "round trip of generated states through every load path, bitwise", ""),
 "C10": ("exploration", PBT + "model-based operation sequences on the checkpoint directory", ""),
 "C11": ("fault_enumeration", PBT + "generated saves with the n-th system call or byte failing or killing the process", ""),
 "C12": ("exploration", PBT + "structured mutation fuzzing of checkpoint files in a memory-limited child", ""),
 "C13": ("fault_enumeration", PBT + "interrupted-and-resumed runs (every checkpoint, injected failures, time limits) versus the uninterrupted run", ""),
 "C14": ("exploration", PBT + "model of the run continued with modified parameters", ""),
 "C15": ("exploration", PBT + "metamorphic: stopped run versus prefix of the unlimited run", ""),
 "C16": ("exploration", PBT + "every evaluated and returned point of generated runs checked against the box", ""),
 "C17": ("exploration", PBT + "every returned and launched point re-checked against the constraints", ""),
 "C18": ("exploration", PBT + "recording observer compared with an independent account (call counts and reference model) in every callback", ""),
 "C20": ("exploration", PBT + "generated settings, bounds and points around their ranges, judged by explicit range rules and by the numerical library itself", ""),
 "C23": ("exploration", PBT + "differential: local searches through the library versus the numerical library configured directly", ""),
 "C21": ("fault_enumeration", PBT + "generated runs with the n-th callback failing; same failure replayed, clean run repeated", ""),
 "C22": ("exploration", PBT + "generated functions with non-finite holes; order and honesty invariants over results and history", ""),
 "C24": ("exploration", "property-based testing (hypothesis): differential between the Python interface and the core, bit for bit", ""),
 "C25": ("fault_enumeration", "property-based testing (hypothesis): histories of optimizations with faulty callbacks and malformed arguments versus the core alone", ""),
 "C26": ("exploration", PBT + "reports of generated solution sets parsed back and compared", ""),
 "C27": ("exploration", PBT + "output of generated runs in a child process parsed and compared with a recording callback and the reference model's events", ""),
 "C19": ("exploration", PBT + "recorded callbacks compared with the schedule and visibility rules", ""),
}
import importlib.util
extra = os.path.join(D, "claims_more.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        CL[k] = tuple(v)
NOTE = ("Search over generated cases, not a proof: assurance is for the explored cases (counts in the evidence "
        "file) and the classes the generator labels. Trusts the harness's problem, its reference model and proptest. ")
props = [json.loads(l) for l in open(os.path.join(D, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CL:
        lv, tech, note = CL[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level=lv, level_note=(NOTE + note).strip()))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh",
         checks=checks, not_applicable=na,
         notes="Every check rebuilds the harness (and, for C24/C25, the Python module) from /repo's working tree.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
