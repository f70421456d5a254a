#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation: "
BASE = "A clean batch is evidence over the sampled runs, not proof. Trusts the simulator's runtime and the rust toolchain; interleavings are sequentially consistent, thread creation and allocation do not fail."
C = {
 "C01": ("exploration", "seeded schedules (threads, stalls, spurious wake-ups) of the real rayon pool; serial execution as reference model"),
 "C02": ("exploration", "the same fit in two simulated processes with different hash keys, clocks, pools, schedules and earlier work"),
 "C03": ("exploration", "2-4 simulated caller threads on one booster under seeded schedules; the call made alone as reference"),
 "C04": ("exploration", "save in one simulated process, load in another, under short writes, short reads and EINTR"),
 "C05": ("fault_enumeration", "every file call of a save failed with each errno, disk full after boundary and seeded byte counts"),
 "C06": ("fault_enumeration", "crash in every file call of a save at boundary and seeded byte counts, seeded power-loss images, then load"),
 "C07": ("exploration", "seeded truncation, zeroed blocks, non-UTF-8 bytes and read faults, then load"),
 "C08": ("exploration", "seeded histories with interrupted, rejected and reloaded fits; a fresh booster as reference model"),
 "C09": ("exploration", "seeded histories of rejected fits, reads and failed saves; snapshot comparison after each step"),
 "C10": ("exploration", "seeded draws and schedules; covers decoded to row sets and compared with reference routing"),
 "C11": ("exploration", "seeded trainings with evaluation sets under schedules; reference metric and stopping machine over the recorded history"),
 "C12": ("exploration", "seeded draws, schedules and configurations; invariants over every node of every tree"),
 "C13": ("exploration", "seeded draws, schedules and reloads; monotonicity walked over all split values"),
 "C14": ("exploration", "seeded histories under schedules; reference evaluator compared with all read views after each step"),
 "C15": ("exploration", "seeded panics in workers and log sinks, stalls, spurious wake-ups, nested pools; deadlock and step-budget detection"),
 "C16": ("exploration", "seeded Python histories of fit, save, load, pickle, restart under short I/O and EINTR on a simulated file layer"),
 "C17": ("exploration", "seeded Python histories with I/O errors and rejected fits on a simulated file layer; fresh booster as reference"),
 "C19": ("exploration", "seeded Python histories with rejected fits and failed I/O, input layouts drawn per call; reference evaluator over the dumped model after each step"),
 "C20": ("exploration", "2-4 Python threads under a seeded line and opcode level scheduler; the call made alone as reference"),
 "C21": ("exploration", "seeded draws, histories and schedules; gain of every candidate split of every node recomputed by a reference splitter"),
 "C22": ("exploration", "rolling upgrade: a file without seeded sets of entries written in one simulated process, loaded, refit and saved in another under short reads, short writes and EINTR; the model that was saved as reference"),
 "C23": ("exploration", "rolling upgrade: seeded Python histories persisted without seeded sets of parameters, restored and refit in later simulated processes on a simulated file layer; the original booster as reference"),
 "C18": ("exploration", "seeded draws and schedules; Newton step of every node recomputed from the residuals of the model so far"),
}
NA = {
 "C30": "pure functions of their arguments: no schedule, clock, fault, randomness or history for a simulator to decide",
 "C33": "pure functions of their arguments: no schedule, clock, fault, randomness or history for a simulator to decide",
 "C34": "conversion is a pure function of an XGBoost dump",
}
PENDING = []
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for k, (lv, t) in C.items():
    if k in PENDING:
        m["not_applicable"].append({"property": k, "reason": "the check is under construction"})
        continue
    m["checks"].append({"property": k, "quick_cmd": f"./run.sh {k} quick", "thorough_cmd": f"./run.sh {k} thorough", "technique": DST + t, "level": lv, "level_note": BASE})
for k, r in NA.items():
    m["not_applicable"].append({"property": k, "reason": r})
m["notes"] = "No hooks in /repo: the simulator owns scheduling through the thread-sanitizer call-outs of an instrumented build and interposed libc calls. known_findings.txt lists repaired defects; none is left unrepaired."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
