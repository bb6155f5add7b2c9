#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 "C01": "seeded simulation of caller threads over one engine, preempted at every basic block, access, allocation and lock (and at JIT instructions); outcomes against solo runs",
 "C02": "simulated call histories through one reused context with failing callbacks and scratch, against fresh-context runs in a cloned process; memory growth over cycles",
 "C03": "simulated failing callbacks and built-ins; status and error text of every execution against the callback log, sequential and under the seeded scheduler",
 "C04": "simulated histories of compiles, loads, refusals, damage and executions against a model of which program is served",
 "C05": "simulated disk with crash points and a restarted process at other addresses; every outcome compared after loading what the disk kept",
 "C06": "simulated storage faults on artifacts (truncation, tearing, lost sectors, flips, extremes, foreign hosts) against a framing model",
 "C07": "simulated operation histories with refused memory against a block model of the arena",
 "C08": "batches and pipelines in any composition against separately compiled entries, sequential and under the seeded scheduler",
 "C09": "refusal of the k-th map/protect request, once or persistently, inside create/compile/load/destroy, with another engine serving; recovery and mapping balance",
 "C10": "compile inputs destroyed and overwritten; recompilation in cloned processes with other heap layouts, placements and memory contents",
 "C11": "pipeline sets against an executable reading of the script, with failing callbacks, permutations and the seeded scheduler",
 "C12": "conditional-heavy programs with armed failures against a reference interpreter: value, stores, calls made and errors",
 "C13": "repeated simulated lifecycles with faults; live heap and mapped memory must return to their level",
 "C14": "simulated threads each running an engine lifecycle, half of them in a process that never initialised LLVM; outcomes against solo scripts",
 "C15": "histories of registrations, overrides, refusals, compiles, loads, executions and destroyed registries against a model of every registry and of every program's bindings, alone and with threads executing meanwhile",
 "C24": "executions whose arena is refused the k-th memory request, once or persistently, in new and reused contexts and among other threads; status, later outcomes and the simulated heap are checked",
}
NOTE = {
 "C01": "Sampled schedules and programs; LLVM internals are preempted only at lock and allocation calls (they are not on the execution path). Sequentially consistent interleavings.",
 "C02": "Sampled histories; the oracle is the same call with a brand-new context.",
 "C03": "Sampled programs and armed-failure sets; statement programs inside batches are checked on the errors of callbacks, not on the exact text.",
 "C04": "Sampled histories. After a script that does not parse, and after a load that fails late, the previous program or no program may be served, but never a mixture.",
 "C05": "Sampled programs and crash points; the restarted process is a second executable with other image, heap and library addresses on the same CPU.",
 "C06": "Sampled damage. Damage inside the machine-code payload cannot be told from valid code by design and is not applied.",
 "C07": "Sampled histories with every allocation refusable; trusts the simulated heap's own bookkeeping.",
 "C08": "Sampled compositions; repeated identical pipelines may share identical stores.",
 "C09": "Sampled programs, every refusal position sampled; refusals inside LLVM's own heap allocations are out of scope.",
 "C10": "Sampled programs and layouts.",
 "C11": "Sampled scripts of the subset the interpreter knows.",
 "C12": "Sampled programs of the subset the interpreter knows, plus built-ins that must fail.",
 "C13": "Sampled lifecycles; growth is judged after warm-up cycles, so one-time caches are not counted.",
 "C14": "Sampled schedules; LLVM internals are preempted at lock, once, allocation and mapping calls.",
 "C15": "Sampled histories over a few names and signatures of four scalar types. Loads into a registry whose function of that name has another return type or kind are not made (the artifact format does not record them).",
 "C24": "Sampled programs; positions are drawn from the number of requests the fault-free call makes. Only requests of the arena are refused: std containers inside built-ins report exhaustion by exception, as documented.",
}
import os, sys
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else sorted(T)
NA = {
 "C20": "pure function of its input: no schedule, clock, fault or interleaving to simulate",
 "C21": "pure function of its input: no schedule, clock, fault or interleaving to simulate",
 "C22": "pure function of the source text or tree: nothing for a simulator to schedule or to fail",
 "C23": "translation correctness over all programs and values: no schedule or fault is involved",
}
for p in T:
    if p not in CLAIMED:
        NA[p] = "check under construction"
m = {
 "version": 1,
 "setup_cmd": "python3 tools/build.py",
 "checks": [{"property": p, "quick_cmd": f"python3 check.py --prop {p}", "thorough_cmd": f"python3 check.py --prop {p} --thorough", "evidence_file": f"evidence/{p}.json",
             "technique": "deterministic simulation with fault injection: " + T[p], "level": "exploration", "level_note": NOTE[p]} for p in CLAIMED],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
 "notes": "No hooks in /repo: the seams are symbol interposition, instrumentation of the compiled copy and registered callbacks, all in /verif/sim.",
}
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
