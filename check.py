#!/usr/bin/env python3
"""check.py --prop Cxx [--thorough] [--secs S]

Builds the simulator from /repo's working tree, searches seeds for a violation of one property, rewrites
evidence/<prop>.json and exits 0 (held), 1 (VIOLATION line) or something else (the check itself failed)."""
import argparse, json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B

QUICK = 60.0
REAL = ["src/**/*.cc (engines, JIT core, code generation, built-ins, artifacts, arena, registry)", "athena/*.cc (lexer, parser, AST builder, grouping)",
        "LLVM 19 (optimiser, MC, JIT linking) as the installed shared library", "the machine code the JIT produced, on this CPU"]
STUB = ["thread scheduling (seeded scheduler over parked threads)", "malloc/free/new and direct arena mallocs (seeded heap: placement, reuse, fill, refusal)",
        "mmap/mprotect/munmap of code memory (seeded placement and refusal)", "pthread mutexes, call_once and static-local guards (simulated locks)",
        "disk (byte images with torn, lost and reordered sectors)", "user callbacks, stores, input records (logging implementations, armed failures)"]
ASSUME = ["a clean run is evidence, not proof: schedules, programs and faults are sampled from a seeded generator",
          "code inside libLLVM is preempted only at its lock, allocation and mapping calls; repository code at every basic block, load and store; stepped runs also at every JIT instruction",
          "executions are sequentially consistent: one simulated thread runs at a time, hardware reordering is not simulated",
          "LLVM, the C++ library, the CPU and the kernel are trusted"]

def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3), re.S), m.group(4)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--secs", type=float)
    a = ap.parse_args()
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = a.secs or (600.0 if thorough else QUICK)
    t0 = time.time()
    try:
        exe, exe_b = B.build()
    except B.BuildError as e:
        print("check error: the simulator does not build from /repo:\n" + str(e))
        return 2
    built = time.time() - t0
    out = os.path.join(VERIF, "evidence")
    os.makedirs(out, exist_ok=True)
    replay = os.path.join(out, f"replay-{a.prop}.json")
    stats = os.path.join(out, f".stats-{a.prop}.json")
    rc, text, st = 2, "", None
    # a violation that cannot be replayed exactly is not reported: the search goes on with other seeds
    for attempt in range(3):
        for f in (stats, replay):
            if os.path.exists(f):
                os.remove(f)
        s = seed if attempt == 0 else seed * 7919 + attempt
        cmd = [exe, "--prop", a.prop, "--seed", str(s), "--secs", str(secs), "--bexe", exe_b, "--out", out, "--stats", stats, "--sigs", os.path.join(VERIF, "tools", "sigs.txt"),
               "--min-secs", "60" if thorough else "20"]
        if thorough:
            cmd.append("--thorough")
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 500)
            rc, text = p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            rc, text = 2, "the simulator did not finish"
        if rc in (0, 1):
            break
        print(f"attempt {attempt}: simulator exit {rc}\n{text[-3000:]}")
        secs = min(secs, 20)
    if os.path.exists(stats):
        try:
            st = json.load(open(stats))
        except ValueError as e:
            print("check error: bad statistics:", e)
            return 2
        os.remove(stats)
    if st is None:
        print("check error: no statistics from the simulator")
        return 2
    if st["determinism_mismatches"]:
        print(f"note: {st['determinism_mismatches']} of {st['determinism_rechecked']} re-run seeds had a different history")
    hours = max(st["wall_s"], 1e-6) / 3600
    interleaved = a.prop in ("C01", "C14")
    dn = st["distinct_interleavings"] if interleaved else st["distinct_configurations"]
    ev = {
        "property": a.prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0, "assumptions": ASSUME,
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": dn, "rule": st["rule"], "samples": st["samples"],
            "simulated_runs": st["runs"], "runs_per_hour": int(st["runs"] / hours), "seeds_per_hour": int(st["runs"] / hours), "cold_start_runs": st["cold_runs"],
            "simulated_time": {"unit": "logical steps (the library has no clock; a step is one yield point passed)", "steps": st["sim_steps"]},
            "preemptive_switches": st["preemptive_switches"], "executions_checked": st["executions"], "operations": st["operations"], "log_events": st["events"],
            "faults_fired": st["faults"], "probes": st["probes"],
            "distinct": {"histories": st["distinct_histories"], "interleavings": st["distinct_interleavings"], "configurations": st["distinct_configurations"],
                         "measure": "histories: hash of the whole event log; interleavings: hash of (thread, site) at every preemptive switch; configurations: hash of operations and outcomes"},
            "repository_edges_hit": st["edges_hit"], "repository_edges_total": st["edges_total"],
            "determinism": {"seeds_run_again": st["determinism_rechecked"], "different": st["determinism_mismatches"]},
            "runs_without_verdict": st.get("runs_without_verdict", 0), "longest_run_cpu_ms": st.get("longest_run_cpu_ms", 0),
            "real_components": REAL, "simulated_components": STUB, "build_s": round(built, 1), "search_s": st["wall_s"],
        },
    }
    code = rc
    if rc == 1:
        r = json.load(open(replay))
        for cls, rx, what in known(a.prop):
            if cls == r["class"] and rx.search(r["message"]):
                print(f"KNOWN-FINDING: property={a.prop} {what}")
                code = 0
        if code:
            print(f"violation of {a.prop}, class {r['class']}, seed {r['seed']}")
            print(r["message"])
            print("minimised trace:")
            for line in r["trace"][:120]:
                print("   " + line)
            print(f"replay with: {exe} --replay {replay} --bexe {exe_b}")
            print(f"VIOLATION property={a.prop} replay={replay}")
    with open(os.path.join(out, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop}: {st['runs']} runs ({ev['coverage']['runs_per_hour']}/h), {dn} distinct, {st['executions']} executions, {st['preemptive_switches']} switches, build {built:.0f} s, search {st['wall_s']} s, exit {code}")
    return code

if __name__ == "__main__":
    sys.exit(main())
