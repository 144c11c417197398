#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (validated against the schema)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
ORACLE = {
 "C01": "a ledger of every objective call (variable, value, argument object) against every candidate seen at every observation point",
 "C02": "vector-clock happens-before detection on every instrumented access, shared-generator draws inside teams, and the number of threads inside the objective",
 "C03": "histories of the single-thread run, of seeded teams and interleavings, and of the builds without threads and without OpenMP compared bit by bit",
 "C04": "histories under different heap layouts, memory contents, stack positions and clocks compared bit by bit",
 "C05": "the history of a solver alone against the same solver beside, alternating with and nested in other solvers, random stream held equal",
 "C06": "multiset of candidates before against the population after every selection",
 "C07": "ledger of evaluations against reported best, swarm best and particle bests",
 "C08": "sorted candidates before against the population after selection; best value monotone over the history",
 "C09": "generation budget and stop reason, step budget of every run (liveness), under stalls, odd processor counts and degenerate fitness",
 "C10": "a counting model of generations, failures and records against the solver's counters",
 "C11": "brute-force non-dominated set against the reported front after every generation",
 "C12": "brute-force domination counts and an independent crowding distance against what selection kept",
 "C13": "lattice enumeration, nearest-line association and a niching replay against the sorter's state",
 "C14": "bounds of every component after every phase and operator call, with extreme random draws injected",
 "C15": "pedigree reconstruction: which parents explain the children, with the documented operator laws",
 "C16": "solving for the random factors each particle's move implies and replaying the law",
 "C17": "reference computation of layers, means and bests; solving for the factors each child implies",
 "C18": "lifetime and bounds of arena memory on every instrumented access, double frees, poisoned stack and fresh memory, immediate reuse or quarantine",
 "C19": "survival counts over many seeded selections against the fitter half, the mirrored direction and an independent drawing of the documented law (z tests with a wide margin)",
 "C20": "a plain model of several containers compared cell by cell after every operation, with a ledger of element lifetimes and heap blocks",
 "C21": "published formulas, bit-equality of repeated and of concurrent calls on other result, stack and heap contents, and agreement between container kinds",
 "C22": "range of every value under injected extreme draws, values again from the same recorded draws, index counts and moments (9 sigma)",
 "C23": "round trip through encode and decode of seeded bit patterns in every rounding direction and from a simulated team; codes evaluated at compile time; long double and 128-bit references for quotients, powers and combination numbers",
}
NOT_CLAIMED = {}
checks = []
for p in P:
    i = p["id"]
    if i in NOT_CLAIMED:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py run {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py run {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over workloads, schedules and faults; oracle: " + ORACLE[i],
        "level": "exploration",
        "level_note": "Seeded sampling, not proof: holds on every simulated run explored. Real solver code under a simulated OpenMP runtime, heap, entropy, "
                      "clock and processor count; sequentially consistent interleavings at instrumented accesses. Trusts the simulator (/verif/sim), "
                      "the reference models in its harness and the compiler's instrumentation.",
    })
M = {
    "version": 1,
    "setup_cmd": "g++ --version >/dev/null && test -d /usr/include/eigen3 && python3 -m py_compile check.py && mkdir -p evidence build",
    "hooks": {"guard": "HEU_SIMULATION", "enable": "compiled with -DHEU_SIMULATION by check.py (the solvers then call heu_sim_point(), which the simulator defines)",
              "source_commits": ["76e88e7dff0e0bcf9204d2302eb3848dc0d862cc"]},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_CLAIMED.items()],
    "notes": "One driver (check.py) builds the simulator and the workloads a property needs from /repo's working tree, searches, confirms, minimises "
             "and writes replay files to /verif/replays; 'python3 check.py replay FILE' runs one again. VERIF_SEED decides every choice.",
}
json.dump(M, open(f"{V}/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
