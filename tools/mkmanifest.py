#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
SYS = "deterministic simulation with fault injection: "
T = {
 "C01": "whole program under a libc seam, seeded I/O fault plans, results compared with an executable reference model",
 "C02": "whole program with damaged or concurrently written input and seeded read faults, result files compared before/after",
 "C03": "crash/interrupt/fault at seeded points, then restart on the surviving files, compared with an undisturbed run",
 "C04": "whole program under seeded faults and kills, every path it touches recorded, tree compared before/after",
 "C05": "invariant on the table bytes checked before every simulated file-system call under seeded crashes and faults",
 "C06": "paired runs in differing simulated worlds (clock, hash seed, pid, randomness, I/O splitting)",
 "C07": "2-4 simulated processes interleaved per file-system call by a seeded scheduler, with kills and faults",
 "C08": "histories of loads with seeded read/open/close faults and interrupts, against expected isomers",
 "C09": "histories of file changes under simulated clock skew interleaved with loads",
 "C10": "seeded histories of API calls and caller-side overwrites, each query against a fresh model",
 "C11": "real threads released one at a time at line/bytecode granularity by a seeded scheduler, against serial calls",
 "C12": "real threads under a seeded scheduler, prime-labelled contributions, history checked against an append-only list model",
 "C13": "exceptions, malformed results, interrupts and failing allocations injected into seeded query histories",
 "C14": "process-wide state compared around every call of seeded histories with failing calls and I/O faults",
 "C15": "histories of plotting calls with failing writes, images compared with fresh-process images",
 "C16": "simulated git processes with injected failures, versions against a model of the repository state",
 "C17": "faults made persistent at seeded points, progress within a bounded number of simulated calls",
}
NOTE = {
 "default": "Seeded exploration: samples inputs, schedules and fault plans; a clean run is evidence, not proof. Trusts the libc seam (calls bypassing libc are not seen) and the crash model 'what the kernel accepted stays'.",
 "api": "Seeded exploration of histories. Reference results come from freshly built models in a fresh process, so a defect that affects both alike is left to C01. Trusts NumPy to be deterministic.",
 "thr": "Seeded exploration of thread schedules; switch points are lines/instructions of occuprob code, lock operations and user-written contributions; NumPy, ASE and pymatgen calls are atomic.",
 "C16": "Seeded exploration of repository states and git failures; trusts git invocations that report success.",
 "C01": "Seeded exploration. Values are compared with an independent long-double implementation of the documented formulas (1e-6 relative); two known numerical findings at very low temperature are listed in known-findings.json and excluded by input, not by loosening.",
}
KIND = {"C10": "api", "C13": "api", "C14": "api", "C11": "thr", "C12": "thr"}
NA = {}
for n, why in {
 "N01": "normalisation of calc_probability is a pure function of the model data and the temperature",
 "N02": "calc_heat_capacity is a pure function of the model data and the temperature",
 "N03": "the w and v functions are pure closed-form functions of their data and the temperature",
 "N04": "metamorphic relations between pure evaluations",
 "N05": "limits of pure functions",
 "N06": "geometry analysis is a pure function of the atomic positions",
 "N07": "a weighted sum, a pure function of its arguments",
 "N08": "helper formulas are pure functions of their arguments",
}.items():
    NA[n] = why + "; no schedule, clock, I/O, fault or interleaving can influence it, so simulation has nothing to decide (its value correctness is covered only as far as C01 samples it through whole runs)"
man = {"version": 1, "setup_cmd": "python3 sim/selftest.py --setup",
       "checks": [{"property": k, "quick_cmd": "python3 sim/run.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 sim/run.py " + k,
                   "evidence_file": "evidence/%s.json" % k, "technique": SYS + v, "level": "exploration",
                   "level_note": NOTE.get(k) or NOTE[KIND.get(k, "default")]} for k, v in sorted(T.items())],
       "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
       "notes": "No hooks in /repo: every seam is outside (LD_PRELOAD libc shim, subprocess.Popen stand-in, sys.monitoring thread scheduler, malloc hook). Replay: python3 sim/run.py replay <path>. Self-test of determinism: python3 sim/selftest.py."}
ids = {json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))}
assert ids == set(T) | set(NA), ids ^ (set(T) | set(NA))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
