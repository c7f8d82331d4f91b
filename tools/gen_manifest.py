#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
NOTE = ("Seeded random search, no exhaustive guarantee: says that none of the executions of this run broke the property. Trusts the simulated system call layer, the reference oracle in /verif/gsim, "
        "gcc, libstdc++, Eigen and (optimisation runs) Ipopt. The JSON schema validator is a stand-in, as the library is not installed.")
TECH = {
 "C01": "system call and allocation faults in whole program runs, fault-free run as oracle",
 "C02": "kills and faults at every system call, tree comparison, rerun after the crash",
 "C03": "seeded schedules of concurrent instances and clock jumps over the simulated file system calls",
 "C04": "kills and faults at every system call, old-or-new oracle, repeated command",
 "C05": "kills and faults at every system call, fault-free run and independent schema oracle, repeated command",
 "C06": "numerical faults injected into evaluations and matrices, independent residual recomputation",
 "C07": "injected step failures, recorded call history checked against an executable model of the stepping protocol",
 "C08": "the same problem run in pairs of simulated environments, byte comparison",
 "C09": "simulated entropy, seeds fed back, cut-off band and relaxation model over the recorded rows",
 "C10": "random networks under transient faults, independent physics oracle over the recorded history",
 "C11": "random networks under transient faults, independent power flow oracle over the recorded history",
 "C12": "random coupled networks under transient faults, independent coupling oracle over the recorded history",
 "C13": "random spans under transient faults, time grid oracle over the recorded history",
 "C14": "random optimiser callback histories with failing simulations, fresh instance as oracle",
 "C15": "random optimiser callback histories, finite differences of the returned values as oracle",
 "C16": "whole optimisation runs under faults, values recomputed from the written results",
 "C17": "random request histories with failing simulations, fresh simulation as oracle",
 "C18": "matrices refreshed along random state histories, rebuilt matrices and finite differences as oracle",
 "C19": "the same network run from differently ordered and split inputs, comparison of results",
 "C20": "truncated, unreadable and corrupted inputs in whole program runs, exit status and directory oracle",
 "C23": "pairs of simulated runs, with defaults under transient faults and with every value written out, byte comparison",
 "C24": "kills and faults at every system call of the tools, independent model of each edit, old-or-new oracle, repeated command",
 "C25": "simulate, extract under faults and kills, continue: extracted values against the results, continued run against the uninterrupted one",
 "C21": "progress bounds on simulated runs of well-posed networks once transient faults stop",
}
PURE = "pure function of its arguments: no schedule, time, I/O, randomness or failure for a simulator to vary; generating values would be plain property-based testing"
NA = {"C22": PURE}
checks, na = [], []
for i in range(1, 26):
    c = "C%02d" % i
    if os.path.exists(os.path.join(R, "gsim", "props", c.lower() + ".py")):
        checks.append({"property": c, "quick_cmd": "python3 check.py " + c, "thorough_cmd": "python3 check.py %s --tier thorough" % c,
                       "technique": T + TECH[c], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": c, "reason": NA.get(c, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 harness/build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are the libc calls, operator new and the interfaces the code already has. See DESIGN.md."}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
