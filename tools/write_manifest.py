#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation of both parties, their OpenMP threads, the channel, randomness and allocator in one process; seeded random search over "
C = {
    "C01": (T + "histories, thread schedules and deliveries; every element of every output checked against the OLE relation", ""),
    "C02": (T + "histories and schedules; all random elements of a run compared, plus twin executions differing in one party's randomness", ""),
    "C03": (T + "histories, batches, schedules; outputs compared with the sum of the parties' inputs", ""),
    "C04": (T + "histories, batches, schedules; outputs compared, everything delivered to the receiver searched for the withheld element and for nodes of its path", ""),
    "C05": (T + "histories, lengths, scalars, moduli, schedules; outputs compared with scalar times vector", ""),
    "C06": (T + "histories, index sets, sizes, schedules; outputs compared with the multi-point function", ""),
    "C07": (T + "inputs and work-sharing schedules of two parties; tables compared with an executable definition and with each other", ""),
    "C08": (T + "delivery faults (delay, outage, fragmentation, data that leaves only on flush), starvation and stalls; deadlock, bounded progress and stream alignment checked", ""),
    "C09": (T + "crash points (transport operations, torn writes, lost tails, allocations) against a fault-free twin execution, with restart in new sessions", ""),
    "C10": (T + "histories mixing refused and valid calls; status and channel traffic of every call checked", ""),
    "C11": (T + "histories changing moduli and thread counts in concurrent sessions; outputs checked in the arithmetic of the modulus in force", ""),
    "C12": (T + "preemptions at memory accesses of the instrumented library; vector-clock happens-before race detection on every simulated access", ""),
    "C15": (T + "histories of generator and tree objects used by several threads, preempted at memory accesses; every byte and node checked against an executable definition", ""),
    "C13": (T + "histories and schedules with chosen inputs; distribution of messages and single-party outputs over the whole batch tested against uniformity", ""),
}
N = "all library code runs unmodified from /repo's working tree; channel, OT (dealer), OpenMP runtime, libssl randomness, clocks and allocator are simulator stubs; bounded by seeds and time, not exhaustive"
NA = [
    ("C14", "pure arithmetic on two operands: no schedule, time, I/O, fault or second party can influence it, so a simulator has nothing to decide (errors in it still show up in C01 to C06 runs over the binary field)"),
]
have = [c for c in sorted(C) if c not in set(os.environ.get("SKIP", "").split(","))]
for c in sorted(C):
    if c not in have:
        NA.append((c, "machinery for it is being built"))
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py plain && python3 tools/build.py race" if "C12" in have else "python3 tools/build.py plain",
    "checks": [dict(property=c, quick_cmd="python3 tools/check.py %s quick" % c, thorough_cmd="python3 tools/check.py %s thorough" % c,
                    evidence_file="evidence/%s.json" % c, technique=C[c][0], level="exploration", level_note=N + C[c][1]) for c in have],
    "not_applicable": [dict(property=a, reason=b) for a, b in NA],
    "notes": "No hooks were added to /repo: all seams are link- and include-level (see DESIGN.md). /repo carries only fix: commits, listed in known_findings.txt.",
}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1)
open(p, "a").write("\n")
