#!/usr/bin/env python3
"""check.py <property> quick|thorough

Builds the simulator from /repo's working tree, runs a seeded batch of simulated
runs for one property, writes evidence/<property>.json.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 3: the check itself failed (build error, a run that does not repeat, ...).
"""
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

VERIF = build.VERIF

# property: (quick runs, thorough runs, quick second cap, rule)
PLAN = {
    "C01": (1500, 40000, "a run is a history of 1-9 VOLE precompute/run calls (both roles, up to two instances per party pair, all ten element types, thread counts 1-8 and changing, both channel modes, shared with other protocols); non-trivial: at least one protocol call completed; distinct: different hash of the complete event trace"),
    "C02": (1200, 30000, "a run is either a history of calls whose elements are wider than 90 bits, all of them recorded and compared, or three twin executions that differ only in the randomness one party draws during an expansion; distinct: different event trace"),
    "C03": (8000, 200000, "a run is a history of 1-8 calls, mostly batches of point functions; distinct: different event trace"),
    "C04": (8000, 200000, "a run is a history of 1-8 calls, mostly batches of all-but-one OTs; distinct: different event trace"),
    "C05": (8000, 200000, "a run is a history of 1-8 calls, mostly Gilboa products; distinct: different event trace"),
    "C06": (8000, 150000, "a run is a history of 1-8 calls, mostly multi-point functions; distinct: different event trace"),
    "C07": (6000, 100000, "a run is 2-12 hashing calls made by two parties with separate thread counts and schedules; distinct: different event trace"),
    "C08": (4000, 100000, "a run is 1-3 concurrent sessions with histories over all protocols under hostile delivery (outages, starvation, data that only leaves on flush); distinct: different event trace"),
    "C09": (6000, 150000, "a run executes a history without failure, then the same with one party crashing at a chosen transport operation or allocation, then in a new session; distinct: different event trace"),
    "C10": (8000, 200000, "a run interleaves calls with invalid or unsupported arguments and valid calls; distinct: different event trace"),
    "C11": (6000, 150000, "a run mixes modular calls with modulus changes, thread count changes and concurrent sessions with other moduli; distinct: different event trace"),
    "C12": (5000, 150000, "a run is a history executed with preemption at memory accesses and a happens-before check of every instrumented access; distinct: different event trace"),
    "C15": (8000, 200000, "a run is 2-12 histories of generator and tree objects in one or more threads (reads of every size, reseeding, copies, rebuilding a tree from its sibling sums), preempted at memory accesses; distinct: different event trace"),
    "C13": (6000, 150000, "a run contributes the observable messages and single-party outputs of its calls to statistics over the whole batch; distinct: different event trace"),
}
LEVEL = {}
RACE = {"C12", "C15"}
FAULTS = ["fault_stall", "fault_latency", "fault_split_segment", "fault_early_spill", "fault_link_outage",
          "fault_short_recv", "fault_crash", "fault_torn_write", "fault_alloc_fail", "fault_lost_tail", "fault_link_loss", "restart"]
SCHED = ["context_switches", "yield_points", "decisions", "non_default_decisions", "omp_random_chunk",
         "preempt_at_access", "omp_parallel", "omp_barriers", "omp_loop_chunks", "omp_ordered", "guard_waits",
         "mutex_waits", "tasks", "traced_accesses", "race_checks"]
REACH = ["ops", "ops_error_status", "values_checked", "bytes_sent", "messages", "flushes", "ots", "rand_bytes"]
ASSUME = [
    "all sources and templates of distributed_vector_ole are compiled from /repo and run unmodified; the sizes table of the vector OLE is scaled down in most runs of histories that contain vector OLE",
    "stubs: message channel and its emp adapter (simulated network), oblivious transfer (dealer that follows the message pattern of the OT library), OpenMP runtime (simulated threads), libssl RAND_bytes (seeded stream), clocks, allocator",
    "real: NTL, GMP, abseil, Eigen, AES of libcrypto",
    "threads interleave at OpenMP constructs, transport operations, random draws, locks and static initialisation" ,
]


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", tier) if tier not in ("quick", "thorough") else tier
    t0 = time.time()
    quick, thorough, rule = PLAN[prop]
    runs = quick if tier == "quick" else thorough
    runs = int(os.environ.get("SIM_RUNS", runs))
    try:
        exe = build.build("race" if prop in RACE else "plain")
    except build.BuildError as e:
        print("check error: build failed\n%s" % e)
        return 3
    built = time.time() - t0
    cap = float(os.environ.get("SIM_SECONDS", 240 if tier == "quick" else max(60, 700 - built)))
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    out = os.path.join(replays, "summary-%s-%d.json" % (prop, os.getpid()))
    known = os.path.join(VERIF, "known_findings.txt")
    cmd = [exe, "batch", "--property", prop, "--seed", str(seed), "--tier", tier, "--runs", str(runs),
           "--seconds", str(cap), "--out", out, "--replays", replays, "--known", known,
           "--minsec", "40", "--workers", str(os.cpu_count() or 8)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(r.stdout)
    try:
        with open(out) as f:
            s = json.load(f)
        os.unlink(out)
    except (OSError, ValueError) as e:
        print("check error: no summary (%s), exit code %d" % (e, r.returncode))
        return 3
    wall = time.time() - t0
    st = s["stats"]
    hours = max(s["wall"], 1e-3) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": s["runs"],
            "distinct_nontrivial": s["distinct_traces"],
            "rule": rule,
            "samples": s["samples"],
            "runs_planned": s["planned"],
            "runs_executed_twice_with_equal_trace": s["verified_twice"],
            "runs_per_hour": int(s["runs"] / hours),
            "seeds_per_hour": int(s["runs"] / hours),
            "simulated_seconds": s["virtual_ms"] / 1000.0,
            "faults_injected": {k: st[k] for k in FAULTS if k in st},
            "scheduling": {k: st[k] for k in SCHED if k in st},
            "distinct_interleavings": s["distinct_states"],
            "distinct_interleavings_measure": "different hash of the sequence of context switches (which task, at which scheduling point)",
            "reached": {k: st[k] for k in REACH if k in st},
            "probes": {k: v for k, v in st.items() if k.startswith("probe") and v},
            "operations_generated": s["ops"],
            "known_findings_met": s["known"],
            "slowest_run_s": s.get("slowest_s"),
            "components_real": ["distributed_vector_ole (all non-test sources)", "NTL", "GMP", "abseil", "Eigen", "libcrypto AES"],
            "components_stub": ["mpc_utils channel/adapter/status", "emp-ot (dealer)", "libgomp", "RAND_bytes, clocks, entropy", "malloc"],
            "batch_statistics": s.get("describe", ""),
        },
        "assumptions": ASSUME[:-1] + [ASSUME[-1] + ("; in this check also at memory accesses of the instrumented library" if prop in RACE else "")],
        "wall_s": wall,
        "violations": 1 if s["verdict"] == "violation" else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in s["known"]:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if s["verdict"] == "violation":
        print("%s: %s" % (s["class"], s["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, s["replay"]))
        return 1
    if s["verdict"] != "ok":
        print("check error: %s" % s["harness"])
        return 3
    if s["runs"] == 0:
        print("check error: nothing was run")
        return 3
    print("%s held on %d runs (%d distinct), %.0f s" % (prop, s["runs"], s["distinct_traces"], wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
