#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: "
W = {
 "C01": "seeded chunkings, empty reads, data-with-EOF and scratch writes against an independent JSON model, encoding/json and the one-slice decoding of the same bytes",
 "C02": "reader failures injected at seeded byte positions (error, EOF, with data, transient) against a delivery model",
 "C03": "stream sessions with seeded operations and chunkings against a position/conservation model",
 "C04": "writer faults (short, failing, recovering, dead) at seeded byte positions against a prefix/conservation model",
 "C05": "callback errors and panics, unencodable values at seeded positions; the writer history is checked for traces",
 "C06": "statement-level seeded scheduling (random, PCT, sync-point) of concurrent callers; each transcript compared with the call run alone; race detector under the simulated schedules",
 "C07": "seeded histories over a controlled sync.Pool; each transcript compared with a fresh object",
 "C08": "results and inputs retained, buffers poisoned and recycled by a controlled pool, compared at the end of the run",
 "C09": "nested library calls, errors and panics injected in seeded user callbacks, readers and writers",
 "C10": "seeded orders and interleavings of first uses of types; each transcript compared with a fresh config",
 "C11": "garbage collection and stack growth injected at seeded library statements and callbacks with freed memory clobbered",
 "C12": "logical-time step and read budgets, reads after completion, under seeded inputs, chunkings and faults",
 "C13": "encoder and decoder tasks over simulated bounded, fragmenting and breaking pipes; exactly-once in-order oracle",
 "C14": "long simulated streams with injected window sizes; retained memory bounded by the largest value",
}
NOTE = ("Sampled executions of the real library code under a simulator that decides every schedule step, read, write, callback result, pool decision and collection from VERIF_SEED; "
        "a clean run is evidence for the explored executions, not proof. Trusts the harness, the Go 1.23 toolchain and that inserting yield points keeps the semantics of the code.")
NA = {
 "N01": "pure function of the document and the type: no schedule, fault, clock or history in it (the chunked, concurrent and recycled forms of it are C01, C06 and C07)",
 "N02": "pure function of the value: no schedule, fault or history in it (the faulty-writer and recycled forms are C04, C05 and C07)",
 "N03": "pure function of the bytes: grammar acceptance has nothing for a simulator to schedule or fail",
 "N04": "pure function of the type: field and tag resolution happens once per type (its dependence on order and interleaving is C06 and C10)",
 "N05": "pure function of the digits: conversions depend on no schedule or fault (their dependence on the chunking is C01)",
}
m = {
 "version": 1,
 "setup_cmd": "./build.sh race",
 "hooks": {"guard": "none in /repo: go build -overlay with an instrumented copy generated from the working tree (/verif/sim/cmd/instrument)",
           "enable": "/verif/build.sh (run by every check)", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": T + W[p], "level": "exploration", "level_note": NOTE} for p in sorted(W)],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
 "notes": "replay a reported violation with ./replay.sh FILE; known findings are listed in known-findings.txt",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
