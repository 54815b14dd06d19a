#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection (seeded schedule and fault search, single process, exact replay)"
N = {
 "C01": ("seeded interleavings at statement granularity with callback faults; differential oracle (each task alone) plus vector-clock race oracle (Go race runtime fed by the simulated primitives)"),
 "C02": ("seeded interleavings of read-only users of one table with writer and callback faults; differential oracle, table-unchanged oracle, race oracle"),
 "C03": ("seeded write faults (error after none, part or all of the bytes, 23 error values, persistent failures) at every write position; oracle: panic carries the error, no further write, accepted bytes are a prefix of the healthy output"),
 "C04": ("seeded interruptions (error, panic, goroutine exit) at callback invocations of renderings; oracle: table, rows and repeated output unchanged"),
 "C05": ("seeded getter faults in histories of rows; reference model of the table compared after every call"),
 "C06": ("seeded operation histories with faults; reference model (running maximum over widths known by construction) compared after every call"),
 "C07": ("seeded simulated network (reorder, duplicate, lose and retransmit, delay, stale) between worker tasks and a merging table; oracle: the single-table result"),
 "C08": ("seeded table histories, configurations, writer faults and concurrent tasks; oracle parses the received bytes back into rows"),
 "C09": ("seeded table histories and configurations biased to group-width boundaries; oracle recomputes padding, fit and fill from widths known by construction"),
 "C10": ("seeded configurations, histories and schedules at the extremes; oracle: bounded steps on the simulator's clock, no panic of the package's own, no deadlock"),
 "C11": ("seeded measuring histories, cache capacities and interleavings; oracle: widths known by construction and a process state with no history"),
 "C12": ("seeded stalls and re-entry inside callbacks; oracle: every other task finishes while the stall lasts, results as without the stall"),
 "C13": ("seeded histories of settings and rebuilds with concurrent readers; oracle: condition without lookup table over all runes, race oracle"),
 "C14": ("seeded histories of calls by a caller that reuses and overwrites its items, rows, lists and width maps, with callback faults and interleavings; differential oracle (the same history by a caller that never does), returned rows compared at every later step, race oracle"),
 "C15": ("seeded soak histories (90 000-160 000 strings, rows, items, lists, writers, tables used once and dropped) with callback faults at drawn rates; oracle: weak references, live heap and live goroutines at two points of the history"),
 "C16": ("seeded orders of turns of 2-12 tasks on shared tables and specifications under a caller's lock (exclusive, or shared for reads) with callback faults; oracle: the same calls made by one task in the order of turns, reference table, race oracle"),
}
NA = {
 "C20": "A pure function from (rune, settings) to 0..2: no schedule, clock, I/O, fault or history enters it, so simulation has nothing to decide; enumerating code points would be plain exhaustive testing. (That the answers do not depend on history or concurrency is claimed as C13 and C11.)",
 "C21": "A pure function of the string: the iterator has no concurrency, time, I/O or failure in it; deciding it is conformance testing against UAX #29 data, not simulation.",
 "C22": "Evaluated once at process start from environment variables and nothing else: no schedule, fault or history; the mode is a configuration the simulator draws for every run instead.",
 "C23": "A pure function of the string (regular expression over its bytes); generating strings would be input fuzzing in simulator vocabulary. (Escape sequences are part of the cells of every simulated table, so C06, C09 and C11 do meet them.)",
}
m = dict(version=1, setup_cmd="./check.sh build",
  checks=[dict(property=k, quick_cmd=f"./check.sh {k} quick", thorough_cmd=f"./check.sh {k} thorough", evidence_file=f"evidence/{k}.json",
    technique=T, level="exploration",
    level_note=v + ". Sampling, not proof: a clean batch says the drawn runs held. Trusted: Go toolchain and standard library (run atomically), the instrumenter, the simulated sync primitives; see DESIGN.md.") for k, v in N.items()],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes="No hooks in /repo: yield points and simulated primitives are put in by /verif/sim/instr on copies of the current source, through go build -overlay, so the shipped code is untouched. ./check.sh replay FILE repeats a reported run exactly.")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
