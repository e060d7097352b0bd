#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "writes to files, stdout, streams and pipes under open, write, flush and close failures, torn writes and allocation failures; stored bytes compared with an independent encoder",
 "C02": "every kind of cut and read failure at seeded positions, through files, stdin, streams and pipes; acceptance compared with an independent parser",
 "C03": "well-formed and arbitrary byte strings delivered in seeded piece sizes and buffer sizes through files, stdin, streams and pipes; hierarchies compared with an independent parser and across deliveries",
 "C04": "histories of writes, overwrites, failed and crashed writes and reads of several files against a register model of each file",
 "C05": "seeded damage to stored bytes, then every operation on whatever is accepted, under AddressSanitizer and a step budget; unlimited recursion on deep nesting is a listed known finding",
 "C06": "allocation failures (single and from a point on) at seeded allocations of every library call; afterwards all hierarchies are compared with the model and used again",
 "C07": "allocation table and stream table of the simulated machine audited after every call and at the end, under faults of all kinds; AddressSanitizer for use after release",
 "C08": "edit histories with failing additions compared member by member, parent by parent and size by size with a model hierarchy and the encoder",
 "C09": "query answers along histories of edits, reads, writes, frees and failed calls compared with model answers; repeats and garbage replicas must agree",
 "C10": "two or three threads on the real code under a seeded scheduler with switch points at every edge and memory access; every operation compared with the same thread run alone",
 "C11": "concurrent readers of one hierarchy under a seeded scheduler; every operation compared with the same thread run alone, and the hierarchy compared bit for bit",
 "C12": "the real iffjoin main() on a simulated disk with missing, damaged and faulty inputs, failing outputs and allocations; output compared with the model concatenation",
 "C13": "the real iffpp main() on a simulated disk with damaged and faulty inputs, failing standard output and allocations; output compared with a model printer",
 "C14": "generated handler programs and registries, handlers failing at seeded points and allocation and I/O faults; protocol monitored call by call, fields and fillers compared with the model",
 "C15": "faulted operations repeated without faults, compared in outcome, result and step count with the fault-free execution of the same plan",
 "C16": "captured diagnostics of every failing and succeeding call under all fault kinds, with replaced and default callbacks; garbage replicas must give identical text",
 "C17": "several chunks and foreign data on one stream, files and pipes, with seeded buffers and pieces; consumed positions and bytes compared with the model",
}
NA = {
 "N01": "agreement of the conformance rules with a prose standard is a function of the hierarchy alone: no schedule, fault, time or I/O can influence it, so simulation with fault injection adds nothing to a plain comparison of rules (what C09 decides is that check answers by libiff's own rules in every situation)",
 "N02": "an algebraic law of a pure function of two hierarchies; it depends on no schedule, fault, time or I/O",
 "N03": "injectivity of a pure printing function; it depends on no schedule, fault, time or I/O",
 "N04": "concerns other hosts and compilers; the simulated machine runs the one host it is compiled for and its byte order is not a source of nondeterminism the simulator can vary",
}
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the seams are compile-time instrumentation and symbol redirection of the objects built from /repo's sources. python3 tools/check.py replay FILE replays a violation."}
for k, v in NOTE.items():
    m["checks"].append({"property": k, "quick_cmd": "python3 tools/check.py %s quick" % k, "thorough_cmd": "python3 tools/check.py %s thorough" % k,
        "evidence_file": "evidence/%s.json" % k, "technique": "deterministic simulation with fault injection (seeded search, reference model, exact replay)", "level": "exploration",
        "level_note": "Seeded exploration, not proof: " + v + ". Trusts the reference model in sim/, the simulated kernel and allocator, glibc stdio, clang and AddressSanitizer."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
