#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"]
NOTE = {
 "C01": "Seeded search over interleavings of four (or fewer) threads on the quarters of one matrix, at basic-block and memory-access granularity, with threads killed or stalled in mid-operation; every access of the library to the matrix is checked against the ownership of the cell, every value against a model.",
 "C02": "Concurrent and re-entrant readers of one matrix or expression over every storage kind and layout; results compared bit for bit with the same read performed alone, storage compared with its former contents.",
 "C03": "Expressions over simulator-owned storage that other threads keep changing: the read log of each evaluation must explain its result, with injected read failures and allocation accounting.",
 "C04": "In-place updates stopped by callback panics, generator panics and thread death at every instant reached by the search; storage compared with the model at each context switch, at the stop and after the resumption.",
 "C05": "Word-for-word replay of the caller's generator against rand_distr as reference, over layouts, containers, shared generators, failing generators and failing simulated entropy.",
 "C06": "Every allocation of an operation failed in turn (chosen by the seed), and threads competing for a limited simulated heap; conservation, unchanged operands and identical results after retry.",
 "C07": "Misuse calls interleaved with valid ones by other threads, in builds with and without overflow checks, over a shadowed heap with guard zones.",
 "C08": "Concurrent products into disjoint blocks of one matrix, exact integer arithmetic as oracle, every surrounding cell guarded, with kill, stall and allocation failure.",
 "C09": "Views of views ended by drop, leak, panic or thread death at arbitrary instants; storage compared with the model at every end.",
 "C10": "Histories of creation, hand-over, evaluation, drop and panic over a simulated heap that detects double release, use after release and leaks.",
 "C11": "The same operation's own-step count alone and in contention with threads that are killed or stalled in mid-operation; a blocked or spinning thread is a violation.",
}
COMMON = (" Assumes sequentially consistent executions, interleaved at basic blocks and memory accesses of the compiled library; "
          "the SIMD kernels of matrixmultiply run unpreempted in the rel build. Sampling, not proof.")
NA = {
 "C21": "A pure function of layout, dimension and index: no schedule, fault or history enters it, so simulation would only be input generation in disguise. (The claimed checks use the conversions as part of their models.)",
 "C22": "A pure function of the operand values; no schedule or fault enters it.",
 "C23": "A numerical error bound of a pure function (and mainly of the matrixmultiply crate); no schedule or fault enters it.",
 "C24": "A pure function of the requested shape; the one environmental influence, a failing allocation, is C06.",
 "C25": "Decided by the compiler before any execution exists; nothing can be simulated.",
 "C26": "A statistical property of rand_distr's sampler over a fair generator; no schedule or fault enters it. (That fills hand on the sampler's deviates unaltered is C05.)",
}
m = {
 "version": 1,
 "setup_cmd": "sim/build.sh both",
 "checks": [{
   "property": p,
   "quick_cmd": "python3 check.py %s --tier quick" % p,
   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": "deterministic simulation with fault injection: seeded search over schedules and faults",
   "level": "exploration",
   "level_note": NOTE[p] + COMMON} for p in CLAIMED],
 "not_applicable": [{"property": p, "reason": "Check under construction."} for p in NOTE if p not in CLAIMED] +
                   [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: scheduling points are added by the compiler (sanitizer coverage through a rustc wrapper), storage, generators and callbacks enter through householder's public traits, heap and entropy through the process's allocator and getrandom.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
