#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TRUST = (" Trusted: the simulator (sequentially consistent interleavings of the instrumented C++ code of /repo; no weak-memory effects), the Python "
         "reference model, CPython and libstdc++. Sampled, not exhaustive: a pass means no violation in the runs the evidence counts.")
CHECKS = {
    "C01": ("seeded schedules against a reference model of the generalized Wick theorem",
            "Random operator products of bounded size (up to 8-12 second-quantized operators, three kinds of spaces, cumulant limits, rank windows) under "
            "hundreds of seeded schedules; every result is compared with an independent model that enumerates contractions by definition."),
    "C02": ("seeded schedules and settings histories, results compared across settings",
            "Random queries run under random sequences of settings (threads on/off, canonicalization on/off, print levels) and schedules; equality or equality in value demanded."),
    "C03": ("seeded schedules with a happens-before race and lifetime detector on every memory access",
            "Every access of the instrumented extension is checked with vector clocks along each simulated schedule; reports data races and use after free."),
    "C04": ("seeded allocation and thread-launch failures at swept points under seeded schedules",
            "Every n-th allocation and thread launch of small contractions is failed (swept) and random combinations of larger ones; result must be exact or an exception, with no leak and a clean repeat."),
    "C05": ("seeded histories on a reused engine with faults, compared with a fresh engine",
            "Random histories of contractions, settings, failures and space changes; each result compared with a fresh engine's under the same settings and spaces."),
    "C06": ("seeded schedules under simulated clocks with jumps and stalls",
            "Simulated clocks with arbitrary forward and backward wall-clock steps; the timers are checked against the simulated elapsed time after each call."),
    "C07": ("seeded histories of definitions with allocation failures, against a reference table",
            "Random valid and invalid definitions, resets and allocation failures; the whole observable table compared with the model after each step."),
    "C08": ("seeded in-place operation programs with allocation failures, against a term-sum model",
            "Random in-place programs (aliasing, iteration while changing) with failures at seeded allocations; value before or after demanded from an independent sum of terms."),
    "C09": ("seeded programs with allocation failures, operands observed before and after",
            "About 70 API calls on generated values with a failure at seeded allocations; operands unchanged, no leak, exact result on repetition."),
    "C10": ("seeded schedules of client threads, outcomes checked for serializability",
            "Programs of 2-3 Python threads on shared and private objects under the simulated scheduler and GIL; the outcome has to equal that of some one-at-a-time order (all orders are run)."),
    "C11": ("seeded output-stream failures at every write under seeded schedules",
            "Failures (full disk, closed descriptor, broken pipe, short writes) of the diagnostic stream at seeded writes for every print level and schedule; results equal those without output."),
    "C12": ("seeded histories in which objects outlive their orbital spaces",
            "Random objects used after resets and redefinitions; any crash, hang, sanitizer-level lifetime error or change of other objects is a violation."),
    "C13": ("seeded histories and failures, results compared with a fresh process",
            "Each call is run in a fresh process and after seeded histories of other calls, failures and space changes; the answers must agree."),
    "C14": ("seeded schedules with stalled threads and failed launches, bounded-step liveness",
            "Threads stalled up to several times the length of the run; deadlock, too many steps or work going on after the return are violations."),
    "C15": ("seeded process environments (memory contents and placement, clocks, processors, schedules, locale), values compared",
            "Random programs of calls over the whole API run in seeded environments; every value is compared with that of a plain process."),
    "C16": ("seeded repetition of programs with failures under changing schedules, resources in use read after each repetition",
            "Programs of calls with seeded failures are repeated 7 to 40 times; growth of blocks, bytes, threads or descriptors with every repetition is a violation."),
    "C17": ("seeded calls with extreme and malformed arguments under failures, memory monitor, outcomes compared with a fresh process",
            "Calls with extreme arguments (sizes up to hundreds of legs, indices or spaces) with seeded failures and signals; a crash, a hang, an access outside live memory, a result "
            "other than a fresh process's, or damage to other objects is a violation."),
}
NA = {
    "C20": "pure single-threaded function of its argument: no schedule, clock, I/O or fault can change the outcome, so simulation adds nothing to plain input generation (its atomicity under failure is C08, its history independence C13)",
    "C21": "pure function of its operand; the algebraic identity depends on the input alone (its behaviour under failures and histories is C09, C13)",
    "C22": "pure arithmetic on values; no nondeterminism it could depend on",
    "C23": "pure round trip of two functions; only its dependence on histories and faults is addressable, and that is C09, C12 and C13",
    "C24": "pure function of an expression; only failure and history behaviour is addressable (C09, C13)",
    "C25": "a statement about the meaning of generated text for every tensor assignment: no concurrency, time, I/O or fault is involved (failures and histories: C09, C13)",
    "C26": "algebraic identities of pure functions (failures and histories: C09, C13)",
    "C27": "algebraic identity of pure functions (failures and histories: C09, C13)",
    "C28": "pure enumeration determined by its arguments (failures and histories: C09, C13)",
}


def level(path):
    with open(path) as f:
        return re.search(r'^LEVEL = "(\w+)"', f.read(), re.M).group(1)


def main():
    props = os.path.join(VERIF, "sim", "props")
    checks = []
    for c, (t, n) in CHECKS.items():
        if not os.path.exists(os.path.join(props, c.lower() + ".py")):
            continue
        checks.append({"property": c, "quick_cmd": "python3 sim/check.py " + c, "thorough_cmd": "VERIF_TIER=thorough python3 sim/check.py " + c,
                       "evidence_file": "evidence/%s.json" % c, "technique": T + t, "level": level(os.path.join(props, c.lower() + ".py")), "level_note": n + TRUST})
    m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks,
         "not_applicable": [{"property": c, "reason": r} for c, r in NA.items()],
         "notes": "No hooks in /repo: the seam is a preloaded library and compiler instrumentation of /repo's sources, built by sim/build.py outside /repo. "
                  "Replay a violation with: python3 sim/check.py replay FILE"}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
