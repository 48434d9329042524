#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("property-based testing against exact integers (small-scope rows enumerated, structured random pairs, shrinking)", "Every sum generated equals the exact integer sum, for all seven shipped types, binary and compound; bounded by the generated lengths (to about 4000 digits)."),
 "C02": ("property-based testing against exact integers with borrow-run and near-equal generators", "Every difference generated equals the exact integer difference for all shipped types and sign combinations."),
 "C03": ("property-based testing against exact integers, metamorphic order swap", "Every product generated equals the exact product, across transform sizes and the precision fallback boundary."),
 "C04": ("property-based testing: dividends built as q*b+r, truncated exact quotient as oracle", "Every quotient generated equals the truncated exact quotient; quotient sizes bounded (400 bits quick, 700 thorough) because the algorithm's time grows with their square."),
 "C05": ("property-based testing of all six comparisons against integer comparison, transitivity on triples", "All six comparisons agree with the integers on every pair generated, including differences in one or two digits and zeros of every spelling."),
 "C06": ("property-based testing: canonical-form invariant over operation chains", "Every result of every generated chain is canonical and spelled like the same value from another route."),
 "C07": ("stateful model-based testing: operation histories against exact integers", "Whole histories over a pool of variables, with aliasing, agree with an integer model after every step."),
 "C08": ("differential and metamorphic testing across bases (radix conversion round trips)", "The same computation in different bases gives the same value, and digits convert between bases and back."),
 "C09": ("property-based testing against an extended-real model, histories of non-finite operands", "All descriptor pairs and finite shapes follow the documented extended-real table; unspecified entries are not asserted."),
 "C10": ("metamorphic testing: padding with leading zeros", "Operators, comparisons and output are insensitive to leading zero digits in every generated case."),
 "C11": ("stateful model-based testing of copies, moves, assignments and aliasing", "Value semantics hold on every generated history; operands not assigned to keep every digit."),
 "C12": ("stateful model-based testing of digit editing against a sequence model", "Digits, size and sign agree with a plain sequence after every edit of every generated history."),
 "C13": ("property-based testing of index access and run-time assertions with captured streams", "Every index generated throws exactly when it is out of range; assertions print once and throw exactly for errors."),
 "C14": ("property-based testing of text output against independently written numerals and stream-state snapshots", "Output text and stream state are exact on every generated number and stream configuration."),
 "C15": ("systematic fault injection: every allocation of generated operations fails in turn", "For each generated operation every allocation index fails once (sampled past 40, 200 in thorough); exception, operands, target, leaks and reuse are checked."),
 "C16": ("generated API histories under ASan, UBSan, memcheck and leak accounting, plus coverage-guided fuzzing", "No sanitizer or memcheck report, leak, crash or hang on any generated history or fuzzed input."),
 "C17": ("property-based testing against 128-bit arithmetic (8-bit pairs exhaustive) and generated constant-expression programs", "Every operation in every operand form equals the reduced plain operation, at run time and in constant expressions."),
 "C18": ("round-trip property testing through streams (8- and 16-bit exhaustive)", "All 8- and 16-bit values and all generated wider ones and sequences survive the round trip."),
 "C19": ("property-based testing of the raw routines against exact integers, in release and BN_DEBUG builds", "Raw routines meet their documented contracts on every generated container pair, in both builds."),
 "C20": ("differential testing of the two multiplication algorithms and exact integers", "Both algorithms return in-range digits of the exact product in both operand orders."),
 "C21": ("property-based testing against a direct long double DFT and exact convolution; isPow2/nextPow2 exhaustive to 16 bits", "Transforms stay within an error bound far above rounding and far below any wrong term; convolutions are exact after rounding."),
 "C22": ("generated user-defined types (seeded bases, digit widths, containers) under the shipped types' properties", "Fourteen (thorough: 28) generated types per seed pass the same generated cases as the shipped types."),
 "C23": ("generated concurrent histories under ThreadSanitizer, compared with sequential runs", "No data race reported and no result different from the sequential one on any generated schedule-free workload; schedules themselves are the operating system's."),
 "C24": ("differential testing: generated histories in lockstep on seven builds of the library in varied environments; generated phase programs", "Seven builds (two compilers, five dialects, -O0 to -O3, FMA, x87, BN_DEBUG, auto-initialised variables) agree after every step of every generated history, in varied floating-point, locale, errno and heap environments; phase programs agree in all six phases."),
 "C25": ("property-based testing over generated programs: random files, include orders, dialects and linkage, with computed expected output", "Every generated program compiles, links and prints what it should; every header is compiled as the first include in both compilers."),
 "C26": ("property-based testing: generated histories with injected failures between snapshots of the process state", "No generated call, completed or failed, changes anything looked at but its operands."),
 "C27": ("property-based testing of growth: CPU time and heap bytes of generated operations at two sizes", "No generated operation grows more than 8 times faster than the stated work, or uses or keeps more heap per digit than stated; constant factors are not judged."),
}
checks = []
for c in sorted(T):
    tech, note = T[c]
    checks.append({"property": c, "quick_cmd": "python3 check.py %s" % c, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % c,
        "evidence_file": "evidence/%s.json" % c, "technique": tech, "level": "fault_enumeration" if c == "C15" else "exploration",
        "level_note": note + " Trusts the reference model (boost cpp_int or plain integers), the compilers and the harness."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks compile its headers and sources unchanged. Repairs of genuine defects are the fix: commits in /repo, listed in known-findings.txt. VERIF_SEED decides every random choice."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
