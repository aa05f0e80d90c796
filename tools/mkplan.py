#!/usr/bin/env python3
"""Writes plan.json: cases per shard of each build class, sized from measured ms per case."""
import json, os
# ms per case: native, emulated, sanitizer; seconds per shard wanted: native, emulated, sanitizer
M = {
 "C01": (.2, 1, .5), "C02": (.2, 1, .5), "C03": (.8, 3, 1.2), "C04": (1.6, 6.5, 2.8), "C05": (1.6, 6.5, 2.8), "C06": (1.6, 6, 3),
 "C07": (.6, 3.2, 1.3), "C08": (.25, 2.5, 1), "C09": (.5, 2, .8), "C10": (1.2, 2.5, 1.8), "C11": (.4, 4, 1.5), "C12": (3, 20, 7),
 "C13": (.3, 1.8, .8), "C14": (.6, 2.6, 2), "C15": (.25, 2.5, 1.3), "C16": (1, 13, 1.8), "C17": (.25, 2, .7), "C18": (22, 15, 60),
 "C19": (1, 4, 2), "C20": (1.4, 4.7, 5), "C21": (7, 4, 4), "C22": (14, 30, 20), "C23": (3, 8, 8)}
O, E = ["OFFICIAL"], ["EXTRA"]
CFG = {
 "C01": (O + ["uint32-ppc32be", "default-i386path", "uint64-asan", "clang-uint64"], E + ["clang-uint64-asan", "uint64-ppc64be-ubsan"]),
 "C02": (O + ["uint32-ppc32be", "default-i386path", "uint64-asan", "clang-uint64"], E + ["clang-uint64-asan", "uint64-ppc64be-ubsan"]),
 "C03": (O + ["clang-avx2"], E),
 "C04": (O + ["clang-avx2", "uint32-altsbox", "mmx-altsbox", "ssse3-altsbox", "uint32-ppc32be", "avx2-asan"], ["MORE"]),
 "C05": (O + ["clang-avx2", "uint32-altsbox", "mmx-altsbox", "ssse3-altsbox", "uint32-ppc32be", "avx2-asan"], ["MORE"]),
 "C06": (O + ["uint64-asan", "sse2-asan", "avx2-asan", "uint32-asan"], ["MORE", "ASAN"]),
 "C07": (O + ["sse2-asan"], ["MORE", "ASAN"]),
 "C08": (O + ["uint64-asan", "avx2-asan"], ["MORE", "ASAN"]),
 "C09": (O + ["ASAN"], ["MORE", "CLANG_ASAN", "UBSAN_X"]),
 "C10": (O + ["uint64-asan", "avx2-asan", "mmx-asan"], ["MORE", "ASAN"]),
 "C11": (O + ["clang-uint64", "clang-avx2"], ["MORE"]),
 "C12": (O + ["TSAN"], []),
 "C13": (O + E + ["uint32-debug", "avx2-O1", "clang-sse2", "clang-ssse3", "clang-uint32", "clang-avx2-altsbox", "uint64-memalign", "model"], ["MORE"]),
 "C14": (O + ["uint64-asan", "uint32-asan", "mmx-asan", "sse2-asan", "ssse3-asan", "avx2-asan", "uint64-memalign", "sse2-memalign", "avx2-memalign", "uint64-malloc", "uint32-malloc"], ["ASAN", "CLANG_ASAN", "uint32-memalign", "mmx-memalign", "ssse3-memalign"]),
 "C15": (O + ["clang-mmx", "clang-mmx-O1", "clang-mmx-altsbox", "mmx-altsbox", "clang-sse2", "clang-avx2", "default-i386path"], E),
 "C16": (O + ["uint64-asan", "default-debug"], ["ASAN", "MORE"]),
 "C17": (O + ["uint64-asan"], ["MORE"]),
 "C18": (["default", "default-altsbox", "uint32", "avx2", "uint64-ppc64be", "neon-aarch64", "uint64-asan", "clang-uint64"], E),
 "C19": (["ASAN", "CLANG_ASAN", "UBSAN_X", "MSAN"], []),
 "C20": (O + ["uint64-asan"], ["MORE"]),
 "C21": (O + ["clang-mmx", "clang-uint64", "clang-avx2", "uint64-asan"], ["MORE"]),
 "C22": (["COUNT"], []),
 "C23": (O + ["clang-uint64", "clang-avx2", "clang-mmx", "uint32-altsbox", "mmx-altsbox", "ssse3-altsbox"], ["MORE"])}
# seconds per shard
T = {k: (9, 10, 8) for k in M}
T["C04"] = T["C05"] = (12, 13, 9)
T["C09"] = (8, 9, 10)
T["C19"] = (8, 9, 12)
T["C18"] = (14, 12, 12)
T["C12"] = (7, 8, 7)
FUZZ = {"C03": ["uint64"], "C04": ["sse2"], "C05": ["uint64"], "C06": ["uint64"], "C09": ["uint64", "ssse3"], "C10": ["uint64"], "C11": ["uint64"], "C01": ["uint64"], "C02": ["uint64"],
        "C07": ["mmx"], "C08": ["uint64"], "C17": ["uint64"], "C19": ["uint64", "avx2"], "C20": ["uint64"]}
plan = {}
for p, (n, q, s) in M.items():
    w = {}
    if p not in ("C01", "C02", "C18", "C16", "C15", "C14", "C08", "C17", "C23"):
        w = {"avx2": .5, "avx2-altsbox": .5, "clang-avx2": .5, "avx2-asan": .6, "avx2-altsbox-asan": .6, "clang-avx2-asan": .6,
             "neon-aarch64": .9, "neon-aarch64-altsbox": .9}
    if p == "C13":
        w = {}
    tn, tq, ts = T[p]
    plan[p] = {"configs": CFG[p][0], "thorough_configs": CFG[p][1],
               "cases": {"n": int(1000 * tn / n), "q": int(1000 * tq / q), "s": int(1000 * ts / s)},
               "shards": {"n": 1, "q": 1, "s": 1}, "weight": w, "time": 60}
    if p == "C13":
        c = int(1000 * 8 / 1.8)
        plan[p]["cases"] = {"n": c, "q": c, "s": c}
        plan[p]["shards"] = {"n": 2, "q": 2, "s": 2}
    if p in FUZZ:
        plan[p].update(fuzz=FUZZ[p][:1] if p not in ("C09", "C19") else FUZZ[p], fuzz_thorough=["uint64", "sse2", "avx2", "uint32", "ssse3", "mmx"],
                       fuzz_secs=20, fuzz_runs=15000)
json.dump(plan, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "plan.json"), "w"), indent=1)
