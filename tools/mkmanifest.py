#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
plan = json.load(open(V + "/plan.json"))
ORACLE = {
 "C01": "differential against an independent DVB-CSA model",
 "C02": "differential against an independent DVB-CSA model",
 "C03": "round trips in both orders, within and across the two APIs",
 "C04": "differential: batch against single-packet API and model",
 "C05": "differential: batch against single-packet API and model",
 "C06": "differential with the model of the truncated packet, untouched-tail invariant",
 "C07": "metamorphic: permuted, subset and re-accompanied batches",
 "C08": "metamorphic: two residues, short payload identity",
 "C09": "guard pages and canaries around every buffer, read-only inputs, ASan",
 "C10": "stateful, model-based: histories of alloc/set/use/free against a model state",
 "C11": "metamorphic: repeated calls under different stale stack, heap and neighbours",
 "C12": "generated thread programs against sequential results; ThreadSanitizer",
 "C13": "differential: digests of the same generated inputs across all build configurations and a model",
 "C14": "stateful, with injected allocation failures and a guarding allocator",
 "C15": "generated floating-point environments, invariant after each call",
 "C16": "generated maxlen values in child processes, oracle on exit status and shared memory",
 "C17": "metamorphic: error propagation",
 "C18": "differential on long payloads; generated lengths near 2^31 and 2^32",
 "C19": "generated calls in ASan/UBSan builds with checked gathers",
 "C20": "metamorphic: one-bit neighbours of a control word",
 "C21": "generated interruption points (single-stepped instruction counts, page faults, timers) and nested calls, against the model",
 "C22": "basic blocks entered by generated calls and histories, counted by compiler instrumentation, against the cost of short calls",
 "C23": "high-water mark on a painted stack after each generated call, against fixed room and against short calls of the same build"}
NOTE = ("Random search with an explicit oracle over the listed build configurations; no exhaustiveness. "
        "Trusts compilers, sanitizers, qemu user mode for aarch64/ppc builds and, where used, the model (checked against published vectors on every run).")
checks = []
for p in sorted(ORACLE):
    t = "property-based testing (choice-sequence generators with shrinking); " + ORACLE[p]
    if plan[p].get("fuzz"):
        t += "; libFuzzer over the same generator"
    n = NOTE
    if p == "C18":
        n += " Lengths near 2^31 use stand-in ciphers in the quick tier and the real ones in the thorough tier."
    if p == "C12":
        n += " Schedules are those the kernel produces; ThreadSanitizer reports races that did not need to manifest."
    checks.append(dict(property=p, quick_cmd="python3 check.py --property %s" % p,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py --property %s" % p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="exploration", level_note=n))
json.dump({"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. 'python3 check.py --replay FILE' re-runs a saved failure."}, open(V + "/MANIFEST.json", "w"), indent=1)
