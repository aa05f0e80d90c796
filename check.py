#!/usr/bin/env python3
"""Property-based checks for libdvbcsa.

    check.py --property C04            quick or thorough by $VERIF_TIER, seed from $VERIF_SEED
    check.py --replay replays/X.json   run one recorded case against the current /repo
    check.py --build-all               build every configuration once (setup)

Every run compiles /repo's current sources itself, in each build configuration the
property needs, together with the harness in harness/.  Nothing of /repo's own build
output is used and nothing is written to /repo.
"""
import argparse, array, concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
H = os.path.join(V, "harness")
BUILD = os.path.join(V, "build")
REPLAYS = os.path.join(V, "replays")
NCPU = os.cpu_count() or 4
T0 = time.time()

# ------------------------------------------------------------------ build configurations
OPT = ["-O3", "-funroll-loops", "-fomit-frame-pointer", "-fno-tree-vectorize"]
ISA = {"MMX": ["-mmmx"], "SSE": ["-msse", "-msse2"], "SSSE3": ["-mssse3"], "AVX2": ["-mavx2"],
       "UINT64": [], "UINT32": [], "NEON": [], "ALTIVEC": ["-maltivec"]}
HAVE = ["HAVE_ASSERT_H", "HAVE_INTTYPES_H", "HAVE_STDINT_H", "HAVE_STDLIB_H", "HAVE_STRING_H", "HAVE_STRINGS_H",
        "HAVE_MEMORY_H", "HAVE_SYS_TYPES_H", "HAVE_SYS_STAT_H", "HAVE_UNISTD_H", "HAVE_POSIX_MEMALIGN", "STDC_HEADERS"]
SAN = ["-g", "-fno-omit-frame-pointer"]
AVX2_NATIVE = " avx2 " in open("/proc/cpuinfo").read().replace("\n", " ") + " "
A64 = dict(cc="aarch64-linux-gnu-gcc", run=["qemu-aarch64"], mm=False)
PPC64 = dict(cc="powerpc64-linux-gnu-gcc", run=["qemu-ppc64"], be=True)
PPC32 = dict(cc="powerpc-linux-gnu-gcc", run=["qemu-ppc"], be=True, mm=False, long=4)

def _configs():
    c = {}
    def add(name, word, **k):
        d = dict(cc="gcc", alt=False, be=False, mm=True, long=8, opt=OPT, add=[], run=[], san="", memalign=True, count=False,
                 i386=False, gather=False, fuzz=False)
        d.update(k)
        d["word"] = word
        if word == "AVX2" and not AVX2_NATIVE:
            d["run"] = ["qemu-x86_64", "-cpu", "max"]
        c[name] = d
    # the 14 configurations the project's own tests cover
    add("default", "UINT64")
    add("default-altsbox", "UINT64", alt=True)
    add("uint32", "UINT32")
    add("mmx", "MMX")
    add("sse2", "SSE")
    add("sse2-altsbox", "SSE", alt=True)
    add("ssse3", "SSSE3")
    add("avx2", "AVX2")
    add("avx2-altsbox", "AVX2", alt=True)
    add("neon-aarch64", "NEON", **A64)
    add("neon-aarch64-altsbox", "NEON", alt=True, **A64)
    add("uint64-ppc64be", "UINT64", **PPC64)
    add("uint64-ppc64be-altsbox", "UINT64", alt=True, **PPC64)
    add("uint32-ppc64be", "UINT32", **PPC64)
    # remaining option combinations, targets, compilers and optimisation levels
    add("uint32-altsbox", "UINT32", alt=True)
    add("mmx-altsbox", "MMX", alt=True)
    add("ssse3-altsbox", "SSSE3", alt=True)
    add("uint32-ppc32be", "UINT32", **PPC32)
    add("uint64-aarch64", "UINT64", **A64)
    add("altivec-ppc64be", "ALTIVEC", **PPC64)
    add("altivec-ppc64be-altsbox", "ALTIVEC", alt=True, **PPC64)
    add("default-debug", "UINT64", opt=["-g"], add=["-DDVBCSA_DEBUG=1"])
    add("uint32-debug", "UINT32", opt=["-g"], add=["-DDVBCSA_DEBUG=1"])
    add("sse2-O1", "SSE", opt=["-O1"])
    add("avx2-O1", "AVX2", opt=["-O1"])
    add("default-i386path", "UINT64", i386=True)
    for w, n in (("UINT64", "uint64"), ("UINT32", "uint32"), ("MMX", "mmx"), ("SSE", "sse2"), ("SSSE3", "ssse3"), ("AVX2", "avx2")):
        g = w == "AVX2"
        add("clang-" + n, w, cc="clang")
        add(n + "-asan", w, san="address,undefined", gather=g)
        add(n + "-altsbox-asan", w, alt=True, san="address,undefined", gather=g)
        add("clang-" + n + "-asan", w, cc="clang", san="address,undefined", gather=g)
        add(n + "-tsan", w, cc="clang", san="thread")
        add(n + "-altsbox-tsan", w, alt=True, cc="clang", san="thread")
        add(n + "-fuzz", w, cc="clang", san="address,undefined", fuzz=True, opt=["-O2"], gather=g)
        add(n + "-memalign", w, mm=False)
        add(n + "-msan", w, cc="clang", san="memory")
    # work counted: one step per basic block entered
    for n, w, alt in (("default", "UINT64", False), ("uint32", "UINT32", False), ("uint32-altsbox", "UINT32", True), ("mmx", "MMX", False), ("sse2", "SSE", False),
                      ("sse2-altsbox", "SSE", True), ("ssse3", "SSSE3", False), ("avx2", "AVX2", False), ("avx2-altsbox", "AVX2", True)):
        add(n + "-count", w, alt=alt, count=True, opt=["-O1"])
    add("uint64-ppc64be-count", "UINT64", count=True, opt=["-O1"], **PPC64)
    add("neon-aarch64-count", "NEON", count=True, opt=["-O1"], **A64)
    add("clang-mmx-O1", "MMX", cc="clang", opt=["-O1"])
    add("clang-mmx-altsbox", "MMX", alt=True, cc="clang")
    add("clang-avx2-altsbox", "AVX2", alt=True, cc="clang")
    add("uint32-malloc", "UINT32", mm=False, memalign=False)
    add("uint64-malloc", "UINT64", mm=False, memalign=False)
    for n, w, t, alt in (("neon-aarch64", "NEON", A64, False), ("neon-aarch64-altsbox", "NEON", A64, True),
                         ("uint64-ppc64be", "UINT64", PPC64, False), ("uint64-ppc64be-altsbox", "UINT64", PPC64, True),
                         ("uint32-ppc64be", "UINT32", PPC64, False), ("altivec-ppc64be", "ALTIVEC", PPC64, False)):
        add(n + "-ubsan", w, alt=alt, san="undefined", **t)
    add("model", "MODEL")
    return c

CONFIGS = _configs()
OFFICIAL = ["default", "default-altsbox", "uint32", "mmx", "sse2", "sse2-altsbox", "ssse3", "avx2", "avx2-altsbox",
            "neon-aarch64", "neon-aarch64-altsbox", "uint64-ppc64be", "uint64-ppc64be-altsbox", "uint32-ppc64be"]
EXTRA = ["uint32-altsbox", "mmx-altsbox", "ssse3-altsbox", "uint32-ppc32be", "uint64-aarch64", "default-debug",
         "sse2-O1", "default-i386path", "clang-uint64", "clang-mmx", "clang-avx2", "altivec-ppc64be", "altivec-ppc64be-altsbox"]
MORE = EXTRA + ["uint32-debug", "avx2-O1", "clang-uint32", "clang-sse2", "clang-ssse3", "clang-avx2-altsbox",
                "clang-mmx-altsbox", "clang-mmx-O1"]
ASAN = ["uint64-asan", "uint64-altsbox-asan", "uint32-asan", "mmx-asan", "sse2-asan", "sse2-altsbox-asan", "ssse3-asan",
        "avx2-asan", "avx2-altsbox-asan"]
CLANG_ASAN = ["clang-uint64-asan", "clang-uint32-asan", "clang-sse2-asan", "clang-ssse3-asan", "clang-avx2-asan", "clang-mmx-asan"]
UBSAN_X = ["neon-aarch64-ubsan", "neon-aarch64-altsbox-ubsan", "uint64-ppc64be-ubsan", "uint64-ppc64be-altsbox-ubsan",
           "uint32-ppc64be-ubsan", "altivec-ppc64be-ubsan"]
MSAN = [n for n in CONFIGS if n.endswith("-msan")]
COUNT = [n for n in CONFIGS if n.endswith("-count")]
TSAN = ["uint64-tsan", "uint64-altsbox-tsan", "uint32-tsan", "sse2-tsan", "sse2-altsbox-tsan", "ssse3-tsan", "mmx-tsan",
        "avx2-tsan", "avx2-altsbox-tsan"]

WRAPS = ["malloc", "calloc", "realloc", "memalign", "aligned_alloc", "posix_memalign", "free"]

def sources(word):
    """C files of the library for a word size, as the project's own build lists them."""
    t32 = word == "UINT32"
    cond, files = [], []
    try:
        text = open(os.path.join(SRC, "Makefile.am")).read().replace("\\\n", " ")
        for line in text.splitlines():
            m = re.match(r"\s*(if|else|endif)\b\s*(\S*)", line)
            if m:
                if m[1] == "if":
                    name = m[2]
                    val = t32 if name.lstrip("!") == "TRANSPOSE_32" else True
                    cond.append(not val if name.startswith("!") else val)
                elif m[1] == "else":
                    cond[-1] = not cond[-1]
                else:
                    cond.pop()
                continue
            m = re.match(r"\s*libdvbcsa_la_SOURCES\s*\+?=(.*)", line)
            if m and all(cond):
                files += [w for w in m[1].split() if w.endswith(".c")]
    except OSError:
        pass
    files = [f for f in dict.fromkeys(files) if os.path.exists(os.path.join(SRC, f))]
    if not files:
        files = [os.path.basename(f) for f in sorted(glob.glob(SRC + "/*.c"))]
        files = [f for f in files if "transpose_stream" not in f or ("stream32" in f) == t32]
    return files

def config_h(c):
    d = {h: 1 for h in HAVE}
    d["DVBCSA_ENDIAN_BIG" if c["be"] else "DVBCSA_ENDIAN_LITTLE"] = 1
    d["DVBCSA_USE_" + c["word"]] = 1
    if c["alt"]:
        d["DVBCSA_USE_ALT_SBOX"] = 1
    if c["mm"]:
        d["HAVE_MM_MALLOC"] = 1
    if not c["memalign"]:
        del d["HAVE_POSIX_MEMALIGN"]
    if "clang" not in c["cc"]:
        d["HAVE_ATTRIBUTE_MAY_ALIAS"] = 1
    d["SIZEOF_LONG"] = c["long"]
    return "".join("#define %s %s\n" % kv for kv in sorted(d.items()))

def tree_hash():
    h = hashlib.sha256()
    for root in (SRC, H):
        for dp, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if not f.endswith((".c", ".h", ".inc", ".am", ".S", ".s")):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))

def flags(c):
    san = []
    if c["san"]:
        s = c["san"]
        san = SAN + ["-fsanitize=" + s]
        if "undefined" in s:
            san += ["-fno-sanitize-recover=all"]
            if c["run"] and "qemu-x86_64" not in c["run"]:
                san = SAN + ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"]
    return san

class Builder:
    def __init__(self, pool):
        self.pool = pool
        self.dir = os.path.join(BUILD, tree_hash())
        os.makedirs(self.dir, exist_ok=True)
        self.failed = {}

    def objs(self, name):
        c = CONFIGS[name]
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "config.h"), "w") as f:
            f.write(config_h(c))
        jobs, objs = [], []
        cross = bool(c["run"]) and "qemu-x86_64" not in c["run"]
        san = flags(c)
        fz = ["-fsanitize=fuzzer-no-link"] if c["fuzz"] else ["-fsanitize-coverage=trace-pc"] if c["count"] else []
        base = [c["cc"], "-w", "-D_XOPEN_SOURCE=600", "-I" + d, "-I" + SRC]
        if "clang" in c["cc"]:
            base += ["-fno-strict-aliasing"]
        if c["word"] != "MODEL":
            lib = base + c["opt"] + ISA[c["word"]] + c["add"] + san + fz
            if c["gather"]:
                lib += ["-include", os.path.join(H, "checked_gather.h")]
            for f in sources(c["word"]):
                o = os.path.join(d, "lib_" + f[:-2] + ".o")
                src = os.path.join(SRC, f)
                if c["i386"] and f == "dvbcsa_bs_transpose_stream.c":
                    jobs.append(lib + ["-DSOURCE_FILE=\"%s\"" % src, "-c", os.path.join(H, "i386_path.c"), "-o", o])
                else:
                    jobs.append(lib + ["-c", src, "-o", o])
                objs.append(o)
        else:
            o = os.path.join(d, "libref.o")
            jobs.append(base + ["-O2", "-c", os.path.join(H, "libref.c"), "-o", o])
            objs.append(o)
        hs = base + ["-O2", "-g1", "-I" + H] + (["-DFUZZ_TARGET=1"] if c["fuzz"] else []) + (["-DCOUNT_WORK=1"] if c["count"] else [])
        if c["san"] in ("thread", "memory"):
            hs += san
        elif c["fuzz"]:
            hs += ["-fsanitize=address"]
        elif "address" in c["san"]:
            hs += ["-fsanitize=address"]
        for f in ("engine", "common", "props", "interrupt", "refcsa"):
            o = os.path.join(d, f + ".o")
            x = fz if c["fuzz"] and f in ("common", "props") else []
            jobs.append(hs + x + ["-c", os.path.join(H, f + ".c"), "-o", o])
            objs.append(o)
        link = [c["cc"]] + objs + ["-o", os.path.join(d, "harness"), "-lpthread", "-lm"]
        link += ["-Wl,--wrap=" + w for w in WRAPS + (["memcpy", "memmove", "memset", "memcmp"] if c["count"] else [])]
        if cross:
            link += ["-static"]
            if "-fsanitize-undefined-trap-on-error" in san:
                pass
        elif san:
            link += [x for x in san if x.startswith("-fsanitize=")]
        if c["fuzz"]:
            link += ["-fsanitize=fuzzer"]
        return d, jobs, link

    def build(self, names):
        """Build harness binaries; returns {name: path}, failures noted in self.failed."""
        out, plan = {}, []
        for n in names:
            d = os.path.join(self.dir, n)
            if os.path.exists(os.path.join(d, "done")):
                out[n] = os.path.join(d, "harness")
            else:
                plan.append((n,) + self.objs(n))
        futs = {n: [self.pool.submit(run_cc, j) for j in jobs] for n, d, jobs, link in plan}
        links = {}
        for n, d, jobs, link in plan:
            try:
                for f in futs[n]:
                    f.result()
                links[n] = (d, self.pool.submit(run_cc, link))
            except BuildError as e:
                self.failed[n] = str(e)
        for n, (d, f) in links.items():
            try:
                f.result()
                open(os.path.join(d, "done"), "w").close()
                for o in glob.glob(d + "/*.o"):
                    os.unlink(o)
                out[n] = os.path.join(d, "harness")
            except BuildError as e:
                self.failed[n] = str(e)
        return out

# ------------------------------------------------------------------ running
ENV = dict(os.environ)
ENV.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:allow_user_segv_handler=1:detect_stack_use_after_return=0",
            "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=98",
            "MSAN_OPTIONS": "exitcode=96:handle_segv=1:allow_user_segv_handler=1",
            "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:report_signal_unsafe=0", "LC_ALL": "C"})

def cmdline(name, exe):
    c = CONFIGS[name]
    a = list(c["run"]) + [exe, "--config", name]
    if c["run"]:
        a.append("--qemu")
    if c["san"]:
        a.append("--msan" if c["san"] == "memory" else "--san")
    return a

class Shard:
    def __init__(self, prop, config, exe, seed, cases, tlimit, tag, extra=()):
        self.__dict__.update(locals())

def run_shard(sh, work, hang=60, shrink=25):
    base = os.path.join(work, "%s.%s" % (sh.config, sh.tag))
    a = cmdline(sh.config, sh.exe) + ["--prop", sh.prop, "--seed", str(sh.seed), "--cases", str(sh.cases), "--time", str(sh.tlimit),
                                      "--stats", base + ".json", "--hashes", base + ".hashes", "--hang", str(hang), "--shrink", str(shrink)] + list(sh.extra)
    if sh.prop == "C13":
        a += ["--digests", base + ".dig"]
    with open(base + ".log", "wb") as lg:
        try:
            r = subprocess.run(a, stdout=lg, stderr=lg, env=ENV, timeout=sh.tlimit + 400, stdin=subprocess.DEVNULL)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -99
    try:
        st = json.load(open(base + ".json"))
    except Exception:
        st = None
    log = open(base + ".log", errors="replace").read()
    return sh, rc, st, base, log

PROPS = {}
for line in open(os.path.join(V, "properties.jsonl")):
    j = json.loads(line)
    PROPS[j["id"]] = j

# per property: cases per shard for each class, configurations and fuzzing.
#   n: native, q: emulated, s: sanitizer
PLAN = json.load(open(os.path.join(V, "plan.json")))

def klass(name):
    c = CONFIGS[name]
    if c["san"]:
        return "s"
    return "q" if c["run"] else "n"

def expand(names):
    out = []
    for n in names:
        out += {"OFFICIAL": OFFICIAL, "EXTRA": EXTRA, "MORE": MORE, "ASAN": ASAN, "CLANG_ASAN": CLANG_ASAN, "UBSAN_X": UBSAN_X, "TSAN": TSAN, "COUNT": COUNT, "MSAN": MSAN}.get(n, [n])
    return list(dict.fromkeys(out))

def load_known():
    fixed, known = [], []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("fixed:"):
                fixed.append(line)
            elif line.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) config=(\S+) match=/(.*)/ (.*)", line)
                if m:
                    known.append(dict(prop=m[1], config=m[2], match=m[3], text=m[4]))
    return fixed, known

def write_evidence(prop, tier, seed, cov, violations, assumptions):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    tmp = os.path.join(V, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", prop + ".json"))

RULE = {
    "C01": "a case is a control word and 1-4 payloads (kind, length 0..1200, alignment and placement drawn); non-trivial when a payload of 8 or more bytes has a length other than the 184 the tests use",
    "C02": "a case is a control word and 1-4 ciphertexts (kind, length 0..1200, alignment and placement drawn); non-trivial when one of 8 or more bytes has a length other than the 184 the tests use",
    "C03": "a case is a control word, a direction order, a pairing of APIs and a payload or batch; non-trivial when a payload of 8 or more bytes has another length than 184 or the batch is not full",
    "C04": "a case is a control word and 1-2 batches (count, lengths, contents, placement, maxlen drawn); non-trivial when a packet of 16 or more bytes is in a batch that is partial or has unequal lengths",
    "C05": "a case is a control word and 1-2 batches (count, lengths, contents, placement, maxlen drawn); non-trivial when a packet of 16 or more bytes is in a batch that is partial or has unequal lengths",
    "C06": "a case is a batch with lengths up to 184/200/400/4000 and any maxlen multiple of 8; non-trivial when a packet longer than maxlen is cut at 8 bytes or more",
    "C07": "a case is a batch and a second batch holding some of its packets elsewhere or among others; non-trivial when the first batch is not empty",
    "C08": "a case is a payload below 8 bytes, or 8k+r bytes with two residues, processed several ways through one API; non-trivial when not empty",
    "C09": "a case is one call (or a round of key handling) between guard pages and canaries; non-trivial when it processes at least one packet or 8 bytes, or handles keys",
    "C10": "a case is a history of 4..64 steps (alloc, set, encrypt, decrypt, free) over 6 contexts; non-trivial when it re-keys a context and processes data at least 3 times",
    "C11": "a case is one call repeated 2..4 times under different stack/heap contents, placements and preceding calls; non-trivial when it processes 8 bytes or more",
    "C12": "a case is 2..6 threads doing 4..44 operations each on shared and private contexts; every case is non-trivial",
    "C13": "a case is a list of 1..290 packets, control word, direction and maxlen, run in every build; non-trivial when a packet has 8 or more bytes",
    "C14": "a case is a history of 4..28 alloc/set/use/free steps with refused allocations over 10 contexts; every case is non-trivial",
    "C15": "a case is every API call once, entered in one of 128 floating-point modes; every case is non-trivial",
    "C16": "a case is a batch call with a drawn maxlen in a child process; non-trivial when maxlen is invalid",
    "C17": "a case is a ciphertext of 9..184 bytes and an error pattern within one block or in a residue byte; every case is non-trivial",
    "C18": "a case is a payload of 185 bytes up to hundreds of kilobytes; every case is non-trivial. Lengths around and above 2^31 are run with stand-in ciphers (quick) and with the real ones (thorough)",
    "C21": "a case is one call interrupted (or meant to be) at generated points by a handler that makes library calls; non-trivial when at least one nested call ran inside the interrupted one",
    "C22": "a case is a call (or a history of calls) whose steps - basic blocks entered, words moved - are counted against what short calls of the same build cost; non-trivial when it processes 16 bytes or more, sets keys or is a long history",
    "C23": "a case is a call (or a history of calls) on a painted stack whose used depth is measured afterwards; non-trivial when it processes 16 bytes or more or is a history",
    "C19": "a case is a call or history of another property run in a sanitizer build; every case is non-trivial",
    "C20": "a case is a payload and a control word compared with its 64 one-bit neighbours or three related control words; every case is non-trivial",
}

def save_replay(prop, config, choices, message, desc, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1((config + choices + message).encode()).hexdigest()[:10]
    p = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, config, h))
    d = {"property": prop, "config": config, "choices": choices, "message": message, "case": desc,
         "how": "python3 /verif/check.py --replay %s" % p}
    d.update(extra or {})
    with open(p, "w") as f:
        json.dump(d, f, indent=1)
    return p

def san_excerpt(log):
    for pat in (r"(==\d+==ERROR: AddressSanitizer[^\n]*)", r"([^\n]*runtime error:[^\n]*)", r"(WARNING: MemorySanitizer[^\n]*(?:\n[^\n]*){0,3})", r"(WARNING: ThreadSanitizer[^\n]*(?:\n[^\n]*){0,6})"):
        m = re.search(pat, log)
        if m:
            return m[1].strip()
    return ""

def replay_bytes(name, exe, prop, data, work, minimise=0, tag="r"):
    p = os.path.join(work, "replay-%s-%s" % (name, tag))
    with open(p, "wb") as f:
        f.write(data)
    a = cmdline(name, exe) + ["--prop", prop, "--replay", p]
    if minimise:
        a += ["--minimise", "--shrink", str(minimise)]
    r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=600, stdin=subprocess.DEVNULL, errors="replace")
    out = r.stdout
    g = lambda k: (re.search(r"^%s: (.*)$" % k, out, re.M) or [None, ""])[1]
    return r.returncode, g("FAIL"), g("CASE"), g("DIGEST"), g("CHOICES"), r.stderr

class Failure:
    def __init__(self, config, message, choices="", desc="", extra=None):
        self.config, self.message, self.choices, self.desc, self.extra = config, message, choices, desc, extra or {}

def fuzz_job(prop, name, exe, rexe, rname, runs, secs, seed, work):
    """One libFuzzer run; a crash is replayed and shrunk in the plain harness."""
    d = os.path.join(work, "fuzz-%s-%d" % (name, seed))
    corpus = os.path.join(d, "corpus")
    os.makedirs(corpus, exist_ok=True)
    rnd = random.Random(seed)
    for i in range(24):
        n = rnd.choice([16, 40, 100, 200, 400])
        with open(os.path.join(corpus, "s%d" % i), "wb") as f:
            f.write(bytes(rnd.choice([0, 1, 2, 3, rnd.randrange(256)]) if i % 2 else rnd.randrange(256) for _ in range(n)))
    env = dict(ENV)
    env["FUZZ_PROP"] = prop
    a = list(CONFIGS[name]["run"]) + [exe, corpus, "-seed=%d" % (seed % (1 << 31) or 1), "-runs=%d" % runs, "-max_total_time=%d" % secs, "-max_len=700",
                                      "-use_value_profile=1", "-artifact_prefix=" + d + "/", "-timeout=60", "-rss_limit_mb=6000", "-print_final_stats=1", "-verbosity=1"]
    with open(d + ".log", "wb") as lg:
        try:
            subprocess.run(a, stdout=lg, stderr=lg, env=env, timeout=secs + 300, stdin=subprocess.DEVNULL, cwd=d)
        except subprocess.TimeoutExpired:
            pass
    log = open(d + ".log", errors="replace").read()
    m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
    execs = int(m[1]) if m else 0
    m = re.findall(r"cov: (\d+) ft: (\d+)", log)
    cov = m[-1] if m else ("0", "0")
    res = {"config": name, "executions": execs, "edges": int(cov[0]), "features": int(cov[1]), "corpus": len(os.listdir(corpus))}
    fail = None
    arts = [x for x in glob.glob(d + "/*") if re.search(r"/(crash|timeout|leak)-", x)]
    if arts:
        data = open(arts[0], "rb").read()
        m = re.search(r"PROP_FAIL: ([^\n]*)", log)
        msg0 = (m and m[1]) or san_excerpt(log) or "crash under libFuzzer"
        rc, msg, case, dig, ch, err = replay_bytes(rname, rexe, prop, data, work, minimise=20, tag="fz%d" % seed)
        fail = Failure(rname if rc else name, (msg if rc else "") or msg0, ch or data.hex(), case, {"found_by": "libFuzzer (%s)" % name, "sanitizer": san_excerpt(err)})
    return res, fail

def c13_compare(prop, results, exes, work, seed):
    """Digests of the same cases across builds; returns failures and number of comparisons."""
    fails, n = [], 0
    byseed = {}
    for sh, rc, st, base, log in results:
        try:
            byseed.setdefault(sh.seed, {})[sh.config] = open(base + ".dig").read().split()
        except OSError:
            pass
    bad = {}
    for sd, m in sorted(byseed.items()):
        ref = m.get("model")
        if not ref:
            continue
        for cfg, digs in sorted(m.items()):
            if cfg == "model":
                continue
            for i, (a, b) in enumerate(zip(ref, digs)):
                n += 1
                if a != b:
                    bad.setdefault(cfg, (sd, i))
                    break
    for cfg, (sd, i) in list(bad.items())[:4]:
        a = cmdline("model", exes["model"]) + ["--prop", prop, "--seed", str(sd), "--dump-case", str(i), "--cases", str(i + 1)]
        out = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, text=True).stdout
        m = re.search(r"CHOICES: ([0-9a-f]*)", out)
        data = bytes.fromhex(m[1]) if m else b""
        def differs(d):
            return (replay_bytes("model", exes["model"], prop, d, work, tag="m" + cfg)[3]
                    != replay_bytes(cfg, exes[cfg], prop, d, work, tag="c" + cfg)[3])
        t0, cur = time.time(), data
        if differs(cur):
            k = max(1, len(cur) // 2)
            while k and time.time() - t0 < 20:
                j = 0
                while j + k <= len(cur) and time.time() - t0 < 20:
                    cand = cur[:j] + cur[j + k:]
                    if differs(cand):
                        cur = cand
                        continue
                    cand = cur[:j] + bytes(k) + cur[j + k:]
                    if cand != cur and differs(cand):
                        cur = cand
                    j += k
                k //= 2
        case = replay_bytes(cfg, exes[cfg], prop, cur, work, tag="c" + cfg)[2]
        fails.append(Failure(cfg, "build configuration %s gives other bytes than the model and the other builds for the same input" % cfg, cur.hex(), case,
                             {"seed": sd, "case_index": i, "compare_with": "model"}))
    return fails, n, sorted(bad)

def build_failure(item):
    """A configuration whose library sources the compiler rejects (C13), when the compiler itself works."""
    name, text = item
    c = CONFIGS[name]
    m = re.search(r" -c (\S+)", text.split("\n", 1)[0])
    if c["san"] or c["fuzz"] or not m or not m[1].startswith(SRC + "/") or not re.search(r"\berror: ", text):
        return None
    if subprocess.run([c["cc"]] + c["opt"] + ISA[c["word"]] + c["add"] + ["-x", "c", "-", "-c", "-o", "/dev/null"], input="#include <stdlib.h>\nint x;\n",
                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, text=True).returncode:
        return None
    e = re.search(r"[^\n]*\berror: [^\n]*", text)[0]
    return Failure(name, "the configuration does not compile: " + e.strip()[-250:], "", "build of configuration " + name, {"build": name})

def c18_huge(b, pool, work, thorough, tlimit):
    """Lengths around 2^31 and 2^32."""
    d = os.path.join(work, "huge")
    os.makedirs(d, exist_ok=True)
    c = CONFIGS["default"]
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write(config_h(c))
    base = ["gcc", "-w", "-D_XOPEN_SOURCE=600", "-I" + d, "-I" + SRC] + OPT
    res, fails = {}, []
    try:
        objs = []
        for f in sources("UINT64"):
            o = os.path.join(d, f[:-2] + ".o")
            run_cc(base + ["-c", os.path.join(SRC, f), "-o", o])
            objs.append(o)
        run_cc(base + [os.path.join(H, "huge.c")] + objs + ["-o", os.path.join(d, "huge"), "-Wl,--wrap=dvbcsa_block_encrypt",
                                                          "-Wl,--wrap=dvbcsa_block_decrypt", "-Wl,--wrap=dvbcsa_stream_xor"])
    except BuildError as e:
        return {"stand-in run": "not built: " + str(e)[-300:]}, []
    huge = os.path.join(d, "huge")
    G = 1 << 30
    runs = [([str(n)], n) for n in [(1 << 31) - 8, (1 << 31), (1 << 31) + 8, (1 << 31) + 13, (1 << 31) + 16, (1 << 31) + 24, (1 << 32) - 8, (1 << 32) - 1]]
    runs += [([str((1 << k) + x) for k in range(16, 31) for x in (-3, 8, 21)], G)]
    runs += [([f, str((1 << k) + 24 if k < 32 else (1 << 32) - 3)], 1 << k) for k in (32, 31, 30, 29, 28, 27, 26, 25, 24) for f in ("-d", "-e")]
    def job(x):
        a, n = x
        try:
            r = subprocess.run([huge] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tlimit)
            return a, r.returncode, r.stdout.strip()
        except subprocess.TimeoutExpired:
            return a, 0, "no verdict within %d s" % tlimit
    with cf.ThreadPoolExecutor(4) as ex:       # up to 4 x 4 GiB
        for a, rc, out in ex.map(job, runs):
            if a[0][0] == "-":
                res["real stream cipher, %s, %s bytes" % ({"-e": "encrypt", "-d": "decrypt"}[a[0]], a[1])] = {"BUSY": "still working when stopped: did not end early"}.get(out, out)
            else:
                res["%s bytes" % a[0] if len(a) == 1 else "%s .. %s bytes, %d lengths" % (a[0], a[-1], len(a))] = " ".join(sorted(set(out.split("\n")))[:3]) if rc or len(a) == 1 else "OK"
            m = re.search(r"FAIL (\d+) (.*)", out)
            if m and "CALIBRATION" not in out:
                fails.append(Failure("default", "with stand-in ciphers: " + m[2], "", "single payload of %s bytes" % m[1], {"huge": a}))
            elif rc not in (0, 1) and rc != -9:
                fails.append(Failure("default", "processing %s bytes ended with status %d" % (a[-1], rc), "", "single payload of %s bytes" % a[-1], {"huge": a}))
    try:
        run_cc(base + ["-I" + H, os.path.join(H, "huge_real.c"), os.path.join(H, "refcsa.c")] + objs + ["-o", os.path.join(d, "huge_real")])
        jobs = [((1 << k) + x, dec) for k, x in ((16, 3), (17, 65), (18, -8), (20, 5), (22, 1), (24, 9), (25, 21)) for dec in (0, 1)] + [(200001, 0)]
        if thorough:
            jobs += [(n, dec) for n in ((1 << 27) + 11, (1 << 31) + 24, (1 << 32) - 3) for dec in (0, 1)]
        def rjob(x):
            try:
                r = subprocess.run([os.path.join(d, "huge_real"), str(x[0]), str(x[1])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=7200 if thorough else tlimit)
                return x, r.returncode, r.stdout.strip()
            except subprocess.TimeoutExpired:
                return x, 0, "no verdict"
        with cf.ThreadPoolExecutor(4) as ex:
            for (n, dec), rc, out in ex.map(rjob, jobs):
                res["real ciphers, %s first, %d bytes" % ("decrypt" if dec else "encrypt", n)] = out
                if rc == 1 and "FAIL" in out:
                    fails.append(Failure("default", out, "", "single payload of %d bytes" % n, {"huge_real": [n, dec]}))
                elif rc not in (0, 1) and rc != -9:
                    fails.append(Failure("default", "processing %d bytes ended with status %d" % (n, rc), "", "single payload of %d bytes" % n, {"huge_real": [n, dec]}))
    except BuildError as e:
        res["real ciphers"] = "not built: " + str(e)[-300:]
    return res, fails

def check(prop, tier, seed):
    plan = PLAN[prop]
    th = tier == "thorough"
    mult = plan.get("thorough_mult", 15) if th else 1
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    fixed, known = load_known()
    try:
        pool = cf.ThreadPoolExecutor(NCPU)
        b = Builder(pool)
        # oracle self-test: the model must reproduce the published vectors
        st = os.path.join(work, "selftest")
        run_cc(["gcc", "-O1", "-I" + H, os.path.join(H, "selftest.c"), os.path.join(H, "refcsa.c"), "-o", st])
        if subprocess.run([st], stdout=subprocess.DEVNULL).returncode:
            print("ERROR: reference model fails its own test vectors")
            return 2
        confs = expand(plan["configs"] + (plan.get("thorough_configs", []) if th else []))
        fz = plan.get("fuzz", []) if not th else plan.get("fuzz_thorough", plan.get("fuzz", []))
        need = list(confs)
        for f in fz:
            need += [f + "-fuzz", ("clang-" + f + "-asan")]
        need = list(dict.fromkeys(need))
        exes = b.build(need)
        tb = time.time() - T0
        for n, e in b.failed.items():
            print("note: configuration %s does not build here, not checked: %s" % (n, e.strip().splitlines()[-1][:200] if e.strip() else ""))
        confs = [c for c in confs if c in exes]
        if not confs or not any(c in OFFICIAL or CONFIGS[c]["san"] or CONFIGS[c]["count"] for c in confs):
            print("ERROR: no configuration builds\n" + "\n".join(list(b.failed.values())[:1]))
            return 2
        buildfails = [f for f in map(build_failure, b.failed.items()) if f] if prop == "C13" else []
        tlim = plan.get("time", 70) * (12 if th else 1)
        jobs = []
        for ci, cname in enumerate(confs):
            k = klass(cname)
            per = plan["cases"][k]
            per = int(per * plan.get("weight", {}).get(cname, 1)) or 1
            shards = plan.get("shards", {}).get(k, 1)
            if th:
                shards *= plan.get("thorough_shards", 2)
            for i in range(shards):
                sd = (seed * 1000003 + (i if prop == "C13" else ci * 1009 + i) * 7919 + int(prop[1:]) * 104729) & 0x7fffffffffff
                n = max(1, per * mult // (plan.get("thorough_shards", 2) if th else 1))
                jobs.append(Shard(prop, cname, exes[cname], sd, n, tlim, "s%d" % i, ["--thorough"] if th else []))
        # long-running ones first
        order = {"q": 0, "s": 1, "n": 2}
        jobs.sort(key=lambda s: order[klass(s.config)])
        runs = {}
        fails, results, fuzzres, errors = [], [], [], []
        futs = []
        for f in fz:
            if f + "-fuzz" in exes and "clang-%s-asan" % f in exes:
                secs = plan.get("fuzz_secs", 20) * (20 if th else 1)
                nr = plan.get("fuzz_runs", 20000) * (60 if th else 1)
                for i in range(2 if th else 1):
                    futs.append(("fuzz", pool.submit(fuzz_job, prop, f + "-fuzz", exes[f + "-fuzz"], exes["clang-%s-asan" % f], "clang-%s-asan" % f, nr, secs, seed * 31 + i * 7 + 1, work)))
        huge = None
        if prop == "C18":
            huge = pool.submit(c18_huge, b, pool, work, th, 300)
        for sh in jobs:
            futs.append(("shard", pool.submit(run_shard, sh, work)))
        stop = False
        for kind, f in futs:
            if stop and f.cancel():
                continue
            if kind == "fuzz":
                r, fl = f.result()
                fuzzres.append(r)
                if fl:
                    fails.append(fl)
                    stop = True
                continue
            sh, rc, st, base, log = f.result()
            if st is None or rc not in (0, 1):
                errors.append("%s: harness ended with %s: %s" % (sh.config, rc, log[-400:]))
                continue
            if st.get("killed"):
                errors.append("%s: killed (out of memory?)" % sh.config)
                continue
            results.append((sh, rc, st, base, log))
            fl = st.get("failure")
            if fl:
                x = san_excerpt(log)
                msg = fl["message"] if not x else fl["message"] + " | " + x
                if fl["first_message"] != fl["message"]:
                    msg += " (before shrinking: %s)" % fl["first_message"]
                fails.append(Failure(sh.config, msg, fl["choices"], fl["description"],
                                     {"seed": sh.seed, "case_index": fl["case"], "reproduced": "%d of 3" % fl["reproduced"], "choices_before_shrinking": fl["choices0"], "shrink_candidates": fl["shrink_tried"]}))
                stop = True
        compared = 0
        if prop == "C13":
            fl, compared, badc = c13_compare(prop, results, exes, work, seed)
            fails += fl + buildfails
        hugeres = None
        if huge:
            hugeres, fl = huge.result()
            fails += fl
        # evidence
        labels, dist, evals, ops, nontr, wallsum = {}, set(), 0, 0, 0, 0
        perconf, samples = {}, []
        for sh, rc, st, base, log in results:
            evals += st["evaluations"]
            ops += st["ops"]
            nontr += st["nontrivial"]
            for k, v in st["labels"].items():
                labels[k] = labels.get(k, 0) + v
            pc = perconf.setdefault(sh.config, {"cases": 0, "seconds": 0})
            pc["cases"] += st["evaluations"]
            pc["seconds"] = round(pc["seconds"] + st["wall"], 1)
            a = array.array("Q")
            try:
                with open(base + ".hashes", "rb") as f:
                    a.frombytes(f.read())
            except OSError:
                pass
            dist.update(a)
            for s in st["samples"][:1]:
                if len(samples) < 8:
                    samples.append("%s: %s" % (sh.config, s[:900]))
        fuzz_exec = sum(r["executions"] for r in fuzzres)
        cov = {"evaluations": evals + fuzz_exec, "distinct_nontrivial": len(dist), "rule": RULE[prop] + ". Distinct: by the sequence of recorded choices, over all builds (random cases only; fuzzer executions are in evaluations but not counted here)",
               "samples": samples, "nontrivial_evaluations": nontr, "library_calls": ops, "classes": labels, "configurations": perconf,
               "build_seconds": round(tb, 1)}
        if fuzzres:
            cov["libfuzzer"] = fuzzres
        if b.failed:
            cov["not_built"] = sorted(b.failed)
        if prop == "C13":
            cov["digest_comparisons"] = compared
        if hugeres is not None:
            cov["lengths_near_2^31"] = hugeres
        if errors:
            cov["errors"] = errors[:5]
        # known findings
        real = []
        shown = set()
        for fl in fails:
            hit = None
            for kf in known:
                if kf["prop"] == prop and kf["config"] in ("*", fl.config) and re.search(kf["match"], fl.message):
                    hit = kf
            if hit:
                shown.add(hit["text"])
            else:
                real.append(fl)
        for kf in known:
            if kf["prop"] == prop:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf["text"]))
        write_evidence(prop, tier, seed, cov, len(real),
                       ["the reference model agrees with the published test vectors (checked on every run)",
                        "the compilers, qemu user-mode emulators and sanitizer runtimes installed are correct",
                        "documented preconditions: at most batch-size packets, distinct non-overlapping payloads, non-null data"])
        if real:
            paths = []
            for fl in real[:6]:
                p = save_replay(prop, fl.config, fl.choices, fl.message, fl.desc, dict(fl.extra, tier=tier, verif_seed=seed))
                paths.append(p)
                print("failure in configuration %s: %s" % (fl.config, fl.message))
                print("  case: %s" % fl.desc[:600])
                print("  replay: %s" % p)
            print("VIOLATION property=%s replay=%s" % (prop, paths[0]))
            return 1
        if errors:
            print("ERROR: " + "; ".join(errors[:3]))
            return 2
        print("%s %s seed=%d: held on %d cases (%d distinct non-trivial) in %d builds, %d library calls%s, %.0f s" %
              (prop, tier, seed, evals, len(dist), len(perconf), ops, ", %d fuzzer executions" % fuzz_exec if fuzzres else "", time.time() - T0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune()

def prune():
    """Keep the most recent build trees."""
    ds = [d for d in glob.glob(BUILD + "/*") if re.fullmatch(r"[0-9a-f]{20}", os.path.basename(d))]
    ds.sort(key=os.path.getmtime, reverse=True)
    for i, d in enumerate(ds):
        # a recent one may be in use by a check running at the same time
        if i >= 6 or (i >= 2 and time.time() - os.path.getmtime(d) > 1800):
            shutil.rmtree(d, ignore_errors=True)

def replay(path):
    r = json.load(open(path))
    prop, cfg = r["property"], r["config"]
    work = os.path.join(BUILD, "work-replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        pool = cf.ThreadPoolExecutor(NCPU)
        b = Builder(pool)
        if "huge" in r or "huge_real" in r:
            res, fails = c18_huge(b, pool, work, r.get("huge_real", [0])[0] > 1 << 26, 600)
            print(json.dumps(res, indent=1))
            return 1 if fails else 0
        if "build" in r:
            b.build([cfg])
            print(b.failed.get(cfg, "builds now"))
            return 1 if cfg in b.failed else 0
        cfg = cfg if not cfg.endswith("-fuzz") else "clang-%s-asan" % cfg[:-5]
        need = [cfg] + (["model"] if prop == "C13" else [])
        exes = b.build(need)
        if cfg not in exes:
            print(b.failed)
            return 2
        rc = 0
        for i in range(3):
            rc, msg, case, dig, ch, err = replay_bytes(cfg, exes[cfg], prop, bytes.fromhex(r["choices"]), work)
            if rc:
                break
        if prop == "C13" and not rc:
            d2 = replay_bytes("model", exes["model"], prop, bytes.fromhex(r["choices"]), work)[3]
            if d2 != dig:
                rc, msg = 1, "digest %s, the model gives %s" % (dig, d2)
        print("case: " + case)
        if err:
            print(err[:4000])
        print(("STILL FAILS: " + msg) if rc else "passes now")
        return 1 if rc else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        sys.exit(replay(a.replay))
    if a.build_all:
        with cf.ThreadPoolExecutor(NCPU) as pool:
            b = Builder(pool)
            ok = b.build(list(CONFIGS))
        print("built %d configurations in %.0f s; not built: %s" % (len(ok), time.time() - T0, sorted(b.failed) or "none"))
        for n, e in b.failed.items():
            print(n, e[-600:])
        sys.exit(0 if set(OFFICIAL) <= set(ok) else 1)
    try:
        rc = check(a.property, a.tier, seed)
    except BuildError as e:
        print("ERROR: build failed: " + str(e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

if __name__ == "__main__":
    main()
