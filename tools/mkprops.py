#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
SINGLE = ["src/dvbcsa_algo.c", "src/dvbcsa_block.c", "src/dvbcsa_stream.c", "src/dvbcsa_key.c"]
BATCH = ["src/dvbcsa_bs_algo.c", "src/dvbcsa_bs_block.c", "src/dvbcsa_bs_stream.c", "src/dvbcsa_bs_stream_kernel.inc",
         "src/dvbcsa_bs_transpose.h", "src/dvbcsa_bs_transpose_block.c", "src/dvbcsa_bs_transpose_stream.c",
         "src/dvbcsa_bs_transpose_stream32.c", "src/dvbcsa_bs_key.c"]
WORDS = ["src/dvbcsa_bs_uint32.h", "src/dvbcsa_bs_uint64.h", "src/dvbcsa_bs_mmx.h", "src/dvbcsa_bs_sse.h",
         "src/dvbcsa_bs_avx2.h", "src/dvbcsa_bs_neon.h", "src/dvbcsa_bs_altivec.h"]
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Single-packet encryption computes DVB-CSA",
  "For every control word and every payload, encrypting the payload with the single-packet API yields exactly the DVB Common Scrambling Algorithm ciphertext of that payload (reverse-chained block cipher over the full 8-byte blocks, then the stream cipher over everything after the first block). The result does not depend on where the buffer lies or how it is aligned.",
  ["inputs", "configurations"], "every 64-bit control word, every payload content, every length from 0 up, every buffer alignment, every build configuration",
  "The tests encrypt nothing but a few fixed 184-byte vectors under two control words; 2^64 keys and all other lengths, contents and alignments are unseen.",
  SINGLE, [("dvbcsa_encrypt", "src/dvbcsa_algo.c"), ("dvbcsa_block_encrypt", "src/dvbcsa_block.c"), ("dvbcsa_stream_xor", "src/dvbcsa_stream.c"), ("dvbcsa_key_schedule_block", "src/dvbcsa_key.c")],
  ["bytes of the payload buffer after dvbcsa_encrypt"])
p("C02", "Single-packet decryption computes DVB-CSA",
  "For every control word and every ciphertext, decrypting with the single-packet API yields exactly the plaintext that the DVB Common Scrambling Algorithm assigns to it. The result does not depend on where the buffer lies or how it is aligned.",
  ["inputs", "configurations"], "every 64-bit control word, every ciphertext, every length from 0 up, every buffer alignment, every build configuration",
  "Only two control words and a few fixed full-size vectors are decrypted by the tests.",
  SINGLE, [("dvbcsa_decrypt", "src/dvbcsa_algo.c"), ("dvbcsa_block_decrypt", "src/dvbcsa_block.c"), ("dvbcsa_stream_xor", "src/dvbcsa_stream.c"), ("dvbcsa_key_schedule_block", "src/dvbcsa_key.c")],
  ["bytes of the payload buffer after dvbcsa_decrypt"])
p("C03", "Encryption and decryption are mutually inverse",
  "With the same control word, decryption undoes encryption and encryption undoes decryption, for both the single-packet and the batch API. It also holds across the two APIs: what one encrypts the other decrypts, in either direction.",
  ["inputs", "configurations"], "every control word, every payload and length, every batch shape and maxlen, every pairing of the two APIs, every build configuration",
  "Round trips are only exercised with full batches of constant-byte 184-byte packets, one control word, and never across the two APIs.",
  SINGLE + BATCH, [("dvbcsa_encrypt / dvbcsa_decrypt", "src/dvbcsa_algo.c"), ("dvbcsa_bs_encrypt / dvbcsa_bs_decrypt", "src/dvbcsa_bs_algo.c")],
  ["payload buffers after each pair of opposite calls"])
p("C04", "Batch encryption equals encrypting each packet alone",
  "For every batch of up to the reported batch size packets, with any mix of lengths not above maxlen, batch encryption leaves in each packet exactly the bytes the single-packet API would produce for it under the same control word. This includes the empty batch, partial batches and batches with packets of length 0 or below 8.",
  ["inputs", "configurations"], "every control word, packet count from 0 to the batch size, per-packet length and content, maxlen a multiple of 8 up to 184 and covering the lengths, every build configuration",
  "Tests use only completely full batches, one control word, maxlen 184 and constant-byte content, so lane mix-ups, partial batches and length-dependent branches are sampled at a handful of points.",
  BATCH + WORDS, [("dvbcsa_bs_encrypt", "src/dvbcsa_bs_algo.c"), ("dvbcsa_bs_block_encrypt_batch", "src/dvbcsa_bs_block.c"), ("dvbcsa_bs_stream_cipher_batch", "src/dvbcsa_bs_stream.c"), ("transposition in/out", "src/dvbcsa_bs_transpose_block.c")],
  ["all packet buffers after dvbcsa_bs_encrypt"])
p("C05", "Batch decryption equals decrypting each packet alone",
  "For every batch of up to the reported batch size packets, with any mix of lengths not above maxlen, batch decryption leaves in each packet exactly the bytes the single-packet API would produce for it under the same control word. This includes the empty batch, partial batches and batches with packets of length 0 or below 8.",
  ["inputs", "configurations"], "every control word, packet count from 0 to the batch size, per-packet length and content, maxlen a multiple of 8 up to 184 and covering the lengths, every build configuration",
  "Tests use only completely full batches, one control word and maxlen 184; lane, count and length interactions are unseen.",
  BATCH + WORDS, [("dvbcsa_bs_decrypt", "src/dvbcsa_bs_algo.c"), ("dvbcsa_bs_block_decrypt_batch", "src/dvbcsa_bs_block.c"), ("dvbcsa_bs_stream_cipher_batch", "src/dvbcsa_bs_stream.c"), ("transposition in/out", "src/dvbcsa_bs_transpose_block.c")],
  ["all packet buffers after dvbcsa_bs_decrypt"])
p("C06", "maxlen bounds what a batch call processes",
  "A batch call with a given maxlen treats each packet as if it were its first min(length, maxlen) bytes, and leaves every later byte of the packet unchanged. This holds for packets of any length, including longer than 184 bytes.",
  ["inputs", "configurations"], "every maxlen that is a multiple of 8 from 0 to 184, every packet length from 0 to far above 184, mixed in one batch, both directions, every build configuration",
  "Every test passes maxlen 184 with packets of at most 184 bytes, so truncation never happens in a test.",
  ["src/dvbcsa_bs_algo.c", "src/dvbcsa_bs_block.c", "src/dvbcsa_bs_stream.c", "src/dvbcsa_bs_transpose_block.c"],
  [("load/store of packet buffers", "src/dvbcsa_bs_algo.c"), ("maxlen loop bounds", "src/dvbcsa_bs_block.c"), ("maxlen loop bounds", "src/dvbcsa_bs_stream.c")],
  ["packet bytes before and after maxlen"])
p("C07", "Packets in a batch do not influence each other",
  "The result for a packet in a batch depends only on the control word, its own bytes, its length and maxlen: not on its position, on how many packets accompany it, or on what they contain or how long they are. Permuting a batch permutes the results.",
  ["inputs", "configurations"], "every packet, every position, every set of neighbours, every count, both directions, every build configuration",
  "Tests compare full batches with one layout; position and neighbour dependence needs comparison between different batches holding the same packet.",
  BATCH + WORDS, [("bit-slice lanes kept separate", "src/dvbcsa_bs_transpose.h"), ("per-packet length handling", "src/dvbcsa_bs_transpose_block.c")],
  ["result bytes of one packet across differently composed batches"])
p("C08", "Short payloads pass through; trailing bytes are stream-only",
  "A payload shorter than 8 bytes is never modified. In a longer payload the bytes after the last full 8-byte block are only XORed with a keystream that does not depend on them, and their presence and content affect no other byte.",
  ["inputs", "configurations"], "every length, residue size 0..7 and residue content, both directions, both APIs, every build configuration",
  "Tests do not compare payloads differing in length or residue; they use a few lengths with constant content.",
  ["src/dvbcsa_algo.c", "src/dvbcsa_stream.c", "src/dvbcsa_bs_algo.c", "src/dvbcsa_bs_block.c", "src/dvbcsa_bs_stream.c", "src/dvbcsa_bs_transpose_block.c"],
  [("len < 8 early return, alen mask", "src/dvbcsa_algo.c"), ("len8", "src/dvbcsa_bs_algo.c"), ("short tail handling", "src/dvbcsa_stream.c")],
  ["payload bytes"])
p("C09", "Memory outside the given buffers is never touched",
  "A call reads and writes only the bytes of the payloads it was given (exactly their stated lengths), reads only the 8 control word bytes and the batch entries up to the terminator, and writes only payloads and, for key setup, the key context. Control word, batch array and a key being used to process data are never modified.",
  ["inputs", "configurations"], "every buffer placement and alignment, every length including above 184, every batch shape, every build configuration",
  "Tests use static arrays with slack around them and no guard pages or sanitizers, so overreads and small overwrites go unnoticed.",
  SINGLE + BATCH, [("exact-length memcpy in/out of a private buffer", "src/dvbcsa_bs_algo.c"), ("byte-exact tails", "src/dvbcsa_stream.c"), ("const-qualified API", "src/dvbcsa/dvbcsa.h")],
  ["guard pages and canaries around payloads, control word, batch array and key context; AddressSanitizer"])
p("C10", "A key context always means the last control word set in it",
  "Whatever the history of allocating, setting, re-setting, using and freeing key contexts of both kinds, processing with a context gives the result of the control word most recently set in that context. Contexts never influence each other, and a re-used or re-allocated context carries nothing over.",
  ["histories", "inputs", "configurations"], "every sequence of alloc / set / encrypt / decrypt / batch encrypt / batch decrypt / free over several live contexts, with related and unrelated control words",
  "Tests set one or two keys once; interleavings and re-keying are never exercised.",
  ["src/dvbcsa_key.c", "src/dvbcsa_bs_key.c", "src/dvbcsa_algo.c", "src/dvbcsa_bs_algo.c"],
  [("dvbcsa_key_set recomputes everything", "src/dvbcsa_key.c"), ("dvbcsa_bs_key_set recomputes everything", "src/dvbcsa_bs_key.c")],
  ["payload bytes after each step of a history"],
  [("dvbcsa_key_s", "per-context key schedule", "src/dvbcsa_pv.h"), ("dvbcsa_bs_key_s", "per-context bit-sliced key", "src/dvbcsa_bs.h")])
p("C11", "Processing is a pure function of key and payload",
  "Repeating a call with the same control word and the same payloads gives the same bytes, whatever calls were made before it and whatever stale data lies on the stack, in freshly allocated key memory or beside the buffers. No call leaves any visible trace other than its documented output.",
  ["histories", "inputs", "configurations"], "every call repeated in different contexts: different stale stack and heap contents, different preceding calls, different placement",
  "The tests run each operation once from a fresh process state, so use of uninitialised or retained data cannot show.",
  SINGLE + BATCH, [("no static mutable state", "src/"), ("unused lanes of the private packet buffer are never stored back", "src/dvbcsa_bs_algo.c")],
  ["payload bytes of repeated calls under varied stack/heap poison and call order; standard output/error"])
p("C12", "The library is safe to use from several threads",
  "Threads that work on their own payloads can encrypt and decrypt concurrently, sharing a key context that nobody is setting, or each setting and using contexts of their own, and every thread gets the result it would get alone. No data race occurs inside the library.",
  ["schedules", "inputs", "configurations"], "every interleaving of calls by several threads on shared read-only contexts and on private contexts",
  "No test creates a thread.",
  SINGLE + BATCH, [("no static mutable state; all scratch data on the stack", "src/dvbcsa_bs_algo.c"), ("constant tables only", "src/dvbcsa_key.c")],
  ["payload bytes per thread; ThreadSanitizer reports"])
p("C13", "All build configurations give identical results",
  "Every word-size, SIMD and S-box option, on little- and big-endian targets, and with any supported compiler and optimisation level, yields byte-identical results for the same control word, payloads, direction and maxlen. Only the batch size differs.",
  ["configurations", "inputs"], "every build configuration x every input of both APIs",
  "Each test binary checks its own configuration against itself on fixed data; one configuration (avx2 with the alternative S-box) even fails its tests today.",
  BATCH + WORDS + SINGLE + ["configure.ac"], [("word abstraction macros", "src/dvbcsa_bs_*.h"), ("endian helpers", "src/dvbcsa_pv.h"), ("configuration-specific S-box code", "src/dvbcsa_bs_block.c")],
  ["digests of results of the same cases across builds, and against an independent model"])
p("C14", "Key contexts are allocated, aligned and released soundly",
  "Allocating a key context either returns a block correctly aligned and large enough for everything the library does with it, or, when memory is exhausted, a null pointer with no other effect. Freeing releases it exactly once, freeing a null pointer is harmless, and no call leaks memory or needs memory it might not get.",
  ["fault_sequences", "histories", "configurations"], "every sequence of alloc/set/use/free with every allocation failing or not, with allocators that give exactly the requested alignment and size and no more",
  "No test injects an allocation failure, and the system allocator over-aligns and rounds up sizes, hiding wrong requests.",
  ["src/dvbcsa_algo.c", "src/dvbcsa_bs_algo.c"], [("dvbcsa_key_alloc/free", "src/dvbcsa_algo.c"), ("dvbcsa_bs_key_alloc/free", "src/dvbcsa_bs_algo.c")],
  ["allocator calls and their failures, guard pages around key memory, balance of allocations"])
p("C15", "The caller's floating-point state survives every call",
  "Every call preserves the caller's floating-point environment: control words, rounding mode, and a usable (empty) x87 register stack on x86. The library's results do not depend on that environment.",
  ["inputs", "configurations"], "every rounding/exception/denormal mode on entry, every API call, every build configuration including MMX",
  "Tests never use floating point around library calls.",
  ["src/dvbcsa_bs_algo.c", "src/dvbcsa_bs_mmx.h", "src/dvbcsa_bs.h"], [("BS_EMPTY after batch processing", "src/dvbcsa_bs_algo.c")],
  ["x87 tag and control words, MXCSR, fegetround before and after each call"])
p("C16", "An invalid maxlen is refused before any data is touched",
  "A batch call whose maxlen is not a multiple of 8 or exceeds 184 is refused, by stopping the program through an assertion, before any packet byte has been changed. A valid maxlen is never refused.",
  ["inputs", "configurations"], "every maxlen from 0 to the largest unsigned value, both directions, any batch",
  "All tests pass maxlen 184.",
  ["src/dvbcsa_bs_algo.c"], [("assert on maxlen", "src/dvbcsa_bs_algo.c")], ["termination of the calling process and the packet bytes at that point"])
p("C17", "A ciphertext error damages only a bounded part of the plaintext",
  "Changing ciphertext bytes within one full block other than the first changes the decrypted plaintext only in that block and, by the same bytewise difference, in the block before it; changing a trailing residue byte changes only that byte by the same difference. The same holds for each packet of a batch.",
  ["inputs", "configurations"], "every control word, ciphertext, length, error position and error pattern, both APIs, every build configuration",
  "Tests never decrypt a damaged ciphertext.",
  ["src/dvbcsa_algo.c", "src/dvbcsa_block.c", "src/dvbcsa_stream.c", "src/dvbcsa_bs_block.c", "src/dvbcsa_bs_stream.c"],
  [("chaining of one block into its predecessor only", "src/dvbcsa_algo.c"), ("chaining in the batch transpose-out", "src/dvbcsa_bs_transpose_block.c")],
  ["XOR difference of two decryptions"])
p("C18", "Payload length is unlimited in the single-packet API",
  "The single-packet API processes payloads of any length an unsigned int can express exactly like short ones: the same algorithm over the whole payload, and decryption inverts encryption. There is no length at which it stops, wraps or skips.",
  ["inputs"], "every length up to 2^32-1",
  "No test uses more than 184 bytes.",
  ["src/dvbcsa_algo.c", "src/dvbcsa_stream.c"], [("length arithmetic of the chaining loops", "src/dvbcsa_algo.c"), ("length arithmetic of the stream loop", "src/dvbcsa_stream.c")],
  ["payload bytes of long buffers against the independent model"])
p("C19", "No call has undefined behaviour",
  "Within the documented contract no call executes undefined behaviour: no signed overflow, invalid shift, out-of-bounds table index or table read (vector gathers included), misaligned access or null dereference. Results are therefore the same at every optimisation level.",
  ["inputs", "configurations"], "every input of every API function, every build configuration",
  "Tests run plain optimised builds where undefined behaviour usually goes unnoticed.",
  SINGLE + BATCH + WORDS, [("fixed-size tables and masked indices", "src/dvbcsa_stream.c, src/dvbcsa_block.c, src/dvbcsa_bs_avx2.h"), ("type-punning helpers", "src/dvbcsa_pv.h")],
  ["UndefinedBehaviorSanitizer, AddressSanitizer and a bounds-checked gather, plus results compared with the model"])
p("C20", "All 64 control word bits are significant",
  "Every one of the 64 bits of a control word takes part in the cipher: two control words differing in any bits, checksum bytes included, give different ciphertexts and different decryptions of the same payload of two or more blocks. No control word is normalised, rejected or treated specially.",
  ["inputs", "configurations"], "every control word and every difference between control words, both APIs and directions, every build configuration",
  "Tests use two control words in all.",
  ["src/dvbcsa_key.c", "src/dvbcsa_bs_key.c", "src/dvbcsa_stream.c"], [("key schedule permutation", "src/dvbcsa_key.c"), ("stream register initialisation from the control word", "src/dvbcsa_stream.c, src/dvbcsa_bs_stream.c")],
  ["payload bytes under related control words"])
p("C21", "Calls may be interrupted, nested and abandoned",
  "A library call suspended at any instruction by a signal handler that itself makes library calls on its own payloads, using the same key context if nobody is setting it or setting and using others, gives exactly the result it would give alone, and so do the nested calls. A call abandoned midway by a long jump affects nothing but the payloads or key context it was given: key contexts it only used and all later calls work as before.",
  ["schedules", "histories", "configurations"], "every call of both APIs x every instruction at which it is interrupted x every sequence of nested calls x resumed or abandoned",
  "No test interrupts a call.",
  SINGLE + BATCH, [("no static or thread-local mutable state; all scratch data on the stack", "src/dvbcsa_bs_algo.c"), ("key contexts are const while processing", "src/dvbcsa/dvbcsa.h")],
  ["payload bytes of the interrupted, nested and later calls"])
p("C22", "The work of a call stays proportional to its data",
  "Every call returns, after work that grows no faster than linearly with the payload length (single-packet API) or with maxlen (batch API, whatever the packets' lengths beyond maxlen), and that is constant for key handling. No control word, content or mix of lengths makes a call several times more expensive than others of its size, and the cost of a call does not grow with the number of calls made or contexts set before it.",
  ["inputs", "histories", "configurations"], "every control word, payload content and length, every batch shape and maxlen, every number of earlier calls, every build configuration",
  "No test looks at cost; at the sizes and call counts the tests use a quadratic or growing cost is invisible.",
  SINGLE + BATCH, [("one pass of each cipher over the payload", "src/dvbcsa_algo.c"), ("batch loops bounded by maxlen and n_packets", "src/dvbcsa_bs_block.c, src/dvbcsa_bs_stream.c, src/dvbcsa_bs_transpose_block.c")],
  ["number of basic blocks executed and words moved inside a call"])
p("C23", "The stack a call needs is small and does not grow with its data",
  "Single-packet, key and batch-key calls need at most 16 KiB of stack, and batch calls at most twice the room of a full batch of 184-byte packets plus 64 KiB. What a call needs does not grow with the length or content of payloads, the control word, or the number of earlier calls, so that calls can be made from threads and signal handlers with a small stack.",
  ["inputs", "histories", "configurations"], "every control word, payload length and content, every batch shape and maxlen, every number of earlier calls, every build configuration",
  "Tests run on the ordinary 8 MiB stack with payloads of 184 bytes.",
  SINGLE + BATCH, [("in-place processing without buffers", "src/dvbcsa_algo.c"), ("one packet buffer of fixed size on the stack", "src/dvbcsa_bs_algo.c, src/dvbcsa_bs.h")],
  ["stack bytes overwritten by a call"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
