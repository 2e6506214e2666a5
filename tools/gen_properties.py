#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe or [], "hook_needed": None}})
L, SP, PO, AV, SS = "src/lib.rs", "src/blake2sp.rs", "src/portable.rs", "src/avx2.rs", "src/sse41.rs"

p("C01", "BLAKE2s digests follow RFC 7693",
  "For every message of every length and content, every key of 0 to 32 bytes (whatever its bytes) and every digest length of 1 to 32 bytes, the sequential BLAKE2s hash equals the digest RFC 7693 defines, whether it is computed with the one-shot function or through a parameterised state.",
  ["inputs"], "all messages (length and content), all keys (length and content), all digest lengths",
  "The known-answer vectors sample one byte pattern up to 255 bytes, with no key or one fixed 32-byte key and the full digest length; the other key lengths, digest lengths, message lengths and contents (all-zero keys, exact block multiples with a key, long inputs) are not reached.",
  [L, PO, SS], [("key block fed as a first full block, last block held back until finalize", "State::with_params, State::update, State::finalize in src/lib.rs"), ("initial state from the parameter words", "Params::make_words in src/lib.rs"), ("compression function", "compress in src/portable.rs and src/sse41.rs")],
  [("h, buf, buflen, count", "chaining value, pending block, fill level, byte counter", "State in src/lib.rs")], ["blake2s()", "Params::to_state() .. finalize()"])

p("C02", "Every tree/salt/personalization parameter enters the digest as specified",
  "For every legal combination of digest length, key, salt, personalization, fanout, maximum depth, maximum leaf length, node offset (48 bits), node depth, inner hash length and last-node flag, the digest of a message equals the BLAKE2s specification's digest for that parameter block. In particular every value of each parameter, up to its largest legal one, takes effect in full, shorter salts and personalizations are zero-padded, and a parameter never disturbs another.",
  ["inputs", "configurations"], "all legal values of each of the eleven parameters and their combinations",
  "One test checks one fixed combination; truncation, overlap or sign/shift errors at other values (single bits of the 48-bit offset, 255s, short salts) are invisible to it.",
  [L], [("packing into the eight initial words", "Params::make_words in src/lib.rs"), ("last-node flag into the final compression", "State::finalize in src/lib.rs")],
  [("Params fields", "stored parameter values", "Params in src/lib.rs")], ["Params setters + to_state().update().finalize()"])

p("C03", "Incremental BLAKE2s hashing depends only on the bytes fed in",
  "For every history of update, io::Write, finalize, set_last_node and clone operations on a BLAKE2s state, finalize returns the digest of the concatenation of all bytes absorbed so far under the current last-node flag, however the bytes were split. Finalizing any number of times at any point changes nothing afterwards, a clone and its original evolve independently, and a write reports exactly the number of bytes it absorbed.",
  ["histories", "inputs"], "all operation histories, all ways to split the input, with and without a key",
  "Tests use two splits and byte-at-a-time feeding of four messages; the number of histories is exponential and the state carries leftover bytes, fill level and counters from one call to the next.",
  [L], [("buffer completion that never compresses the potentially last block", "State::compress_buffer_if_possible / fill_buf / update in src/lib.rs"), ("finalize zero-pads the buffer tail and works on a copy of the chaining value", "State::finalize in src/lib.rs"), ("Write impl", "impl std::io::Write for State in src/lib.rs")],
  [("buf/buflen", "pending bytes plus stale tail", "State in src/lib.rs"), ("count", "bytes so far", "State in src/lib.rs"), ("last_node", "flag settable at any time", "State in src/lib.rs")], ["State::finalize", "State::count", "Write::write"])

p("C04", "The parameter builders accept exactly the legal values; the last set wins",
  "Each setter of the BLAKE2s and BLAKE2sp parameter builders panics for every out-of-range value (digest length outside 1..=32, key over 32 bytes, salt or personalization over 8 bytes, zero maximum depth, node offset of 2^48 or more, inner hash length over 32) and accepts every legal one. For every sequence of setter, clone and to_state calls the resulting state hashes according to the most recent value of each parameter only (nothing of an earlier, longer key, salt or personalization remains), a rejected call changes nothing, and states already created are unaffected by later setter calls.",
  ["inputs", "histories"], "all argument values and all sequences of builder calls",
  "Tests try one bad value per setter (not for the node offset) and one overwritten key; values that wrap when narrowed (256, 257, 2^32+1) and other sequences are not tried.",
  [L, SP], [("range assertions before narrowing", "Params setters in src/lib.rs and src/blake2sp.rs"), ("fields are zeroed before copying", "Params::key/salt/personal in src/lib.rs, Params::key in src/blake2sp.rs")],
  [("Params fields", "current parameter values", "Params in src/lib.rs, Params in src/blake2sp.rs")], ["Params setters", "to_state"])

p("C05", "BLAKE2sp digests follow the BLAKE2 specification",
  "For every message of every length, every key of 0 to 32 bytes and every digest length of 1 to 32 bytes, the BLAKE2sp hash equals the specification's 8-way tree hash: message blocks dealt round-robin to eight leaves, each leaf keyed, 32-byte inner digests, last-node flags on the last leaf and on the root, and the root carrying the requested digest length and key length but not the key bytes.",
  ["inputs"], "all messages, all keys, all digest lengths",
  "Official vectors stop at 255 bytes, so no keyed input ever leaves the 1024-byte buffer, and the in-tree reference has no key or digest-length support and only whole-block lengths.",
  [SP, AV, PO], [("leaf/root parameters", "State::with_params in src/blake2sp.rs"), ("8-way leaf compression", "State::compress8 in src/blake2sp.rs"), ("leaf finalization and root assembly", "State::finalize in src/blake2sp.rs")],
  [("leaf0..leaf7, root", "tree node states", "State in src/blake2sp.rs"), ("buf/buflen", "two stripes of pending input", "State in src/blake2sp.rs")], ["blake2sp::blake2sp()", "blake2sp::Params .. finalize()"])

p("C06", "Incremental BLAKE2sp hashing depends only on the bytes fed in",
  "For every history of update, io::Write and finalize operations on a BLAKE2sp state, keyed or not, finalize returns the digest of the concatenation of all bytes absorbed so far, however they were split over calls. Finalizing any number of times at any point changes nothing afterwards, and a write reports exactly the number of bytes it absorbed.",
  ["histories", "inputs"], "all operation histories and splits, in particular around the 448-, 512-, 960- and 1024-byte thresholds of the double-stripe buffer",
  "Tests use whole-block totals in one call or after a single 1-byte prefix; the buffer has several fill/shift/direct branches whose combinations depend on the history.",
  [SP], [("double-stripe buffering with shift-down and direct path", "State::update / fill_buf in src/blake2sp.rs"), ("finalize on cloned leaves", "State::finalize in src/blake2sp.rs"), ("Write impl", "impl std::io::Write for State in src/blake2sp.rs")],
  [("buf/buflen", "up to 1024 pending bytes", "State in src/blake2sp.rs"), ("leaf counts", "bytes per leaf", "State in src/blake2sp.rs")], ["blake2sp::State::finalize", "Write::write"])

p("C07", "update8/finalize8 equal eight independent states",
  "For any eight BLAKE2s states with any parameters, keys, flags and histories, and any eight inputs of any (also different or zero) lengths, updating them in parallel leaves each one exactly as if it alone had been updated with its own input, and the parallel finalization returns for each lane the digest its own sequential finalization would return, leaving the state usable. This holds for every history that mixes parallel and individual operations and every assignment of states to lanes.",
  ["inputs", "histories"], "all lane states x all lane input lengths x all mixed histories",
  "One test rotates eight states over inputs of 10 (one of 5) whole blocks; other combinations of length, pending bytes, counters, digest lengths and last-node flags per lane are not reached.",
  [L, AV, PO], [("per-lane buffer completion then lock-step loop while every lane has more than a block", "update8 in src/lib.rs"), ("per-lane flags and tail zeroing", "finalize8 in src/lib.rs"), ("8-way compression", "compress8 in src/avx2.rs, src/portable.rs")],
  [("eight State values", "lane states", "src/lib.rs")], ["update8", "finalize8", "State::finalize", "State::count"])

p("C08", "hash8 equals eight independent hashes",
  "For any eight unkeyed parameter sets and any eight inputs of any (also different or zero) lengths, the parallel one-shot hash returns in each lane exactly the digest that lane's parameters and input give sequentially. If any of the eight parameter sets is keyed, the call panics rather than return a digest.",
  ["inputs", "configurations"], "all lane parameters x all lane input lengths",
  "Two tests use four blocks per lane, exactly or plus 0..7 bytes; empty lanes, one short lane, lanes ending at a block boundary at different blocks, or keyed lanes are not tried.",
  [L, AV, PO], [("lock-step loop, common finish or split into individual states", "hash8 in src/lib.rs"), ("transposition and vectorized compression", "vectorize_words8, compress8_vectorized in src/avx2.rs, src/portable.rs")],
  [("state_words8, count", "transposed chaining values and common byte count", "hash8 in src/lib.rs")], ["hash8"])

p("C09", "hash4_exact and hash8_exact equal independent hashes",
  "For any parameter set, keyed or not, and any four (respectively eight) inputs of one common non-zero multiple of 64 bytes, the exact-length parallel hashes return in each lane the digest of that lane's input under those parameters. For inputs that are empty, differ in length or are not a multiple of 64 bytes the call panics.",
  ["inputs", "configurations"], "all parameters (key included) x all common lengths x all illegal length combinations",
  "One test each: four blocks per lane, constant content per lane, one unkeyed parameter set, and no illegal lengths (whose rejection is what keeps the unchecked pointer reads in bounds).",
  [L, AV, SS, PO], [("length assertions", "hash4_exact, hash8_exact in src/lib.rs"), ("transposed loops", "hash8_exact in src/avx2.rs, hash4_exact in src/sse41.rs"), ("sequential fallback", "hash4_exact, hash8_exact in src/portable.rs")],
  None, ["hash4_exact", "hash8_exact"])

p("C10", "All compression back ends compute the same function, lane by lane",
  "For every chaining value, message block, 64-bit byte count and last-block/last-node flags, the portable, SSE4.1, 4-way, 8-way and vectorized compression functions produce exactly the BLAKE2s compression result, in every lane independently of what the other lanes hold. A state forced to the portable implementation hashes identically to a default one.",
  ["inputs", "configurations"], "all chaining values, blocks, counts, flags, per lane and across lanes",
  "One test compresses a single fixed block per back end with the same count and flags in all lanes and count < 2^32; the vectorized and 4-way variants are reached only indirectly.",
  [PO, SS, AV, L], [("portable rounds", "compress, compress8, compress8_vectorized in src/portable.rs"), ("SSE4.1 rounds", "compress, compress4_transposed in src/sse41.rs"), ("AVX2 rounds", "compress8, compress8_vectorized, compress8_transposed_all in src/avx2.rs"), ("force_portable", "benchmarks module in src/lib.rs, force_portable in src/blake2sp.rs")],
  None, ["blake2s_simd::benchmarks::*"])

p("C11", "Every CPU and build configuration gives the same digests and runs safely",
  "On every x86 CPU, whichever of SSSE3, SSE4.1, AVX and AVX2 it reports, and with or without the std feature, every public hashing operation returns the same digests and never executes an instruction of an extension that the CPU does not report.",
  ["configurations", "inputs"], "all (downward closed) CPU feature sets x std/no_std builds x all public operations",
  "Tests run on one CPU that has every extension, so the run-time dispatch only ever takes one arm per build; a wrong guard would crash or corrupt only on someone else's machine.",
  [L, AV, SS, PO], [("run-time dispatch", "default_compress_impl in src/lib.rs"), ("target_feature functions", "src/avx2.rs, src/sse41.rs")],
  [("compress_fn / compress8_fn", "implementation chosen when a state is created", "State in src/lib.rs, State in src/blake2sp.rs")], ["every public hashing function"])

p("C12", "Byte counts are full 64-bit counts: inputs beyond 4 GiB hash correctly",
  "For inputs longer than 2^32 bytes, fed at once or in pieces, every hashing interface (incremental, eight-way update and finalize, hash8, hash4_exact, hash8_exact, BLAKE2sp with leaves beyond 4 GiB) returns the specified digest and the reported byte count is exact.",
  ["inputs"], "all input lengths up to 2^64, in particular where the low word of a node's counter wraps",
  "The longest tested input is 1000 bytes (one call) or 75 blocks; the high counter word is zero in every test.",
  [L, AV, SS, PO, SP], [("count split into two words", "compress in src/portable.rs, src/sse41.rs; compress8 and hash8_exact in src/avx2.rs; hash8 in src/lib.rs; hash4_exact in src/sse41.rs")],
  [("count", "64-bit byte counter", "State in src/lib.rs")], ["finalize", "count", "hash8", "hash8_exact", "hash4_exact", "update8"])

p("C13", "Memory accesses stay in bounds at any alignment; inputs are never modified",
  "For every input length and every placement of the inputs and states in memory (any legal alignment, flush against inaccessible pages before or after, read-only, overlapping or identical input slices), every hashing operation reads only the bytes of its inputs, writes only its own states and outputs, and returns the correct digest.",
  ["inputs"], "all input lengths and memory placements, for every operation and back end",
  "Tests hash heap or stack buffers with readable neighbours, so an over-read of up to a page, an aligned load, or a store through an input pointer goes unnoticed.",
  [AV, SS, L, SP], [("unaligned loads from raw pointers", "loadu, load_2x256 in src/avx2.rs; loadu, loadu_4 in src/sse41.rs"), ("unchecked block pointers guarded by assertions", "hash8_exact in src/avx2.rs, hash4_exact in src/sse41.rs, hash4_exact/hash8_exact in src/lib.rs")],
  None, ["all public hashing functions", "blake2s_simd::benchmarks::*"])

p("C14", "Hash values: exact length, lowercase hex, and equality iff the bytes are equal",
  "A hash value exposes exactly the requested number of digest bytes, and its hex string is the lowercase hex encoding of exactly those bytes. Two hash values, or a hash value and a byte slice, compare equal if and only if they have the same length and the same bytes, for every length from 1 to 32 and every position at which they may differ.",
  ["inputs"], "all digest lengths, all digest bytes, all pairs of equal-length and different-length values",
  "Tests only compare hashes that are expected to be equal; no test expects inequality, so an equality that ignores some bytes, or a prefix comparison, passes.",
  [L], [("length-limited view", "Hash::as_bytes in src/lib.rs"), ("hex", "bytes_to_hex in src/lib.rs"), ("equality", "PartialEq impls for Hash in src/lib.rs")],
  [("bytes, len", "digest bytes and public length", "Hash in src/lib.rs")], ["Hash::as_bytes", "AsRef", "to_hex", "==", "Debug"])

p("C15", "Hash equality runs in constant time",
  "Comparing a hash value with another hash value or with a byte slice of the same length executes the same sequence of instructions whatever the bytes are: it does not depend on where, or in how many positions, the two differ.",
  ["inputs"], "all lengths, all positions and numbers of differing bytes",
  "A functional test cannot observe timing or control flow.",
  [L], [("constant_time_eq", "PartialEq impls for Hash in src/lib.rs")], None, ["Hash == Hash", "Hash == [u8]"])

p("C16", "Debug output reveals no secrets",
  "The Debug text (plain or alternate) of a BLAKE2s state, a BLAKE2sp state or a parameter set is the same for any two values that differ only in key bytes or in the contents of the data hashed so far; it depends on lengths and public settings only.",
  ["inputs", "histories"], "all keys and inputs of equal length, all histories",
  "No test looks at Debug output.",
  [L, SP], [("hand-written Debug impls", "impl fmt::Debug for State in src/lib.rs; impl fmt::Debug for Params and State in src/blake2sp.rs")], None, ["format!(\"{:?}\", ..)"])

p("C17", "Independent hash instances never influence each other, also across threads",
  "For every interleaving of operations on distinct hash instances, however many are alive, on one thread or on several, including a thread preempted at any point in the middle of any operation while another thread runs any operations (also the very first use in the process), every operation returns the result it returns when run alone. Parameters, states and hashes can be sent to and shared between threads: an instance whose steps are made by different threads, or that outlives the thread that made it, gives the same results.",
  ["schedules", "histories"], "all preemption points inside each operation, all merges of the operation sequences of several instances, all hand-overs of an instance between threads, any number of live instances, cold and warm start",
  "The tests never run two operations on a preemption boundary deliberately; races on hidden shared state (static scratch space, lazily built tables or dispatch) show only in rare schedules.",
  [L, SP, PO, SS, AV], [("no shared mutable state; run-time feature detection is the only process-wide cache", "default_compress_impl in src/lib.rs; State in src/lib.rs and src/blake2sp.rs")], None, ["every public hashing function"])

p("C18", "count() is the number of message bytes absorbed",
  "For every BLAKE2s and BLAKE2sp state, keyed or not, and after every history of operations (updates of any sizes, writes, finalizations, clones, eight-way updates), count() returns exactly the number of message bytes the caller has fed in so far; in particular the key does not count.",
  ["histories", "configurations"], "all histories, all key lengths",
  "Tests check it after one or two updates of unkeyed states only.",
  [L, SP], [("count bookkeeping", "State::fill_buf, State::update, State::count, update8 in src/lib.rs; State::count in src/blake2sp.rs")],
  [("count", "bytes including the key block", "State in src/lib.rs"), ("leaf counts + buflen", "distributed byte count", "State in src/blake2sp.rs")], ["State::count", "blake2sp::State::count"])

p("C19", "Digests do not depend on endianness or pointer width",
  "On big-endian and little-endian, 32-bit and 64-bit targets, every public hashing operation returns the same digests as the specification, without undefined behaviour.",
  ["configurations", "inputs"], "targets (endianness x pointer width) x all public operations x input shapes",
  "The tests run on 64-bit little-endian x86 only.",
  [L, PO, SP], [("explicit little-endian reads and writes", "Params::make_words, state_words_to_bytes in src/lib.rs; compress in src/portable.rs"), ("usize to u64 counter conversions", "src/lib.rs, src/portable.rs")], None, ["every public hashing function"])

p("C20", "Which instructions run and which memory is touched never depends on key or message bytes",
  "For every hashing operation on BLAKE2s and BLAKE2sp (one-shot, incremental, parallel, keyed or not, with any back end), the sequence of instructions executed and the sequence of memory addresses accessed depend only on lengths, parameters and the placement of the buffers, and never on the bytes of the key or of the message: hashing with a secret key or of a secret message leaks nothing through branches or table lookups.",
  ["inputs", "configurations"], "all keys and messages of equal length and placement, for every operation and back end",
  "Functional tests compare digests; a shortcut for all-zero blocks or equal lanes, or a lookup table indexed by data, gives the same digests and passes.",
  [PO, SS, AV, L, SP], [("compression without data-dependent branches or lookups (the only table index is the public round number)", "round, compress in src/portable.rs; src/sse41.rs; src/avx2.rs"), ("key block handled like any other block", "State::with_params in src/lib.rs and src/blake2sp.rs")], None, ["instruction and memory operand addresses of every public hashing function"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
