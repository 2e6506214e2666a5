#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TRUST = ' Trusts rustc, the reference model (compared with hashlib and official vectors in every run); inputs outside the enumerated bounds are not covered.'
T = {
 'C01': ('bounded exhaustive enumeration of inputs on the real code against a reference model', 'All entry points, lengths, keys, digest lengths within bounds, in debug-assertion, release and no_std builds.'),
 'C02': ('bounded exhaustive enumeration of parameter values (whole domains, all pairs of classes) on the real code against a reference model', 'Every value of every small parameter domain, all single bits and bit pairs of wide ones, all pairs of class values, setter orders.'),
 'C03': ('explicit-state breadth-first search over the real object\'s concrete states, every chunk length from every reachable state', 'Fixpoint of the reachable states with up to 259 bytes absorbed, every operation checked in every state.'),
 'C04': ('exhaustive enumeration of builder call sequences to depth 3 (4) and complete argument domains', 'All call sequences over a 42-call alphabet including illegal calls.'),
 'C05': ('bounded exhaustive enumeration of inputs on the real code against a reference model', 'As C01, for the eight-leaf tree.'),
 'C06': ('explicit-state breadth-first search over the real object\'s concrete states, plus every two-chunk split', 'Depth 3 over 25 threshold chunk sizes, all two-chunk splits with totals to 2130 bytes.'),
 'C17': ('exhaustive enumeration of operation merges and of all single-preemption schedules at instruction granularity on the real code', 'Every instruction of every operation is a preemption point; the process is forked there and a second thread runs all operations; cold and warm. Shared memory accesses are collected and all schedules of two threads with two (thorough: three) switches at them are run (partial order reduction). Crowds of up to 65537 live instances, twins, instances handed between threads.'),
 'C18': ('explicit-state breadth-first search over the real objects\' concrete states', 'The state spaces of C03 and C06 with count() as the observation, plus eight-way update shapes.'),
 'C07': ('bounded exhaustive enumeration of lane shapes and operation histories on the real code against a reference model', 'Lane lengths, pending bytes, parameter kinds and lane rotations; all operation sequences to the depth bound.'),
 'C08': ('bounded exhaustive enumeration of lane shapes on the real code against a reference model', 'Lane length vectors, parameter kinds per lane, keyed lane subsets.'),
 'C09': ('bounded exhaustive enumeration of inputs and illegal length vectors on the real code against a reference model', 'Block counts, keys, parameters; illegal length combinations must panic.'),
 'C10': ('bounded exhaustive enumeration of compression inputs on every back end against a reference model', 'All single bits of every input word, counts at all bit boundaries, all flag vectors, per lane.'),
 'C11': ('exhaustive enumeration of CPU feature classes x builds, each executing a bounded exhaustive case list with missing instructions trapping', 'cpuid is answered by a handler; every instruction of a missing extension (17 extensions, 13 CPUs) in the program is replaced by a trap; nine more builds (compiler settings, fixed target features) run on the least CPU they are for.'),
 'C12': ('bounded exhaustive enumeration of continuations around counter wraps on the real code, reached with real multi-gigabyte inputs', 'All interfaces across 2^32 bytes per node (2^35 for BLAKE2sp), in std and no_std builds.'),
 'C13': ('bounded exhaustive enumeration of memory placements on the real code between inaccessible and read-only pages, plus an interpreter (Miri) run of a case list', 'Every length and alignment within bounds, flush against guard pages on both sides.'),
 'C14': ('bounded exhaustive enumeration of digest pairs and encodings on the real code', 'All digest lengths, all single-bit and single-byte differences, all slice lengths.'),
 'C15': ('exhaustive enumeration of difference patterns with instruction-level traces of the real comparison', 'The traces of all unequal pairs of a length must be identical, and those of all equal pairs; memcmp is replaced by a plain loop.'),
 'C16': ('bounded exhaustive enumeration of objects and formatting requests on the real code', 'All key lengths and contents classes; the text must not depend on the secret.'),
 'C20': ('bounded exhaustive enumeration of key and message contents with instruction-level execution of the real code, comparing instruction and memory-operand address traces', 'Contents: all single key bits/bytes and message positions of stated strides, constant, repeated and equal-lane patterns, per operation, length and back end. Every trace is made in a fresh fork of the process, so that what is remembered from earlier calls is judged too. Addresses used inside the kernel are not seen.'),
 'C19': ('bounded exhaustive enumeration of cases on other targets (Miri for big-endian, native 32-bit x86), against a reference model', 's390x and powerpc interpreted; i686 native including inputs beyond 4 GiB, and i686 with AVX2 interpreted.'),
}
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in T:
        checks.append({'property': p, 'quick_cmd': 'python3 run.py ' + p, 'thorough_cmd': 'python3 run.py ' + p + ' --thorough',
                       'evidence_file': 'evidence/%s.json' % p, 'technique': 'model checking: ' + T[p][0], 'level': 'model_checking', 'level_note': T[p][1] + TRUST})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. run.py rebuilds from /repo\'s working tree (content-hashed). replays/ holds counterexamples: python3 run.py replay FILE.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
