#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
M = "runtime monitoring: "
C = {
"F01": ("reference-model monitor over generated histories", "exploration",
  "Every search of generated sequential histories (operation mixes, aliased names, all value sizes, compactions, two store implementations) is compared with a map-of-sets model. Sampled histories only; trusts the model and the monitored store."),
"F02": ("round-trip monitor over boundary and hostile byte strings", "exploration",
  "All lengths around block and line boundaries are driven systematically, contents and combinations are sampled; each value must come back byte for byte, also after deletions and compactions."),
"F03": ("trace monitor comparing reported sets with the store's own events", "exploration",
  "Reported sets are compared with the tokens really created, in generated sequential histories and in controlled interleavings of concurrent clients. Sampled schedules."),
"F04": ("offline linearizability checking of recorded concurrent histories", "exploration",
  "Histories are recorded at the client boundary under a controlled scheduler of database calls (systematic for two small clients, random and priority-based for more) and with real threads; each (keyword, value) register is checked. Assumes atomic store operations and no concurrent compaction."),
"F05": ("round-counting monitor and reference reachability on generated graphs", "exploration",
  "Random and structured graphs (cycles, chains up to tens of thousands of nodes, stars, dangling pointers), results against BFS, rounds bounded by the distance, a crash by stack overflow is caught by the supervisor."),
"F06": ("online monitor of callback arguments and following database calls", "exploration",
  "Each round's argument is compared with the reference frontier; every stop and failure point of each sampled search is tried."),
"F07": ("before/after differential monitor of searches around compactions", "exploration",
  "All keywords are searched before and after each compaction of sampled states; batch boundaries are reached with the small-batch hook as well as with the real batch size."),
"F08": ("conservation monitor on stored lines against an independent decoder", "exploration",
  "After each operation of sampled histories the number of lines of both tables is compared with a model and each line is attributed to a keyword by decoding the store independently."),
"F09": ("monitor comparing stored tokens and ciphertexts before and after", "exploration",
  "Token and ciphertext bytes before and after each compaction of sampled states are intersected. Compared with the table immediately preceding each compaction."),
"F10": ("fault and crash injection at every backend call, recovery oracle", "fault_enumeration",
  "For each sampled index state and compaction every backend call is failed before effect, failed after effect and crashed on; all contents are then searched under both keys. States sampled, fault points enumerated; single faults plus failing clean-ups where the statement requires it."),
"F11": ("fault and crash injection at every backend call of updates", "fault_enumeration",
  "Each backend call of each sampled addition or deletion is failed before/after effect or crashed on, alone and with a concurrent client; then reads, retries, updates and a compaction are checked against the model."),
"F12": ("error injection at every backend call and callback", "fault_enumeration",
  "An error is injected at each call of each sampled operation; success must imply that no call failed, messages must come through, and success must be visible to a fresh client."),
"F13": ("taint-style byte scanning of everything handed to the store", "exploration",
  "All bytes sent are scanned for windows of every known secret (names, data, keys, seeds recovered by decoding, digests), for repeated nonces/ciphertexts/tokens and tested for statistical bias. Sampled; detects fragments of at least the window length."),
"F14": ("differential monitor over near-miss keys, labels and keywords", "exploration",
  "All single-bit variants of the key, near variants of labels and keywords, boundary shifts, and interleaved independent users on shared tables."),
"F15": ("paired-execution monitor on request shapes", "exploration",
  "Twin executions differing in secret contents only are run and the shapes of all requests compared; search requests are checked to be reads."),
"F16": ("corruption injection into stored values", "fault_enumeration",
  "Bit flips (every bit of some values, sampled elsewhere), truncated contents and exchanged chain values; operations reading them must fail without panic or writes and the others must work. Swaps of entry values and missing lines are outside the statement."),
"F17": ("reference-model monitor and concurrent torn-read detection on the real store", "exploration",
  "Sequences of store calls against a truth-table model; real threads with linearizability and snapshot monitors for concurrency."),
"F18": ("round-trip and hostile-input monitor with an allocation watch", "exploration",
  "Round-trips of sampled contents, every truncation, bit flips and arbitrary bytes; panics, aborts and allocations above a bound are violations."),
"F19": ("differential monitor against an independent implementation of the format", "exploration",
  "Stores written by the library are fully decoded by an independent implementation after each operation, and stores written by that implementation are searched, updated and compacted by the library. The shipped index is read in full."),
"F20": ("ThreadSanitizer, Miri, deadlock watchdog and panic monitor on shared indexes", "exploration",
  "The shared-index workload (add, delete, search, compact, failing and panicking callbacks) runs under ThreadSanitizer with real threads, under Miri (store with 16 schedules, a small index with 8) and natively with monitors of panics, results and progress. Sampled schedules."),
"F21": ("trace monitor on database calls under a controlled scheduler", "exploration",
  "Successful upserts per keyword, chain insertions, retried tokens and system-wide progress are checked in recorded traces of systematic and random interleavings."),
"F22": ("round-trip and malformed-input monitor on public conversions", "exploration",
  "Every public conversion on boundary and random values and malformed bytes; Display output of labels/keywords/data is only checked not to panic."),
"F23": ("monitor counting compacted chains per compaction", "exploration",
  "Chains compacted are counted from the trace for all index sizes of a range and rates 1/n over n runs; the residual probability bound is derived from the documented formula with a wide margin; false-alarm probability below 1e-9."),
"F24": ("heap watch inspecting freed and live memory for key bytes", "exploration",
  "The harness allocator looks at the freed memory holding known seeds and keys and scans live memory after drops, for all ways to create and use them. Copies left by moves on the stack are outside this check."),
"F25": ("monitor comparing filter arguments with decoded compacted chains", "exploration",
  "Arguments of the filter are compared with the model for the chains the trace shows as compacted; what stays is compared for sampled filters including drop-all and inventing ones."),
"F26": ("store snapshot comparison around refused compactions", "exploration",
  "All listed reasons for a refusal are driven on sampled states, including shared tables and colliding entries, and complete store snapshots are compared."),
"F27": ("repetition, uniformity and system-entropy monitor on random material", "exploration",
  "All keys, chain seeds and nonces drawn by many objects, threads and restarted processes are collected: none may repeat, key bytes are tested for uniformity, and the system calls of a fresh process show how much entropy a key costs. Statistical: a subtly weak generator with full-period output passes."),
"F28": ("trace monitor of searches interleaved with a compaction", "exploration",
  "A compaction is interleaved at backend calls with searching clients (controlled schedules and threads); each round's view of each keyword must be whole or empty. Sampled schedules; assumes atomic backend calls and no concurrent update."),
"F29": ("subscriber-based taint scan of logs, errors and panics", "exploration",
  "Every record, error and panic message of sampled histories, faults and refusals is searched for 8-byte windows of all key material in raw, hexadecimal, base64 and list-of-numbers notations. Other encodings would be missed."),
"F30": ("cost monitors (allocator, thread clock, request counters) over sizes", "exploration",
  "The same operation is measured on n and 8n items, beside a small and a large index and on short and long chains; compactions by small batches (hook) on indexes of two sizes. Costs are compared within factors (12 for 8 times more items, 24 for the noisy processor time): a superlinear step is only seen when it dominates at the sizes run."),
"F31": ("model and usage monitors on the dictionary interface", "exploration",
  "Sampled histories of direct calls on both tables with eight value lengths against an independent implementation and a model; the index runs over a Chain Table of the harness that checks how its keys, seeds, tokens and values are used, with a failure injected at one of its calls. Another Entry Table cannot be written outside the crate (its dump trait is private)."),
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
assert props == sorted(C), (props, sorted(C))
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "hooks": {"guard": "findex_verif", "enable": "RUSTFLAGS=\"--cfg findex_verif\" cargo build (see check.sh, second build of the harness)",
           "source_commits": ["c32cd3b"]},
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
             "evidence_file": f"evidence/{p}.json", "technique": M + C[p][0], "level": C[p][1], "level_note": C[p][2]} for p in props],
 "not_applicable": [],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
