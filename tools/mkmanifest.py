#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded runs of a simulated document store (puts, sink failures, retries, crashes, restarts) with read-back against a reference model of the derived types and a reference XML parser",
  "Seeded search over values of the zoo's type shapes and store histories; nothing is exhaustive. Trusts the reference parser and model (cross-checked against each other by 'dst selfcheck')."),
 "C02": ("seeded values, every sink fault position of small writes and sampled positions of large ones: failing call, short write, full medium, panicking sink, transient recovery; prefix and no-write-after-failure checked over the recorded sink history",
  "Fault positions are enumerated per value up to a bound and sampled beyond; values are sampled. Sinks are simulated std::fmt::Write implementations."),
 "C03": ("seeded documents cut at every byte (crash of the writer or the channel), read back typed, captured and node by node, with a step budget after the error",
  "All character positions of each sampled document; documents are sampled. Trusts that the document generator emits well-formed XML (checked by the reference parser)."),
 "C04": ("seeded corruption of documents in transit (loss, duplication, reordering, bit flips, splices, markup soup) read by every consumer and by random reader programs, with panics caught and memory and steps metered",
  "Sampled corruptions; input is a str, as the API takes one. Memory is metered by a counting allocator, stack 4 MiB, CPU by the parent process."),
 "C05": ("seeded hostile senders that place elements exactly at and one beyond each limit, and floods, against captured, pulled, skipped, ignored and typed consumers",
  "Sampled layouts and limits; known finding: with_limits does not govern the root's own start tag."),
 "C06": ("seeded preemptive scheduler running several client threads, one at a time, switched at sink writes, user conversions, node pulls, after any number of basic blocks inside the library and before its accesses to static memory, with nested operations, failures and panics, compared with each operation run alone",
  "Interleavings are sampled; preemption points are compiled into the library and the derived code by LLVM callbacks (dst/hook), not into the standard library and xmlparser; executions are sequentially consistent. Hash seeds are decided by the run."),
 "C07": ("seeded channel that loses, duplicates, reorders, misdelivers and renames fragments of typed documents; outcome compared with a reference reader",
  "Sampled fault sequences; the reference reader leaves outcomes open that the property does not decide (listed in DESIGN.md)."),
 "C08": ("seeded chains of relays that re-encode documents (prefixes, declarations, references, CDATA, comments, spacing), read back and compared with the original",
  "Sampled re-encodings, each checked by the reference parser to mean the same."),
 "C09": ("seeded markup-level damage of documents; the reader must refuse or agree with an independent reference parser",
  "Sampled damage; where XML is silent or the library is documented to differ, the reference leaves the outcome open."),
 "C10": ("seeded abandonment of nested reads (early return, dropped readers, failing conversions) with baited content, compared with the undisturbed read",
  "Sampled abandonment plans and documents; a refusal is always accepted, a wrong value never."),
 "C11": ("seeded programs of writer calls, right and wrong ones, and seeded values of namespaced types, resolved by the reference parser and compared with what the program asked for",
  "Sampled call sequences; raw API usage outside the documented contract is left out (see assumptions)."),
 "C12": ("seeded failure of user conversions at each invocation, on write and on read, in every nesting; the reported error must be the injected one and user code must not run again",
  "Every invocation of each sampled value is failed in turn (up to a bound)."),
 "C15": ("seeded relays that re-encode texts (references, CDATA, comments, spacing), damaged copies before, reused receive buffers with other bytes around the document; the address of every text handed out compared with where the relay put it, and allocation metered for large texts",
  "Sampled documents and encodings. An empty text, and a text that needed decoding, may lie anywhere."),
 "C16": ("seeded senders that repeat any part of a document, damaged or torn around it, and writers of growing values with failing sinks and conversions, on a simulated machine that counts every basic block, byte moved and byte allocated in the library, the tokenizer and the standard library; costs at two sizes a factor of 16 apart, and long message histories compared round by round",
  "Sampled documents at 1-4 KiB and 16-64 KiB. Counters are compiled in (build.sh work); allowed are 1.5 times the proportional work and 2.5 times the proportional memory traffic."),
}
NA = [
 ("C13", "Rejection of derive inputs happens inside rustc while compiling a type definition: no execution, schedule, fault or history exists to simulate; it needs compile-fail enumeration, another technique."),
 ("C14", "Renaming is a pure compile-time function of an identifier, without concurrency, time, I/O or parties; deciding it for every identifier is a proof or enumeration over the macro's code, not a simulation. Only the rules the type zoo uses are exercised by C01/C07."),
]
man = {
 "version": 1,
 "setup_cmd": "bash ./build.sh && bash ./build.sh fine && bash ./build.sh work",
 "checks": [{
   "property": k, "quick_cmd": f"bash ./run.sh {k} quick", "thorough_cmd": f"bash ./run.sh {k} thorough",
   "evidence_file": f"evidence/{k}.json", "technique": T + t, "level": "exploration", "level_note": n,
 } for k, (t, n) in C.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA],
 "notes": "No hooks in /repo: every seam (sink, document source, user conversions, limits, hash seeds, allocator, threads) is reached through public APIs. known-findings.txt lists recorded defects and repairs. ./dst/target/debug/dst replay FILE repeats a violation; ... selftest checks determinism.",
}
json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
