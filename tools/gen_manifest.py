#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the notes below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
HIST = "stateful model-based property testing: generated protocol histories against a reference model, with shrinking"
T = {
 "P01": "property-based testing: generated byte streams against a reference framer",
 "P02": "fuzzing: random, grammar-based and mutated byte streams; differential against a build with checked accesses",
 "P04": "property-based testing: round trip through a run-length decoder and on/off differential over generated histories",
 "P05": "stateful property testing; metamorphic replay of a history with acknowledgements switched off",
 "P17": "stateful model-based property testing; listed <=> accepted probes of every feature",
 "P18": "stateful model-based property testing; metamorphic insertion of unknown requests",
 "P19": "model-based property testing with a reassembling client loop",
 "P27": "fault injection at generated target calls in model-checked histories",
 "P28": "fault injection at generated connection operations, prefix differential",
 "P29": "property-based testing: encode/decode round trips against layout tables",
 "P30": "property-based testing: register blocks and enumerated register numbers against layout tables and descriptions",
 "P31": "property-based testing: algebraic laws over all integer widths; model-based histories for numbers in requests and replies",
 "P32": "differential testing: blocking loop against the state machine over generated scripts",
 "P33": "metamorphic testing: the same history over buffer variants and with logging",
 "P35": "differential testing: dynamically dispatched against direct sessions",
 "P36": "stateful property testing over real loopback sockets against a byte-queue model",
 "P38": "differential property testing: minimal targets against targets that spell the defaults out, over generated histories",
 "P39": "property-based testing against reference tables and a reference capacity rule",
 "P40": "stateful model-based property testing of the no_std, no-alloc build",
 "P41": "differential property testing: trace records against the wire over generated histories",
 "P37": "model-based property testing with a reassembling client loop",
}
BASE = "Sampled, not exhaustive: a fixed number of seeded cases over the real library built with debug assertions and overflow checks. Trusts the reference model and the recording mock target and connection."
N = {
 "P02": "Sampled byte streams over generated configurations; out-of-bounds accesses are seen through rustc's UB checks on unchecked accesses (debug assertions) and a paranoid_unsafe build with identical digests.",
 "P29": "Sampled register values and block lengths of all 13 shipped register files; trusts the hand-written layout tables.",
 "P30": "All register numbers below 2^17 of every architecture are enumerated, larger ones and register values are sampled; trusts the hand-written layout tables and system register encodings.",
 "P36": "Sampled operation sequences on real TCP and Unix sockets of this machine; timing is the kernel's.",
}
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
   "property": p,
   "quick_cmd": f"bash run.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p}",
   "technique": T.get(p, HIST),
   "level": "exploration",
   "level_note": N.get(p, BASE),
 } for p in props],
 "not_applicable": [],
 "notes": "run.sh rebuilds the harness against /repo's working tree. No hooks in /repo are needed: everything is reached through the public API. The thorough tier adds a coverage-guided search (libFuzzer over the choice tapes, tools/fuzz.sh). Replay: bash run.sh --replay <ID> <file>. Known findings: known_findings.txt.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
