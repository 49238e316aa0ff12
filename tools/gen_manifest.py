#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("fuzzing of every public entry point with random, grammar-built and mutated input under panic, memory and CPU-time monitors", "No crash, hang or runaway allocation on any generated input; debug assertions and overflow checks are on. Trusts the harness's 10 s CPU limit as the meaning of a hang."),
 "C02": ("property-based round-trip and differential test against an independent wire encoder", "Every generated record and list round-trips and matches a reference encoder byte for byte. Known finding: TXT string boundaries."),
 "C03": ("differential fuzzing of the proof parser against an independent strict decoder", "Acceptance and every decoded field agree with the reference on built, mutated and truncated streams; non-canonical type bitmaps are left open."),
 "C04": ("property-based differential test against the documented name rules", "Acceptance, case folding, label counts and suffixes agree with a reference on generated text and wire names."),
 "C05": ("property-based test of order laws and differential test against RFC 4034 canonical order", "Totality, antisymmetry, transitivity, agreement with equality and with the wire order on close sibling records; sorting is permutation-independent."),
 "C06": ("property-based test with an independent JSON parser as oracle", "Every generated record's JSON parses and states kind, owner and data; different records give different JSON."),
 "C07": ("model-based generation of signed name spaces; honest proofs must verify to exactly the signed data", "Honest proofs over generated zone trees, keys, algorithms, wildcards and aliases all verify. Trusts ring's signature primitives used by the generator. Known findings listed."),
 "C08": ("adversarial tampering of honest proofs with the publishing name space as oracle", "No tampering found makes unpublished data verify or splits a set. Assumes the signature schemes are unforgeable."),
 "C09": ("adversarial generation: a key-holding zone signs for look-alike outside names", "No generated signature for a name outside its zone is accepted."),
 "C10": ("fault injection into each link of generated trust chains, and differential test of digest selection", "Every generated broken link is rejected and every intact one accepted, against a reference evaluation of delegations."),
 "C11": ("model-based generation of wildcard answers with forged, misplaced, opt-out and non-covering denials", "A wildcard answer verifies only if a reference finds a verified strict denial by the same zone."),
 "C12": ("property-based test against a reference fold over the signatures used", "Window and TTL equal the reference's over generated timestamps including the rollover boundary."),
 "C13": ("metamorphic permutation test", "Five orders of each generated proof, honest or tampered, give the same outcome. Restricted as the statement says."),
 "C14": ("model-based generation of chains with unsupported algorithms and digests at each link", "Outcome is the reference's: unsupported, or verified where a supported path exists."),
 "C15": ("single-fault injection into signatures of honest proofs", "Every generated single broken signature rejects the whole proof."),
 "C16": ("resource-bound fuzzing with a signature-check counter, an allocation meter and CPU time", "Counters stay within the stated bounds on generated amplification attempts."),
 "C17": ("differential test against a reference resolver over generated record sets and verified proofs", "Results equal the reference's, including loops, length limits and exponential rewriting."),
 "C18": ("stateful model-based test over response histories", "Issued queries, waiting state, limit and result follow the model for every generated history."),
 "C19": ("end-to-end model-based test against a generated resolver and name space", "Every proof built from correct answers verifies and resolves to what is published. Known findings listed."),
 "C20": ("differential fuzzing against an independent message decoder", "Acceptance, contributions, bytes and TTL agree with the reference on built and mutated responses."),
 "C21": ("differential test of the network drivers over loopback against the stepped builder, with fault injection in the byte stream", "Same proof, TTL and queries for generated splits and orders; generated stream faults give an error."),
 "C22": ("stateful model-based test against a byte vector", "Operation sequences around the storage threshold and the maximum length agree with a vector."),
 "C23": ("model-based fuzzing of the running server with generated requests and a loopback resolver", "Replies agree with a reference for generated requests, splits and malformed input, and the server keeps serving."),
 "C24": ("differential test of the exported wrappers against the library and an independent JSON parser", "Same queries, proofs and results for generated interleavings; output always parses."),
 "C25": ("fault-injecting, schedule-varying differential test of the browser script in node against the proof builder and verifier", "Requests, deliveries and results follow the model for every generated set of lookups. The generated WASM glue is represented by a stand-in with the same loading behaviour that calls the native build of the wrappers."),
 "C26": ("metamorphic test: adding unvouched records, and repeating verifications in any history and on other threads", "Outcome, records, window and lifetime are unchanged by every generated addition and history."),
}
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = [l.strip() for l in open(os.path.join(here, "tools/claimed.txt")) if l.strip()]
allp = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "--cfg dnssec_prover_verif", "enable": "RUSTFLAGS='--cfg dnssec_prover_verif' (check.sh sets it for every harness build)", "source_commits": ["1048abb", "9833845"]},
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}", "evidence_file": f"evidence/{p}.json",
             "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in claimed],
 "not_applicable": [{"property": p, "reason": "The check is still being built."} for p in allp if p not in claimed],
 "notes": "Known findings and repairs are in known-findings.txt; DESIGN.md describes oracles, generators and limits.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
