#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V, S, R, Q, H, W, B = ("src/validation.rs", "src/ser.rs", "src/rr.rs", "src/query.rs", "src/http.rs",
                    "wasmpack/src/lib.rs", "src/base32.rs")
ANCH = "cfg(dnssec_prover_verif): a per-thread list of extra root trust anchors, so that generated signed trees can be verified from the root"

p("C01", "Hostile input never crashes or hangs the library",
  "Whatever bytes are given as a proof, as a resolver response or as a domain name, every public parsing, verifying, "
  "resolving, ordering, JSON-encoding, serializing and proof-building call returns a value or an error. It never panics, "
  "overflows, indexes out of range, exhausts the stack or loops forever.",
  ["inputs", "histories"],
  "all byte strings (random, grammar-built, and mutated valid messages) through every public entry point, and all response histories of a proof builder",
  "The tests parse a handful of well-formed captures; no test feeds malformed bytes to any parser, and the bundled fuzz targets are not run (one does not compile).",
  [S, R, Q, V, B],
  [("bounds-checked cursor reads", "src/ser.rs read_u8/read_u16/read_u32/read_u8_len_prefixed_bytes"),
   ("compression recursion limit and name-length cut-off", "src/ser.rs do_read_wire_packet_labels"),
   ("type bitmap reader", "src/ser.rs read_nsec_types_bitmap"),
   ("response reader", "src/query.rs handle_response"),
   ("RSA key splitting, NSEC3 owner decoding", "src/validation.rs bytes_to_rsa_pk, verify_rr_stream; src/base32.rs")],
  hook=ANCH)

p("C02", "Records survive serialization unchanged",
  "Writing any well-formed record and parsing the bytes back yields an equal record, and a concatenation of written records parses "
  "to the same records in the same order. The bytes written are exactly the standard uncompressed wire form (owner in lower case, type, "
  "class IN, the given TTL, a data length equal to the data written, the data), and a set of record types built from a list contains exactly the listed types.",
  ["inputs"],
  "all well-formed records of the twelve supported types, all TTLs, all type lists, and all lists of records",
  "Tests write and re-read a few dozen real-world records, which never hit empty or chunk-boundary TXT data, high type windows, empty digests or long names.",
  [S, R],
  [("record writer", "src/ser.rs write_rr, write_name, name_len"), ("per-type data encoders", "src/rr.rs write_u16_len_prefixed_data"),
   ("type bitmap codec", "src/ser.rs write_nsec_types_bitmap, nsec_types_bitmap_len, read_nsec_types_bitmap"),
   ("type set", "src/rr.rs NSecTypeMask::from_types, contains_type")])

p("C03", "Proof parsing is strict and faithful",
  "A byte string parses as a proof exactly when it is a sequence of complete, well-formed, class-IN, uncompressed records of the supported types, "
  "and then every decoded field is the one the bytes state. Anything truncated, overlong, with leftover or missing record data, with a bad name, an "
  "unsupported type or another class is an error for the whole proof, never a silently altered or shortened list.",
  ["inputs"],
  "all byte strings: valid streams, every truncation, and structured corruptions of every length, type, class, name and bitmap field",
  "The only parse tests are on valid captures; nothing checks that malformed streams are rejected or that each field is decoded independently of the encoder.",
  [S, R],
  [("stream loop", "src/ser.rs parse_rr_stream, parse_wire_packet_rr"), ("per-type data decoders", "src/rr.rs read_from_data"),
   ("name reader", "src/ser.rs read_wire_packet_name")])

p("C04", "Domain names are validated and canonical",
  "Text is accepted as a domain name exactly when it ends with a dot, is at most 255 characters of printable ASCII without quotes, and consists of non-empty labels of "
  "at most 63 characters (or is the root). Names are case-insensitive and kept in lower case; the label count is the number of labels, and taking the last n labels gives the "
  "valid name made of exactly those labels, for every n up to the count and nothing beyond it.",
  ["inputs"],
  "all strings, in particular those at the length limits, with empty labels, with non-ASCII or control characters, and all names read from wire form",
  "No test constructs an invalid name or exercises the label helpers directly; the few names used are ordinary host names.",
  [R, S],
  [("text constructor", "src/rr.rs TryFrom<String>/TryFrom<&str> for Name"), ("label helpers", "src/rr.rs Name::labels, trailing_n_labels"),
   ("wire constructor", "src/ser.rs read_wire_packet_name")])

p("C05", "Record ordering is total and canonical",
  "Comparison of records is a total order consistent with equality, and sorting gives the same result from any starting order. Records with the same owner and type are ordered "
  "as DNSSEC canonical form requires, by their encoded data as unsigned bytes, so any signed multi-record set is hashed in the right order.",
  ["inputs"],
  "all pairs, triples and lists of well-formed records, especially same-owner records whose data differ in length, in the 255-byte chunking or in embedded names",
  "One test sorts four fixed TXT records; other types with several records at one name and the ordering laws are never exercised.",
  [R, V],
  [("hand-written TXT comparison", "src/rr.rs impl PartialOrd for Txt"), ("derived orders on the record structs", "src/rr.rs"),
   ("sort before hashing", "src/validation.rs verify_rrsig")])

p("C06", "JSON output is valid and states the record",
  "The JSON form of every record is a syntactically valid JSON object whose fields give that record's kind, owner and data exactly, for every record content. No record content can "
  "break out of a string, alter another field or make two different records indistinguishable.",
  ["inputs"],
  "all well-formed records, including TXT data with quotes, backslashes, control characters and invalid UTF-8, and names with every permitted character",
  "No test calls the JSON encoders at all.",
  [R, W], [("per-type JSON writers", "src/rr.rs json, NSecTypeMask::write_json")])

p("C07", "Every honestly signed proof verifies, with exactly its data",
  "A proof holding a complete, correctly signed chain from a trusted root (delegations, keys, data records, and the non-existence records that wildcard answers need), signed with supported "
  "algorithms, verifies. The verified records are exactly the signed data records in the proof, each once, without keys, signatures, delegations or non-existence records.",
  ["inputs", "configurations"],
  "all signed zone trees over the supported algorithms, digests, key layouts, record types, set sizes, wildcards and NSEC/NSEC3 modes, and all honest proofs over them",
  "Tests use one real chain per feature, with captured signatures; they cannot vary algorithms, key roles, set sizes, tree depth or wildcard positions.",
  [V, S, R],
  [("zone walk", "src/validation.rs verify_rr_stream"), ("signature check", "src/validation.rs verify_rrsig"), ("key trust", "src/validation.rs verify_dnskeys"),
   ("hashing", "src/crypto/hash.rs"), ("canonical form", "src/ser.rs write_name; src/rr.rs")], hook=ANCH)

p("C08", "Only authentic data is ever verified",
  "If a proof verifies, every record reported as verified is one that its zone really signed: altering, adding, dropping or substituting any record, field or signature of a genuine proof never makes a "
  "record appear that the legitimate owner of its name did not publish. Sets of records are reported whole or not at all.",
  ["inputs"],
  "all recombinations of genuinely signed material, all field- and bit-level alterations of it, and all additions by an attacker who holds no zone key",
  "Tests contain almost no negative cases (only a wildcard override and the wrong NSEC); every forged proof a test did not think of is unexamined.",
  [V, S, R],
  [("signed-data reconstruction", "src/validation.rs verify_rrsig"), ("signature/record-set pairing", "src/validation.rs verify_rr_stream")], hook=ANCH)

p("C09", "A zone can only vouch for names inside itself",
  "The holder of one zone's keys cannot make a record verify whose owner name is not equal to, or label-wise below, that zone, however similar the names look. "
  "A proof in which a reached zone signs for a name outside itself is rejected.",
  ["inputs"],
  "all trees in which one zone is malicious and signs arbitrary records with arbitrary owner names, including sibling names that merely end with the same characters",
  "No test has a dishonest zone; every signature in the tests is for a name properly below its signer.",
  [V], [("owner-below-signer check", "src/validation.rs verify_rr_stream"), ("zone matching of keys and delegations", "src/validation.rs verify_rr_stream, verify_dnskeys")], hook=ANCH)

p("C10", "Trust follows an unbroken chain from the root anchors",
  "A zone's keys are used only if a delegation record signed by an already trusted ancestor zone (or a built-in IANA root anchor) matches one of them by name, tag, algorithm and digest and that key signs the zone's key set. Keys without the zone flag or with the wrong "
  "protocol number are never used, and SHA-1 delegation digests are ignored when a stronger one is present.",
  ["inputs", "configurations"],
  "all key sets and delegation sets (flags, protocols, algorithms, tags incl. collisions, digest types, missing or wrong links) at every level of the tree",
  "Tests only contain intact chains with exactly matching delegation records; the rejecting branches are never taken.",
  [V, R], [("anchors", "src/validation.rs root_hints"), ("delegation digest matching", "src/validation.rs verify_dnskeys"), ("key usability filter", "src/validation.rs verify_rrsig"),
   ("key tag", "src/rr.rs DnsKey::key_tag")], hook=ANCH)

p("C11", "Wildcard answers require proof that nothing closer exists",
  "A record expanded from a wildcard verifies only if the proof also contains a verified NSEC or NSEC3 record of the same zone that denies the next closer name. Records that are forged, unsigned, from another zone, opt-out, of an unknown or over-iterated hash, or that do not strictly cover that "
  "name are not accepted as such a denial, so no wildcard can override a name that exists.",
  ["inputs", "configurations"],
  "all zones with wildcards, siblings, empty non-terminals, child delegations and any NSEC or NSEC3 parameters, all query names, and all choices of denial records from anywhere in the tree",
  "Tests check fourteen fixed names against two captured NSEC records and one NSEC3 set; range ends, empty non-terminals, other zones' records and opt-out are untested.",
  [V, B, R], [("search for denial records", "src/validation.rs verify_rr_stream proof_search_loop"), ("canonical name order", "src/validation.rs nsec_ord"),
   ("owner hash decoding", "src/base32.rs"), ("next-closer name", "src/rr.rs trailing_n_labels")], hook=ANCH)

p("C12", "Validity window and TTL are the tightest of all signatures",
  "A verified result is valid from the latest inception to the earliest expiration, and cacheable for the smallest original TTL, over every signature it relied on. An empty window is an error, and timestamps are read "
  "with the documented rollover rule (values before 1997 lie past 2106).",
  ["inputs"],
  "all assignments of inception, expiration and TTL to the signatures of a chain, including rollover values and equal bounds",
  "One test asserts the window of one real chain; which signature is extreme and the rollover arithmetic are never varied.",
  [V], [("window folding", "src/validation.rs verify_rr_stream"), ("rollover rule", "src/validation.rs resolve_time")], hook=ANCH)

p("C13", "Record order in a proof does not matter",
  "Permuting the records of a proof in which each record set carries one signature changes neither whether it verifies nor which records, validity window and TTL result.",
  ["inputs", "schedules"],
  "all permutations of proofs, honest and dishonest, in which each record set carries one signature, keys of a zone have distinct tags, and at most two NSEC3 parameter sets occur",
  "Tests shuffle a few proofs once per run; a rejected proof is never re-tried in another order.",
  [V], [("pending delegation stack", "src/validation.rs verify_rr_stream"), ("sort before hashing", "src/validation.rs verify_rrsig")], hook=ANCH)

p("C14", "Unsupported cryptography is never treated as verified",
  "Records that only carry signatures, keys or delegation digests of unsupported algorithms are never reported as verified. A proof whose delegation or key chain depends on them is reported as using an unsupported algorithm when that is the only obstacle, while data signed with an unsupported algorithm, alone or "
  "next to a supported signature, does not keep other correctly signed data from verifying. Conversely, where the delegations and keys of all zones involved are supported, no alteration of a proof makes it be reported as using an unsupported algorithm instead of as invalid.",
  ["inputs", "configurations"],
  "all mixes of supported and unsupported signing algorithms and digest types over chains, and all alterations of proofs of supported zones",
  "No test contains an unsupported algorithm or digest.",
  [V], [("algorithm dispatch", "src/validation.rs verify_rrsig"), ("unsupported bookkeeping", "src/validation.rs verify_dnskeys")], hook=ANCH)

p("C15", "One bad signature rejects the whole proof",
  "If any signature made in the name of a reached zone over data, non-existence or delegation records does not check out, the whole proof is rejected and no record is returned. There is no input for which a partially valid proof yields a partial result.",
  ["inputs"],
  "all proofs with one or more invalid signatures from reached zones among otherwise valid ones, in every position",
  "No test contains a bad signature.",
  [V], [("immediate failure", "src/validation.rs verify_rr_stream, verify_dnskeys")], hook=ANCH)

p("C16", "Verification work is bounded",
  "Verifying any proof terminates, performs at most one cryptographic signature check per signature record in it, and does work polynomial in its size: self-referential, cyclic or redundant delegations, key-tag collisions, oversized iteration counts and many-parameter non-existence records do not multiply the work.",
  ["inputs"],
  "all proofs, including those built by malicious zones holding real keys: delegation cycles and lattices, colliding key tags, many signatures, many NSEC3 parameters",
  "Tests verify only small honest proofs; denial-of-service shapes need purpose-built signed trees.",
  [V], [("fail-fast on bad signatures", "src/validation.rs verify_rrsig"), ("iteration and parameter limits", "src/validation.rs verify_rr_stream"),
        ("delegation work list", "src/validation.rs verify_rr_stream")],
  hook="cfg(dnssec_prover_verif): the extra root anchors, and a per-thread counter of cryptographic signature checks")

p("C17", "Name resolution over verified records follows aliases exactly",
  "Resolving a name over verified records follows CNAME records at the name and DNAME records at its proper ancestors (label-wise) to the final name, and returns exactly the verified records there. It terminates, with an empty result, on alias loops and on substitutions that exceed the name length limit, and never mixes in records of other names.",
  ["inputs"],
  "all sets of records with alias chains, loops, nested and root DNAMEs, look-alike suffixes and maximal-length names, and all query names",
  "Two tests follow a one-step CNAME; loops, label boundaries and over-long substitutions are untested.",
  [V], [("alias following", "src/validation.rs VerifiedRRStream::resolve_name")])

p("C18", "The proof builder is a sound, bounded state machine",
  "From any history of responses the builder issues only well-formed queries: the initial one, then one key query per newly seen signer zone and a delegation query for it unless it is the root, never the same query twice and never more than ten in all. It awaits responses exactly while "
  "accepted responses lag behind issued queries, yields a proof exactly when they are equal within the limit, and a rejected response changes nothing.",
  ["histories", "fault_sequences"],
  "all sequences of honest, malformed, repeated, surplus and adversarial responses in any order, for any name and type",
  "The builder tests need live public resolvers and only follow the happy path; no test drives the state machine with chosen responses.",
  [Q], [("builder transitions", "src/query.rs ProofBuilder::process_response, awaiting_responses, finish_proof"), ("query encoder", "src/query.rs build_query")],
  state=[("pending queries, queries made, zones requested", "outstanding work and the request limit", "src/query.rs ProofBuilder")])

p("C19", "Building against a correct resolver yields a verifying proof",
  "With a correct recursive resolver, the built proof verifies and resolving the queried name over it gives exactly the record set the zone publishes (through aliases and wildcards), whatever the order in which responses arrive and however the resolver compresses or pads its messages.",
  ["histories", "schedules", "inputs"],
  "all signed trees within the query limit, all queried names and types with a positive answer, all response orders and message encodings",
  "The end-to-end tests need the public internet and cover six names; response order is fixed by the network.",
  [Q, S, V], [("response reader", "src/query.rs handle_response"), ("builder", "src/query.rs ProofBuilder"), ("verifier", "src/validation.rs verify_rr_stream")], hook=ANCH)

p("C20", "Responses are read exactly and filtered correctly",
  "A resolver response is accepted exactly when it is a well-formed answer to one question with the response and authenticated-data flags, no truncation and no error code, and at least one answer. An accepted one contributes all answer records and only the NSEC/NSEC3 records and their signatures from the authority section, expanded from "
  "any name compression, in order, nothing from the additional section, with the smallest contributed TTL.",
  ["inputs"],
  "all messages: every header field, section count, record mix, compression layout and truncation point",
  "No test feeds a response message except live ones; no test covers headers, sections, compression or TTLs.",
  [Q, S], [("header and section handling", "src/query.rs handle_response"), ("decompression", "src/ser.rs do_read_wire_packet_labels")])

p("C21", "Network drivers are faithful to the state machine",
  "The blocking and async proof-fetching calls give the same proof and TTL as stepping the builder by hand, for any split of the byte stream and any order of responses, sending each query once with a correct length prefix. A short read, closed connection, malformed response or too many required queries gives an error, never a wrong or partial proof.",
  ["fault_sequences", "schedules"],
  "all segmentations of the TCP stream, response orders, mid-message disconnects and malformed responses, for the four record kinds, in both the blocking and the async driver",
  "Driver tests need public resolvers and never see a fault or an unusual segmentation.",
  [Q], [("driver loop", "src/query.rs build_proof_impl"), ("framing", "src/query.rs send_query, read_response and async variants")])

p("C22", "Query buffers behave as byte vectors",
  "A query buffer holds exactly the bytes put into it, whatever mixture of construction, appending, mutation and cloning produced it, across its internal storage threshold: reading it, converting it to a vector and comparing two buffers depend only on those bytes. Appending beyond the maximum length does not panic.",
  ["histories"],
  "all operation sequences around the storage threshold and the maximum length",
  "No test uses the buffer directly, and test builds use a different threshold from production builds.",
  [Q], [("dual storage", "src/query.rs QueryBuf")],
  state=[("inline buffer, heap buffer, length", "which storage holds the contents", "src/query.rs QueryBuf")])

p("C23", "The proof server answers every request correctly",
  "For a well-formed GET of the proof endpoint with a domain and record type the server returns 200 with exactly the proof the library builds, its length and a cache lifetime equal to its TTL. Anything else gets the fitting 400 or 404 with a correct length; no request, however split or malformed, stops it from serving later ones.",
  ["inputs", "fault_sequences", "schedules"],
  "all request lines, parameter orders and cases, segmentations, disconnects and concurrent requests, and resolver failures",
  "The three server tests need public resolvers and send one well-formed request each.",
  [H, Q], [("request handling", "src/http.rs run_server")])

p("C24", "The WASM wrappers agree with the library",
  "The exported wrappers give the same queries, proofs and verification results as the library calls they wrap, for any interleaving of fetching queries and delivering responses. Verification output is always valid JSON: the verified records with their validity window, or an error object.",
  ["inputs", "histories"],
  "all names and types, response histories and proof bytes",
  "The wrapper crate has no tests.",
  [W, R], [("wrappers", "wasmpack/src/lib.rs")], hook=ANCH)

J = "wasmpack/doh_lookup.js"
p("C25", "The browser lookup drives the wrappers faithfully",
  "lookup_doh resolves the given name (with a final dot added) and type (txt, tlsa, a or aaaa in any case) by sending each query the proof builder issues exactly once to the given endpoint, "
  "as an RFC 8484 GET request, and delivering each answer exactly once. The result is the JSON the verifier gives for the proof the answers lead to. A bad name or type (without any request), "
  "a failed request or an answer that allows no proof gives a JSON error object. The result is always valid JSON, every lookup ends, and lookups made at the same time don't disturb each other.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all names, types and endpoints; all network answers, failures, error texts and timings; several lookups at once or in sequence",
  "The script has no tests, and is not run by any.",
  [J, W], [("lookup loop", "wasmpack/doh_lookup.js lookup_doh")], hook=ANCH)

p("C26", "Unvouched records and earlier work do not influence verification",
  "The outcome of verifying a list of records (which records are verified, their validity window and cache lifetime, or rejection) is decided by the sets that reached zones vouch for. Adding further sets nobody signed, "
  "sets and keys of zones without a trusted delegation, or signatures made in the name of unreached zones changes nothing of it, and so does anything verified before or on other threads.",
  ["inputs", "histories"],
  "all proofs with all additions of unsigned sets, islands of security and foreign signatures, and all sequences of verifications",
  "Every proof in the tests holds just what is needed and is verified once.",
  [V], [("signature selection", "src/validation.rs verify_rr_stream"), ("window folding", "src/validation.rs verify_rr_stream"), ("key selection", "src/validation.rs verify_dnskeys")], hook=ANCH)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
