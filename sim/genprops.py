#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

VERIFY = ["verify.go", "internal/card/driver_card_file.go", "internal/security/rsa_verify.go", "internal/security/ecc_verify.go"]
CERT = ["cert.go", "internal/cert/chain.go", "internal/cert/client.go", "internal/cert/embedded.go", "internal/cert/certcache/embed.go", "internal/cert/certcache/index.go"]
PARSE = ["unmarshal.go", "internal/card/rawcardfile.go", "internal/card/driver_card_file.go", "internal/vu/raw_vehicle_unit_file.go", "internal/vu/vehicle_unit_file.go"]
FETCH = ["tools/cmd/fetch-certs/main.go"]

prop("C01", "Card verification succeeds only on a genuine certificate chain",
 "Whatever the certificate sources do (errors, timeouts, truncated, corrupted, substituted or forged certificates, in any order and at any point of a call), verifying a driver card reports success only if the Gen1 card certificate and the Gen2 card-signature certificate present in the file were genuinely signed by the authority they name: for Gen1 along a chain that ends at the root key, for Gen2 with the key of the certificate the source returned for that authority. A missing, altered, replayed-from-another-issuer or wrongly addressed certificate always ends in an error, never in success and never in a crash. A generation that is present in the file is never skipped.",
 ["inputs", "fault_sequences", "histories"], "all card files, genuine or tampered, and all sequences of certificate-source and network faults",
 "Existing tests verify a handful of fixed certificates with healthy in-memory inputs; none runs the whole verification path or any failing source.",
 VERIFY + CERT, [("signature recovery / ECDSA check before success", "internal/security"), ("resolver + root fallback", "internal/card/driver_card_file.go verifyGen1Certificates/verifyGen2Certificates")],
 ["return value of VerifyFile"], [("signature_valid", "verdict stored on each certificate", "RsaCertificate/EccCertificate")])

prop("C02", "Validity marks tell the truth about the latest verification",
 "After every verification call, whatever happened before and however the call ended, each card certificate the call attempted is marked valid exactly if this call proved its signature, so an attempt that fails for any reason (unreachable source, wrong issuer, damaged or unusable certificate or key) leaves the mark false even if an earlier attempt or the caller had set it to true. Verification changes nothing in the file other than the verdict and the fields recovered from a proved certificate.",
 ["histories", "fault_sequences"], "all histories of verification attempts on one file interleaved with certificate-source faults and certificate replacement",
 "Tests check the mark after one attempt on a fresh certificate; staleness needs a history of attempts with a failure in between.",
 VERIFY, [("SetSignatureValid on every outcome", "internal/security/rsa_verify.go, ecc_verify.go")], ["signature_valid of card certificates", "all other fields of the file"])

prop("C03", "Verification recovers as soon as the faults stop",
 "However many earlier lookups and verifications failed, and in whatever way, once the certificate sources answer correctly again the next verification of a genuine card succeeds and the next certificate lookup returns the certificate. No failure, partial answer or cancelled call is remembered in a way that affects a later call.",
 ["fault_sequences", "histories"], "all finite sequences of network and source faults followed by a fault-free period, on one shared default resolver",
 "No test makes a lookup fail and then asks again; liveness after faults is not observable in single-shot tests.",
 VERIFY + CERT, [("stateless resolvers, fresh request per lookup", "internal/cert/client.go, chain.go")], ["result of the first call after faults stop"])

prop("C04", "Chained certificate sources fall back in order and hide nothing",
 "A chain of certificate sources asks its members strictly in the configured order, each at most once per lookup, for exactly the certificate requested, stops at the first success and returns that answer unchanged. It fails only if every member failed, and the error then lets the caller recognise each member's own error. This holds for root, RSA and ECC lookups, and when lookups run concurrently.",
 ["configurations", "fault_sequences", "schedules"], "all chain lengths and orders, success/failure patterns per member and concurrent lookups",
 "The chain has no tests at all.",
 ["internal/cert/chain.go", "cert.go"], [("loop over resolvers with errors.Join", "internal/cert/chain.go")], ["calls seen by each member", "returned certificate and error"])

prop("C05", "Network certificate lookups deliver the published bytes or an error",
 "A network lookup for a listed certificate issues one GET for the address listed for that certificate and succeeds only if a complete 200 response carried a well-formed certificate, whose bytes it then returns exactly as served; for ECC it must also be the certificate of the requested holder. Any other outcome (transport failure, other status, cut-off, stalled, empty, oversized, garbage or misdirected response) is an error, an unlisted holder is an error without any request, and the response is always released. No response makes the lookup buffer an unbounded amount of data.",
 ["fault_sequences", "inputs"], "all requested holders and all sequences of network responses and failures, at every byte of the body",
 "The client has no tests; partial reads, resets and wrong answers are environment behaviour unit tests do not produce.",
 ["internal/cert/client.go", "internal/cert/certcache/index.go"], [("index lookup, status check, fixed-format parse", "internal/cert/client.go")], ["requests seen by the server", "returned certificate", "body closed"])

prop("C06", "Cancellation and deadlines end lookups and verification promptly",
 "When the caller's context is cancelled or its deadline passes while a lookup or verification is waiting on the network, the call returns without waiting for the server, with an error the caller can recognise as that cancellation or deadline, and leaves no connection or task behind. A call whose context is never cancelled is not cut short by the library.",
 ["schedules", "fault_sequences"], "all points in simulated time at which the context ends relative to connect, header and body delivery, including a server that never answers",
 "Needs control over time and over a stalled server; nothing in the tests touches contexts.",
 ["internal/cert/client.go", "internal/cert/chain.go", "verify.go", "internal/card/driver_card_file.go"], [("context threaded from VerifyFile to the HTTP request", "internal/cert/client.go")], ["simulated time of return", "error identity", "open bodies and goroutines"])

prop("C07", "Every shipped certificate resolves offline, exactly as shipped",
 "The default source resolves the root and every certificate shipped with the library with no network request at all, whether or not the network works, and returns for each holder exactly the shipped bytes and, once verified, that holder's identity. Certificates that are not shipped are looked up on the network only.",
 ["configurations", "fault_sequences"], "all shipped certificates of both generations, all network states",
 "No test reads the embedded cache through a resolver.",
 CERT, [("embedded resolver placed before the network client", "cert.go"), ("certcache.ReadG1/ReadG2", "internal/cert/certcache/embed.go")], ["requests seen by the network", "returned raw bytes"])

prop("C08", "Using certificates never alters the trust material",
 "Nothing a caller does with certificates it obtained (including overwriting every byte and field of them) and nothing verification does with certificates obtained from a source changes what later or concurrent lookups return or what verification accepts. Certificates owned by a caller-supplied source are only read during verification.",
 ["histories", "schedules"], "all interleavings of lookups, verifications and caller-side modification of returned certificates, with sources that return shared or fresh objects",
 "Aliasing of shared anchors shows only across several calls, in histories no test performs.",
 VERIFY + CERT + ["internal/security/root_certificate.go"], [("fresh message and fresh bytes per lookup", "internal/security, internal/cert")], ["later lookups and verdicts", "source-owned certificates before/after"])

prop("C09", "Concurrent callers neither race nor influence each other",
 "Parsing, saving and verifying different files, and looking up certificates, from any number of goroutines at once gives each caller exactly the result it would have got alone, under every interleaving. The library itself performs no unsynchronised conflicting memory access in doing so.",
 ["schedules"], "all interleavings (down to individual statements of the library) of concurrent public calls on distinct messages, sharing input bytes, the default resolver or one custom resolver",
 "Tests are single-threaded; even a parallel test samples only the interleavings the machine happens to produce.",
 PARSE + VERIFY + CERT + ["marshal.go", "internal/dd"], [("no mutable package state", "whole library")], ["results vs sequential run", "race detector reports under the controlled schedule"])

prop("C10", "Callers' buffers and messages stay theirs",
 "Parsing neither modifies its input bytes nor keeps referring to them, so reusing the buffer afterwards does not change an already parsed file. Saving neither modifies the message nor returns memory shared with it or with another result, and reading never leaves two results sharing mutable memory.",
 ["histories", "inputs"], "all files and all histories of parse, buffer reuse, save and modification of results",
 "Tests discard the buffer after parsing; retention is visible only when it is reused afterwards.",
 PARSE + ["marshal.go"], [("copy of record values at parse", "internal/card/rawcardfile.go, internal/vu")], ["message before/after the caller reuses its buffer"])

prop("C11", "Damaged input never crashes, hangs or exhausts the parser",
 "For any bytes whatsoever, in particular files torn, truncated, bit-flipped, zeroed, spliced, duplicated or with lying length and count fields, parsing returns a file or an error; it never panics, and its work and memory stay bounded by a fixed multiple of the input size. Whatever was parsed is a message that can be encoded, and the same holds for saving and verifying it.",
 ["inputs", "fault_sequences"], "all byte strings, reached through storage-fault sequences on genuine card and vehicle-unit files of every generation",
 "Tests feed a few hand-written short inputs to single records; vehicle-unit parsing and whole-file damage are untested.",
 PARSE + ["internal/vu", "internal/card", "internal/dd"], [("length checks before every slice", "internal/vu/*.go, internal/card/*.go")], ["panic, step count, allocation of each call"])

prop("C12", "A cut-short file is an error or exactly the records before the cut",
 "If a card or vehicle-unit file is cut short at any byte, parsing either reports an error or yields exactly the content of the complete records before the cut; a record that is not fully there is never reported in part, and nothing is invented in its place.",
 ["crash_points", "inputs"], "every cut position in genuine files of every kind and generation",
 "Truncation at every byte of whole files is not tested; the vehicle-unit path has no tests.",
 PARSE, [("TLV / TREP splitting with end-of-data detection", "internal/card/rawcardfile.go, internal/vu/raw_vehicle_unit_file.go")], ["parse of the prefix vs parse of its complete records"])

prop("C13", "Damage to one record never changes what is reported for another",
 "If the value bytes of one elementary file (or its signature) of a card are damaged, a parse that still succeeds reports every other elementary file exactly as it would from the undamaged card, except for the structure-version file that selects how later files are read.",
 ["inputs", "fault_sequences"], "all damage patterns inside one record, all records, all genuine cards",
 "Tests parse records in isolation, so cross-record influence cannot appear.",
 ["internal/card/driver_card_file.go", "internal/card/rawcardfile.go"], [("records parsed independently", "internal/card/driver_card_file.go")], ["all other records of the parsed file"])

prop("C14", "A saved card file reloads to the same content",
 "Saving a parsed card file and reading the saved bytes back yields a file equal in all content, signatures and certificates included, and saving again yields the same bytes; if the product cannot save a file faithfully it reports an error. A card kept in raw form is saved byte for byte.",
 ["inputs", "histories"], "all well-formed card files of every generation through any number of save/reload cycles",
 "Round trips are tested per record type on a few samples, never for a whole card.",
 ["marshal.go", "internal/card/driver_card_file.go", "internal/card/rawcardfile.go"], [("raw-data painting and TLV writing", "internal/card/driver_card_file.go appendDriverCard")], ["reloaded message vs original"])

prop("C15", "The refreshed certificate index never describes files that are not there",
 "At every instant, and after a crash or an I/O error at any point of a refresh, an index present in the output directory is complete and every certificate it lists exists at its listed path with exactly the bytes downloaded for it. Certificate files that are present are never partial or mixed, also when several downloads target the same file or the refresh runs again over an old directory.",
 ["crash_points", "fault_sequences", "schedules"], "all crash points, disk errors, short writes and download interleavings, starting from an empty or previously filled directory",
 "The tool has no tests, and crash points and torn writes need a controlled disk.",
 FETCH, [("certificate files written before the index", "tools/cmd/fetch-certs/main.go")], ["output directory after every file operation"])

prop("C16", "A refresh indexes every available certificate exactly once",
 "When the refresh finishes, the index lists exactly the certificates whose download and save succeeded, each listed link once, with the country, address, expiry, authority and holder belonging to that very certificate. A failing, corrupt or oversized download affects no other certificate.",
 ["schedules", "fault_sequences"], "all download interleavings, worker counts and per-download failures",
 "Lost updates and cross-talk between concurrent downloads depend on the schedule; there is no test at all.",
 FETCH, [("mutex around the result list", "tools/cmd/fetch-certs/main.go")], ["index.json and certificate files vs the simulated site"])

prop("C17", "A refresh produces the same result whatever the timing",
 "For the same site contents the resulting index (apart from its creation time) and files are identical whatever order downloads complete in and whatever the number of workers. Entries are ordered by country ascending, then expiry descending, entries without a readable expiry last.",
 ["schedules", "configurations"], "all completion orders and worker counts, including entries with equal country and expiry",
 "Order dependence is invisible in a single run.",
 FETCH, [("sortCertificates", "tools/cmd/fetch-certs/main.go")], ["bytes of index.json across schedules"])

prop("C18", "A refresh respects its worker limit and always terminates",
 "At no time are more certificate downloads in flight than the configured limit, and the limit is actually used when there is enough work. Whatever the servers do, including never answering or never finishing a response, the refresh ends within a bounded time.",
 ["schedules", "fault_sequences"], "all interleavings, limits from 1 up, and stalls at any point of any response",
 "Needs a stalled server and control over time.",
 FETCH, [("errgroup limit", "tools/cmd/fetch-certs/main.go"), ("HTTP client timeout", "tools/cmd/fetch-certs/main.go")], ["concurrent requests at the server", "simulated time at exit"])

prop("C19", "A refresh writes and deletes only inside its output directory",
 "Whatever the site serves (link names, paths, sizes, contents), a refresh creates, overwrites and deletes only its index and certificate files in its own subdirectories of the output directory. Files there that are not certificate files are left alone.",
 ["inputs", "fault_sequences"], "all site contents including hostile link names, all failures",
 "Needs hostile site content; nothing tests it.",
 FETCH, [("file naming", "tools/cmd/fetch-certs/main.go")], ["every path passed to a mutating file operation"])

prop("C20", "A refresh that did not complete never looks successful",
 "A refresh exits with status zero only if the root certificate, both certificate lists and the index were completely fetched and stored; any failure in one of these ends with a non-zero status and no index. In particular a disk or network error at any single operation is either confined to one certificate, which is then absent from the index, or reported.",
 ["fault_sequences"], "all single and multiple disk and network failures at every operation",
 "Error paths of I/O are never exercised.",
 FETCH, [("log.Fatalf on structural failures", "tools/cmd/fetch-certs/main.go main")], ["exit status", "index.json"])

prop("C21", "The parse command's exit status and output are honest",
 "The parse command prints the contents of the given files in argument order and exits zero only if every file was read and parsed and all output was written; otherwise it exits non-zero, names the failing file or write, and its output is exactly that of the files before the failure. A read error or short read never yields output derived from partial data.",
 ["fault_sequences", "inputs"], "all argument lists of good, damaged, missing and unreadable files, with read errors, short reads and failing output at any operation",
 "The command has no tests; I/O failures need injection.",
 ["cmd/tachograph/main.go", "unmarshal.go"], [("RunE returning the first error", "cmd/tachograph/main.go")], ["stdout bytes", "stderr", "exit status"])

prop("C22", "Results depend on the input alone",
 "Parsing, saving, classifying and verifying the same input with the same certificates gives the same result in every process, at every time of day, after any history of other calls and under any scheduling. Nothing is read from clocks, environment, iteration order or leftovers of earlier calls.",
 ["histories", "schedules", "configurations"], "all histories of earlier (also failing) calls, clock settings, runtime randomness and interleavings",
 "A test process observes one clock, one random seed and a fixed history.",
 PARSE + VERIFY + ["marshal.go", "internal/card/infer.go"], [("pure functions, no package-level caches", "whole library")], ["result digest across perturbed executions"])

prop("C23", "What is read from a card is exactly what was recorded on it",
 "For every history of use of a driver card (activities, vehicles, places, events, faults, conditions and controls recorded by vehicle units, storage wrapped around any number of times, a vehicle unit losing power between any two commands), a download of the card is read without error and reports every elementary file the schema models, both generations, with exactly the records the card holds, all days of the activity storage oldest first, and nothing else.",
 ["histories", "crash_points"], "all histories of card commands, interrupted at any command, on cards of every generation and capacity, downloaded at any time and in any file order",
 "Tests parse a few fixed records; the wrapped storage, the pointers and the interplay of files only appear in long histories of a card.",
 ["unmarshal.go", "internal/card", "internal/dd"], [("TLV splitting and per-file parsers", "internal/card"), ("activity storage traversal", "internal/card/activity.go")], ["parsed driver card vs the simulated card"])

prop("C24", "A vehicle unit download is reported in full, transfer by transfer",
 "For every genuine download of a vehicle unit, of any generation and version, with any selection and number of transfers and any number of records in each, reading succeeds, decides the generation correctly, and reports every transfer of the download exactly once, in order and with its own bytes and signature; the first-generation overview and activities transfers report exactly the data the vehicle unit held. Transfers that were not downloaded are not reported.",
 ["histories", "inputs"], "all histories of use of a vehicle unit and all downloads of it, of all generations and versions",
 "There is no test of whole vehicle-unit downloads; sizes of transfers depend on record counts in ways single samples do not exercise.",
 ["unmarshal.go", "internal/vu", "internal/dd"], [("transfer splitting by computed size", "internal/vu/raw_vehicle_unit_file.go"), ("generation and version detection", "internal/vu/vehicle_unit_file.go")], ["parsed vehicle unit file vs the simulated vehicle unit"])

prop("C25", "Every kind of download is taken for what it is",
 "For every genuine download of a driver, workshop, control or company card of any generation and version, complete or interrupted, and of a vehicle unit, reading succeeds and reports it as the kind it is: driver cards and vehicle units in parsed form, a card of another kind (whenever the download holds a file that driver cards do not have) in raw form with every record in order, correctly labelled, byte for byte, and saved back to the same bytes. Data that does not start as any of these is an error.",
 ["histories", "inputs"], "all genuine downloads of every kind of card and of vehicle units, interrupted after any file",
 "No test has a download of a workshop, control or company card.",
 ["unmarshal.go", "marshal.go", "internal/card/infer.go", "internal/card/rawcardfile.go"], [("card kind told by its files", "internal/card/infer.go"), ("file structure of each card", "proto/wayplatform/connect/tachograph/card/v1/card_type.proto")], ["file type and raw records vs the simulated download"])

prop("C26", "Anonymised records give nobody away",
 "What the anonymisation of card records (identification, vehicles used, places of both generations, activity changes) returns depends on nothing that tells who the holder is, which vehicles were driven, or exactly when and where: for any two cards that differ only in names, card numbers, issuing authority, dates, registration plates, positions, regions, times and the exact odometer values, the results are equal. They hold no signature of the original, keep what identifies nobody (types, countries, languages, pointers, counters, rounded odometers, number of records), leave the original unchanged, and can be saved and read back.",
 ["inputs", "histories"], "all pairs of cards that differ only in what is to be hidden, after any histories of use",
 "That something does not leak is a statement about pairs of inputs; tests only compare single outputs with golden files.",
 ["internal/card/identification.go", "internal/card/vehicles_used.go", "internal/card/places.go", "internal/card/places_g2.go", "internal/dd"], [("Anonymize functions", "internal/card, internal/dd")], ["anonymised messages of two cards", "saved bytes"])

prop("C27", "An edited card saves as edited",
 "For every parsed card file and every sequence of edits of values (times, odometers, nations, types, counters, positions, numbers, texts replaced as a whole in any code page, dates, signatures, days and activity changes, flags, chip data, codes without a meaning, times removed, whole records put in place of others, added to lists or removed from them; also in messages made without remembered bytes), saving succeeds and reading the result gives the edited values and otherwise exactly the file before the edit; the records of files that were not edited stay the same byte for byte, and saving changes nothing in the message. A text longer than its field or with letters its code page lacks, a time with a fraction of a second and a counter with too many digits are refused, and nothing is saved.",
 ["histories", "inputs"], "all sequences of edit, save and reload on all cards after any history of use",
 "Existing tests save unedited records only; an edit can be lost to remembered bytes without any of them noticing.",
 ["marshal.go", "internal/card", "internal/dd"], [("painting over remembered bytes", "internal/card, internal/dd"), ("code pages", "internal/dd/string_value.go")], ["edited message vs reloaded message", "saved bytes of other files"])

prop("C28", "Damage to one transfer never changes what is reported for another",
 "If bytes inside some transfers of a vehicle unit download (values or signatures, of any generation and version) are damaged without changing where the transfers end, a parse that still succeeds takes the file for the same generation and version, reports every other transfer exactly as from the undamaged download, none lost and none added, and reports the damaged ones with the bytes and signatures that are in the file, each as if it were alone there. What comes before a damaged length is never affected by it.",
 ["inputs", "faults"], "all damage patterns at all positions of all vehicle unit downloads",
 "Damage is silent in this format, which has no lengths or checks of its own; tests only read whole files.",
 ["internal/vu"], [("transfer slicing and per-transfer parsers", "internal/vu/raw_vehicle_unit_file.go, internal/vu/vehicle_unit_file.go")], ["parsed transfers with and without damage"])

# --- not decided by deterministic simulation -------------------------------
prop("C30", "Decoded values follow the data dictionary",
 "Every field decoded from a record has the value the regulation's data dictionary assigns to its bytes (dates, BCD, code pages, odometers, activity changes, positions), for every bit pattern.",
 ["inputs"], "all byte patterns of every data type",
 "Tests sample a few values per type.",
 ["internal/dd", "internal/card", "internal/vu"], [("per-type decoders", "internal/dd")], ["decoded fields"])
prop("C31", "Records built from field values encode per the data dictionary",
 "Encoding a record from its field values, without remembered raw bytes, yields the bytes the data dictionary prescribes, and decoding them returns the same values.",
 ["inputs"], "all field values of every record type",
 "Tests sample a few values per type.",
 ["internal/dd", "internal/card"], [("append functions", "internal/dd, internal/card")], ["encoded bytes"])
prop("C33", "Parsed files satisfy the schema's declared constraints",
 "Every file that parses without error satisfies the value constraints declared in the protobuf schema.",
 ["inputs"], "all parseable inputs",
 "The only test that validates needs proprietary sample files that are absent.",
 ["proto/wayplatform/connect/tachograph", "internal/card", "internal/vu"], [("protovalidate annotations", "proto/")], ["validation result"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
