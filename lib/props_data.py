MON = "runtime monitoring: ASan+UBSan build of the real sources, "
TRUST = " Trusted: the stand-ins for Arrow, yacl and libsodium-style curves in shim/ (see DESIGN.md)."
NOT_APPLICABLE = {}

prop("P01", "Two-party PSI returns exactly the intersection",
 "For any two key sets held by two parties and any supported protocol, curve and bucket size, a run in which nothing fails ends with the receiver holding exactly the keys present in both sets, and likewise the sender when the result is broadcast. Repeated input keys, key lengths, key content, set sizes (including disjoint, identical and very unequal sets) and the order of the input never change the answer.",
 ["inputs", "configurations", "schedules"],
 "all pairs of key sets, all protocols (ECDH with every curve, KKRT, RR22 in both modes and code types), bucket sizes, batch sizes, broadcast on and off, transport timings",
 "Tests use a handful of fixed sets on the default parameters; bucket boundaries, lopsided sizes, unusual keys and parameter combinations are unbounded.",
 ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/ecdh/sender.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/kkrt/sender.cc", "psi/algorithm/kkrt/receiver.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/rr22/rr22_utils.cc", "psi/algorithm/rr22/sender.cc", "psi/algorithm/rr22/receiver.cc", "psi/interface.cc"],
 [("double masking and comparison", "psi/algorithm/ecdh/ecdh_psi.cc"), ("bucket pipeline", "psi/algorithm/rr22/rr22_utils.cc"), ("OT-based OPRF comparison", "psi/algorithm/kkrt/kkrt_psi.cc")],
 observe=["output files and reports of both parties"],
 technique=MON + "both parties run in threads over an observed transport; plaintext set oracle",
 note="Random and boundary-seeking workloads; the output of both parties is compared with the plaintext intersection." + TRUST)

prop("P02", "Output tables are the requested join, row for row",
 "The file a party receives is exactly its own input columns for the requested kind of join (inner, left, right, full, difference): every matching row as often as the peer's key multiplicity calls for, unmatched rows and null rows where the join calls for them, values byte for byte as in the input. When alignment is left on, both parties' inner-join outputs list the same keys in the same order.",
 ["inputs", "configurations"],
 "all pairs of tables (column orders, payload columns, multi-column keys, duplicate keys, declared-unique keys, quoted headers, blank lines), join types, left side, null text, alignment on/off",
 "Tests compare a few fixed tables; duplicates, payloads and column orders combine without bound.",
 ["psi/utils/join_processor.cc", "psi/utils/table_utils.cc", "psi/interface.cc", "psi/utils/advanced_join.proto"],
 [("result index to rows", "psi/utils/join_processor.cc"), ("key table and duplicate counts", "psi/utils/table_utils.cc"), ("report and output", "psi/interface.cc")],
 observe=["output files of both parties"],
 technique=MON + "plaintext join oracle over recorded output files",
 note="The oracle re-computes each party's output as a multiset of rows (and the key order where promised)." + TRUST)

prop("P03", "Reported counts match the inputs and outputs",
 "The report of a finished run states the number of rows and of distinct keys in the party's own input, and the number of its rows and of distinct keys in the intersection; a sender that gets no result reports no intersection size. The same run repeated reports the same numbers.",
 ["inputs", "configurations"],
 "all pairs of tables, duplicates, protocols, broadcast settings",
 "Tests look at counts for a few tables; count bookkeeping goes wrong at duplicates and empty intersections.",
 ["psi/interface.cc", "psi/utils/join_processor.cc", "psi/utils/table_utils.cc"],
 [("report assembly", "psi/interface.cc"), ("duplicate counting", "psi/utils/table_utils.cc")],
 observe=["returned report"],
 technique=MON + "reports recomputed from the plaintext tables", note="Counts recomputed independently for every run." + TRUST)

prop("P04", "A crashed run resumes to the same result",
 "When recovery is enabled and a run stops at any point because either party or the link fails, running both parties again with the same settings and folders finishes with the same output, and the same report, as a run that never failed. A resume with different settings or changed input data is refused rather than completed with mixed data.",
 ["crash_points", "inputs", "configurations", "fault_sequences"],
 "every message index at which a party or the link dies, repeated crashes, all protocols, join settings; altered inputs or settings between attempts",
 "The recovery test stops a run at one or two hand-picked stages.",
 ["psi/checkpoint/recovery.cc", "psi/interface.cc", "psi/algorithm/ecdh/sender.cc", "psi/algorithm/ecdh/receiver.cc", "psi/algorithm/kkrt/sender.cc", "psi/algorithm/kkrt/receiver.cc", "psi/algorithm/rr22/sender.cc", "psi/algorithm/rr22/receiver.cc", "psi/utils/ec_point_store.cc"],
 [("checkpoint read and write", "psi/checkpoint/recovery.cc"), ("resume of masked batches", "psi/algorithm/ecdh/ecdh_psi.cc"), ("resume of buckets", "psi/algorithm/rr22/receiver.cc")],
 state=[("checkpoint", "stage reached and counts agreed", "psi/checkpoint/checkpoint.proto")],
 observe=["output files and reports after the resumed run"],
 technique=MON + "fault injection at message indices of the transport; resumed output compared with the plaintext oracle",
 note="Crash points are message boundaries seen by the transport, chosen at random per case (quick) and swept (thorough)." + TRUST)

prop("P05", "Mismatched or invalid settings are refused by both parties",
 "When the two parties' settings disagree on anything that affects the outcome (protocol, its parameters, roles, broadcast, join type, recovery, checks), or either party's settings are invalid, no party reports success or writes a result. Settings that agree are accepted, and settings that only concern one party locally (paths, column names, debugging, local key uniqueness) never cause a refusal.",
 ["configurations"],
 "all single and multiple differences between two parties' settings, and all invalid individual settings",
 "Tests try a few mismatches; the settings space is combinatorial.",
 ["psi/interface.cc", "psi/algorithm/psi_operator.cc", "psi/algorithm/ecdh/sender.cc", "psi/apps/psi_launcher/launch.cc"],
 [("peer settings comparison", "psi/interface.cc"), ("own settings validation", "psi/interface.cc")],
 observe=["success or error of both parties, output files"],
 technique=MON + "systematic single-field mutation of settings; both parties must refuse or both succeed",
 note="Every field of the settings is mutated on one side." + TRUST)

prop("P06", "Nothing but the agreed result is disclosed",
 "No message a party sends contains one of its raw keys or payload values, or a value computable from a single key without that party's secret (when the optional whole-input comparison is on, one digest of all keys is exchanged); secrets are fresh in every run, so that the same input never produces the same protected messages twice. A sender that is not granted the result receives neither intersection content nor its size, and no output file.",
 ["inputs", "configurations", "histories"],
 "all key sets, protocols and settings, repeated runs",
 "No test looks at the messages.",
 ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/cryptor/ecc_cryptor.cc", "psi/interface.cc"],
 [("masking before sending", "psi/algorithm/ecdh/ecdh_psi.cc"), ("result broadcast", "psi/algorithm/psi_operator.cc"), ("secret key generation", "psi/cryptor/ecc_cryptor.cc")],
 observe=["bytes of every message on the transport", "output files and reports"],
 technique=MON + "transport log searched for raw and unsalted-hashed keys, compared between repeated runs",
 note="Searches every recorded message for key bytes and unkeyed transforms (hashes, hash-to-curve points)." + TRUST)

prop("P07", "Unbalanced PSI is exact in every mode and cache history",
 "In every mode (full, or offline generation, transfer, offline and online in any legal sequence, with the cache reused for several client sets), the party entitled to the result obtains exactly the intersection of the server's set at cache generation with the client's set. A cache produced with another key never yields a match, and an interrupted phase can be repeated; an online phase after an interrupted or missing transfer is refused, not answered from an incomplete copy.",
 ["inputs", "configurations", "histories", "crash_points"],
 "all server and client sets, all mode sequences, repeated online phases, result side settings",
 "Tests run each mode once on one input.",
 ["psi/algorithm/ecdh/ub_psi/server.cc", "psi/algorithm/ecdh/ub_psi/client.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc"],
 [("phase orchestration", "psi/algorithm/ecdh/ub_psi/server.cc"), ("oblivious evaluation", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc"), ("cache", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc")],
 observe=["output files and reports", "cache folders"],
 technique=MON + "mode-sequence workloads, plaintext set oracle", note="Random legal sequences of phases." + TRUST)

prop("P08", "Threshold PSI never reveals more keys than the threshold",
 "With an intersection threshold t, balanced ECDH and unbalanced PSI give the entitled parties min(t, n) of the n common keys: every key of the output is common, both parties get the same keys with the multiplicities of the join, and when n is at most t the result is exactly that of the unlimited job. The count file and the report state both numbers truthfully. Duplicates, input order, equal sets and other settings do not change this.",
 ["inputs", "configurations"],
 "all set pairs around the threshold, including exactly at it, all joins and result sides",
 "Tests use two or three sizes without duplicates.",
 ["experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc", "experiment/psi/threshold_ecdh_psi/receiver.cc", "experiment/psi/threshold_ecdh_psi/sender.cc", "experiment/psi/threshold_ub_psi/server.cc", "experiment/psi/threshold_ub_psi/client.cc"],
 [("masking, shuffling and restoring indices", "experiment/psi/threshold_ecdh_psi/threshold_ecdh_psi.cc"), ("cap and counts", "experiment/psi/threshold_ecdh_psi/receiver.cc"), ("unbalanced variant", "experiment/psi/threshold_ub_psi/client.cc")],
 observe=["output files", "count files", "reports"],
 technique=MON + "boundary-seeking thresholds, plaintext oracle that accepts any allowed choice of keys", note="Thresholds drawn around the size of the intersection." + TRUST)

prop("P09", "Multi-party PSI returns the intersection of all parties",
 "With three or more parties, each of the supported multi-party protocols gives the entitled parties exactly the keys held by every party, for any sets, party count, choice of receiving party and transport timing.",
 ["inputs", "configurations", "schedules"],
 "all families of sets, 3 to 8 parties, every leader, timings",
 "Tests use one shape of overlap per party count.",
 ["psi/algorithm/nty/nty_mp_psi.cc", "psi/algorithm/nty/server_aided_psi.cc", "psi/algorithm/ecdh/ecdh_3pc_psi.cc", "experiment/psi/kmprt17_mp_psi/kmprt17_mp_psi.cc", "psi/legacy/nparty_psi.cc", "psi/legacy/ecdh_3party_psi.cc"],
 [("pairwise shares combined at the leader", "psi/algorithm/nty/nty_mp_psi.cc"), ("three-party relay", "psi/algorithm/ecdh/ecdh_3pc_psi.cc")],
 observe=["results of every party"],
 technique=MON + "all parties in threads over one observed transport, plaintext oracle",
 note="Structured overlaps (in all but one party, pairwise only) dominate the inputs." + TRUST)

prop("P10", "DP-PSI outputs are consistent with its sub-sampling rules",
 "Differentially private PSI outputs only positions of the receiver's own items, each once: of the common items exactly those that survived both parties' sub-sampling, and of the others exactly as many as the sender's up-sampling added; the sizes both parties report account for the output. Sampling happens at the configured rates, and at the extremes (keep everything, add nothing) the result is exactly the intersection. When every sampled item is common, an empty result is reported instead.",
 ["inputs", "configurations"],
 "all set pairs and sampling probabilities including 0 and 1",
 "A random result can only be sampled by a test, which checks sizes for a few parameters.",
 ["psi/legacy/dp_psi/dp_psi.cc", "psi/legacy/dp_2party_psi.cc"],
 [("sub-sampling and up-sampling", "psi/legacy/dp_psi/dp_psi.cc")],
 observe=["results of both parties"],
 technique=MON + "set and statistical oracles over results of both parties", note="Soundness exactly; rates within wide binomial bounds." + TRUST)

prop("P11", "Privacy calibration satisfies its defining equations",
 "The privacy budget split used by differentially private PSI adds up to the requested total, and the Gaussian noise scale returned for a budget and failure probability meets that failure probability within the stated tolerance, scales with the sensitivity and shrinks as the allowed failure probability grows.",
 ["inputs"],
 "all set sizes, budgets, failure probabilities, sensitivities and tolerances for which a solution exists",
 "Tests cannot enumerate a continuous domain; none exists for most of these functions.",
 ["psi/legacy/dp_psi/dp_psi_utils.cc", "psi/legacy/dp_psi/dp_psi_utils.h"],
 [("budget root finding", "psi/legacy/dp_psi/dp_psi_utils.cc"), ("analytic Gaussian calibration", "psi/legacy/dp_psi/dp_psi_utils.cc")],
 observe=["returned values"],
 technique=MON + "returned values checked against independently evaluated defining equations in long double",
 note="Random parameters over the whole domain; tolerance 1e-9 on the budget, the function's own tolerance on the calibration.")

prop("P12", "Older in-memory and bucket interfaces return exact results",
 "Intersecting lists of distinct items, or files with distinct keys, through the older two- and three-party interfaces returns, to every party entitled to it, exactly the common items (in the receiving party's order or, when asked for, sorted), whatever the protocol, number of items, bucket size, receiver rank and broadcast setting; counts reported with it are true. Inputs with repeated keys are refused when the check is asked for. Items in lists are arbitrary byte strings.",
 ["inputs", "configurations"],
 "all lists of distinct items, protocols, receiver ranks, broadcast, bucket sizes, precheck and sort settings",
 "Tests cover fixed sizes per protocol.",
 ["psi/legacy/memory_psi.cc", "psi/legacy/bucket_psi.cc", "psi/legacy/base_operator.cc", "psi/legacy/kkrt_2party_psi.cc", "psi/legacy/ecdh_3party_psi.cc", "psi/legacy/nparty_psi.cc", "psi/algorithm/ecdh/ecdh_operator.cc", "psi/algorithm/rr22/rr22_operator.cc"],
 [("operator factory and result broadcast", "psi/legacy/base_operator.cc"), ("bucket loop and output filter", "psi/legacy/bucket_psi.cc")],
 observe=["returned item lists, output files, reports"],
 technique=MON + "plaintext oracle over returned items and files", note="All registered two-party and multi-party operators." + TRUST)

prop("P13", "Blinding commutes and is the same in bulk and one at a time",
 "Applying two parties' secrets to a hashed item in either order gives the same value, for every supported curve and every item; different items give different values. Bulk masking, in any batch size and number of threads, equals masking each point alone, and the same key always masks the same point to the same value.",
 ["inputs", "schedules", "configurations"],
 "all items, keys, curves, batch sizes and thread counts",
 "Tests try one batch per curve.",
 ["psi/cryptor/ecc_cryptor.cc", "psi/cryptor/ecc_cryptor.h", "psi/cryptor/sm2_cryptor.cc", "psi/cryptor/sodium_curve25519_cryptor.cc", "psi/cryptor/fourq_cryptor.cc", "psi/cryptor/ipp_ecc_cryptor.cc", "psi/cryptor/cryptor_selector.cc", "psi/cryptor/ecc_utils.h"],
 [("point masking", "psi/cryptor/sm2_cryptor.cc"), ("curve25519 masking", "psi/cryptor/sodium_curve25519_cryptor.cc"), ("vectorised masking", "psi/cryptor/ipp_ecc_cryptor.cc")],
 observe=["masked values"],
 technique=MON + "algebraic relations checked on random items", note="Curve arithmetic comes from OpenSSL and stand-ins; the code under test is the wrapper and batching logic." + TRUST)

prop("P14", "Hashing to the curve is deterministic, valid and standard",
 "Hashing a message to the curve always returns an encoding of a point on the curve in the prime-order group, is deterministic, depends on the whole message and tag, and agrees with an independent implementation of the published standard.",
 ["inputs"],
 "all messages",
 "Tests have the standard's five vectors.",
 ["psi/cryptor/hash_to_curve_elligator2.cc", "psi/cryptor/hash_to_curve_elligator2.h"],
 [("expand, map and clear cofactor", "psi/cryptor/hash_to_curve_elligator2.cc")],
 observe=["returned encodings"],
 technique=MON + "differential check against an independent big-integer implementation of RFC 9380",
 note="Independent implementation in the harness, checked against the RFC vectors.")

prop("P15", "Messages and results survive encoding and decoding",
 "Every structure the parties exchange (point batches, item lists, counts, sizes, results, settings) decodes to exactly what was encoded, for every content including empty, binary and very long values; a result broadcast from one party reaches every other party unchanged. A damaged message is refused or decodes to something harmless, never to out-of-bounds access.",
 ["inputs"],
 "all contents of all message types",
 "Tests encode one or two samples.",
 ["psi/utils/serialize.h", "psi/utils/serializable.proto", "psi/utils/communication.cc", "psi/utils/communication.h"],
 [("buffer encoding", "psi/utils/serialize.h"), ("batch messages", "psi/utils/communication.h")],
 observe=["decoded structures"],
 technique=MON + "round-trip oracle over generated messages and truncations", note="Truncated and bit-flipped encodings run under ASan." + TRUST)

prop("P16", "The encoded key-value store answers every inserted key",
 "Solving the oblivious key-value store for distinct keys and decoding at an inserted key returns exactly its value, for every supported size, weight, bin size, thread count and value type, with and without randomised padding; parallel and sequential decoding agree.",
 ["inputs", "configurations", "schedules"],
 "all key sets and parameters for which a solution exists",
 "Tests use one size per variant.",
 ["psi/algorithm/rr22/okvs/paxos.cc", "psi/algorithm/rr22/okvs/baxos.cc", "psi/algorithm/rr22/okvs/paxos_hash.cc", "psi/algorithm/rr22/okvs/simple_index.cc", "psi/algorithm/rr22/okvs/dense_mtx.cc", "psi/algorithm/rr22/okvs/galois128.cc"],
 [("triangulation and back substitution", "psi/algorithm/rr22/okvs/paxos.cc"), ("binning", "psi/algorithm/rr22/okvs/baxos.cc")],
 observe=["decoded values"],
 technique=MON + "encode/decode oracle, direct linear-algebra check of the encoding", note="Sizes from 1 to several thousand, all templates compiled in the library." + TRUST)

prop("P17", "The oblivious functions agree for equal inputs only",
 "For each of the oblivious pseudo-random functions used by the protocols, the receiver's output for an item equals the sender's own evaluation of that item, and outputs for different items differ. This holds for every item count, mode, code type and thread count.",
 ["inputs", "configurations"],
 "all inputs, modes, code types, compressions, thread counts",
 "Tests sample one or two sizes per mode.",
 ["psi/algorithm/rr22/rr22_oprf.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc"],
 [("VOLE based function", "psi/algorithm/rr22/rr22_oprf.cc"), ("curve based function", "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf.cc")],
 observe=["outputs of both sides"],
 technique=MON + "receiver and sender outputs compared item by item", note="VOLE and OT come from trusted-dealer stand-ins." + TRUST)

prop("P18", "Cuckoo placement keeps every item exactly once and findable",
 "Every item inserted into the cuckoo table is found in exactly one of its own candidate bins or in the stash, no bin holds two items, and nothing is lost when items are evicted; the suggested parameters for a size always provide enough room. An insertion that cannot succeed is reported, not dropped.",
 ["inputs", "configurations"],
 "all item sets, sizes, hash counts, stash sizes and insertion splits",
 "Tests insert a few random sets.",
 ["psi/utils/cuckoo_index.cc", "psi/utils/cuckoo_index.h", "psi/utils/simple_index.cc"],
 [("insertion with eviction", "psi/utils/cuckoo_index.cc")],
 state=[("bins", "occupant of each bin and which hash placed it", "psi/utils/cuckoo_index.h")],
 observe=["table contents after insertion"],
 technique=MON + "invariant monitor over the table after every batch of insertions", note="Placement is checked by recomputing every candidate bin." + TRUST)

prop("P19", "Bucketed storage keeps every record in its bucket",
 "Records written to bucketed disk storage come back exactly once, in the bucket their key belongs to and only there, unchanged and with their sequence numbers and duplicate counts; equal keys of two parties always belong to the same bucket. The same comparison of two masked sets gives the same matches whether kept in memory or on disk.",
 ["inputs", "configurations"],
 "all record sets, bucket counts, memory and disk stores, empty buckets",
 "Tests use small sets with few buckets.",
 ["psi/utils/hash_bucket_cache.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/ec_point_store.cc", "psi/utils/bucket.cc", "psi/algorithm/ecdh/ub_psi/ub_psi_cache.cc"],
 [("bucket files", "psi/utils/multiplex_disk_cache.cc"), ("record format", "psi/utils/hash_bucket_cache.cc"), ("match by bucket", "psi/utils/ec_point_store.cc")],
 observe=["records read back", "matches"],
 technique=MON + "conservation monitor: multiset of records written versus read", note="Includes embedded separators, empty values and large bucket counts." + TRUST)

prop("P20", "Input is read in full, in order, exactly once",
 "Reading an input by batches, of any size and through any of the supported readers, delivers every record once, in the file's order (or once each when shuffled, with indexes that still point at the original records), and then reports the end. Selected columns, labels and duplicate keys arrive as in the file.",
 ["inputs", "configurations"],
 "all files, column selections and orders, batch sizes, shuffling",
 "Tests read a few small files.",
 ["psi/utils/batch_provider_impl.cc", "psi/utils/arrow_csv_batch_provider.cc", "psi/utils/arrow_helper.cc", "psi/utils/bucket.cc"],
 [("CSV batches", "psi/utils/arrow_csv_batch_provider.cc"), ("memory and shuffled batches", "psi/utils/batch_provider_impl.cc")],
 observe=["batches delivered"],
 technique=MON + "exactly-once monitor over delivered batches", note="Batch sizes around the row count and 1." + TRUST)

prop("P21", "Stored result positions are read back exactly, even after a crash",
 "Positions and peer multiplicities written to the intermediate result store are read back exactly and in order; after an interruption everything committed before it is available and whatever was only cached is either present whole or absent, never garbled.",
 ["inputs", "histories", "crash_points"],
 "all sequences of writes, commits and abandoned writers, cache sizes",
 "Tests write a fixed range once.",
 ["psi/utils/index_store.cc", "psi/utils/index_store.h"],
 [("cached writer with commit", "psi/utils/index_store.cc")],
 observe=["values read back"],
 technique=MON + "history checker: values read versus values written and committed", note="Abandons writers at random points." + TRUST)

prop("P22", "Key tables, ordering and digests reflect the data exactly",
 "Key preparation keeps exactly the distinct keys with their multiplicities, refuses inputs it must refuse (missing columns, repeated keys where declared unique and checked), orders keys bytewise, and gives the same digest to the same keys. Two inputs with different sets of keys never share a digest, because equal digests let the parties skip the protocol; a key table kept from an earlier run is not reused for other data.",
 ["inputs", "configurations"],
 "all tables, key column subsets, key content, duplicates, batch sizes",
 "Tests use one table per option; digests are compared for identical inputs only.",
 ["psi/utils/table_utils.cc", "psi/utils/csv_checker.cc", "psi/utils/key.cc", "psi/legacy/bucket_psi.cc"],
 [("key table", "psi/utils/table_utils.cc"), ("duplicate check and digest", "psi/utils/csv_checker.cc"), ("sorting", "psi/utils/key.cc")],
 observe=["key files, digests, refusals"],
 technique=MON + "differential check against an in-memory model of the table", note="Adversarial keys (concatenation-equal splits, shared prefixes)." + TRUST)

prop("P23", "Progress reports are monotone, bounded and complete",
 "A progress reading never moves backwards within a task tree whose children only advance, always stays between 0 and 100, equals the weighted combination of what the sub tasks reported, reaches 100 when all sub tasks are done, and names the sub task in hand with its position and total. Readers running concurrently with reporters never see a torn or inconsistent state.",
 ["inputs", "schedules", "histories"],
 "all task trees, weights, sequences of reports and concurrent readers",
 "Tests walk two fixed trees sequentially.",
 ["psi/utils/progress.cc", "psi/utils/progress.h"],
 [("weighted aggregation", "psi/utils/progress.cc")],
 state=[("progress node", "own percentage, weights, finished and current children", "psi/utils/progress.h")],
 observe=["progress readings"],
 technique="runtime monitoring: ASan+UBSan and ThreadSanitizer builds, reference model compared at every report",
 note="Random trees and op sequences; concurrent readers under ThreadSanitizer.")

prop("P24", "Lattice arithmetic is exact",
 "The modular arithmetic, number-theoretic transforms, residue-number composition and polynomial-matrix operations behind lattice-based private retrieval give the mathematically exact result for every reduced input; transforms invert each other and turn products of polynomials into pointwise products, and serialisation of matrices and parameters is lossless.",
 ["inputs", "configurations"],
 "all moduli and degrees supported, all reduced operands",
 "Tests use a few random operands.",
 ["psi/algorithm/spiral/arith/arith.h", "psi/algorithm/spiral/arith/arith_params.cc", "psi/algorithm/spiral/arith/ntt.cc", "psi/algorithm/spiral/arith/ntt_table.cc", "psi/algorithm/spiral/arith/number_theory.cc", "psi/algorithm/spiral/poly_matrix.cc", "psi/algorithm/spiral/poly_matrix_utils.cc", "psi/algorithm/spiral/serialize.cc", "psi/algorithm/spiral/util.cc", "psi/algorithm/spiral/gadget.cc"],
 [("Barrett reduction", "psi/algorithm/spiral/arith/arith.h"), ("negacyclic transform", "psi/algorithm/spiral/arith/ntt.cc")],
 observe=["results of each operation"],
 technique=MON + "results compared with 128-bit schoolbook arithmetic", note="Operands include 0, q-1 and values near word limits.")

prop("P25", "Private retrieval returns the queried row",
 "For every database and every row index, the response to a query decrypts to exactly that row's content, for every row size, database size and supported parameter set, through the in-memory and the serialised interfaces.",
 ["inputs", "configurations"],
 "all databases, row sizes, indices",
 "Tests query one or two random rows of random data.",
 ["psi/algorithm/spiral/spiral_server.cc", "psi/algorithm/spiral/spiral_client.cc", "psi/algorithm/pir_interface/pir_db.cc", "psi/algorithm/spiral/params.cc"],
 [("query expansion and folding", "psi/algorithm/spiral/spiral_server.cc"), ("decoding", "psi/algorithm/spiral/spiral_client.cc")],
 observe=["decoded rows"],
 technique=MON + "retrieved rows compared with the database", note="Edge indices (first, last, block boundaries) always included.")

prop("P26", "Experimental retrieval schemes return the queried entry",
 "For every database and index the experimental retrieval schemes return exactly the stored entry, also over many successive queries, repeated indices and hint refreshes.",
 ["inputs", "histories"],
 "all databases, indices and query sequences within the schemes' query budget",
 "Tests query a handful of indices.",
 ["experiment/pir/simplepir/client.cc", "experiment/pir/simplepir/server.cc", "experiment/pir/pps/client.cc", "experiment/pir/pps/server.cc", "experiment/pir/pps/ggm_pset.cc", "experiment/pir/piano/client.cc", "experiment/pir/piano/server.cc"],
 [("matrix scheme", "experiment/pir/simplepir/client.cc"), ("puncturable sets", "experiment/pir/pps/ggm_pset.cc"), ("hint refresh", "experiment/pir/piano/client.cc")],
 observe=["retrieved entries"],
 technique=MON + "retrieved entries compared with the database over query histories", note="Small parameters so that many histories fit." + TRUST)

prop("P27", "Keyed-retrieval tables convert and store losslessly",
 "Turning a table into padded key-value form and back yields every key's label columns exactly, whatever the label lengths and contents (except the two reserved separator bytes and line breaks); result files carry the keys, labels and counts of the request unchanged under one header; and a keyed database divided into groups and buckets holds each source record exactly once, in the bucket its key selects, also after reopening it or after interrupted generations that were repeated.",
 ["inputs", "crash_points", "configurations"],
 "all tables, key and label columns, label lengths and contents, bucket and group counts, worker counts, kill points of the generation",
 "Tests convert one table and build one small database.",
 ["psi/utils/csv_converter.cc", "psi/wrapper/apsi/utils/common.cc", "psi/wrapper/apsi/utils/csv_reader.cc", "psi/wrapper/apsi/utils/group_db.cc"],
 [("padding and concatenation", "psi/utils/csv_converter.cc"), ("result files", "psi/wrapper/apsi/utils/common.cc"), ("group and bucket files", "psi/wrapper/apsi/utils/group_db.cc")],
 observe=["tables converted", "rows restored", "result files compared", "records stored", "generations killed"],
 technique=MON + "round-trip oracle over files; process kills during generation", note="Label contents avoid the documented reserved characters; the APSI engine is replaced by a plain record store." + TRUST)

prop("P28", "A failed peer or link ends the run with an error, not a wrong result",
 "If the link breaks, a party stops or storage fills up at any point of a run, every party that still waits ends with an error in bounded time; none reports success with a wrong or partial result.",
 ["crash_points", "fault_sequences", "configurations"],
 "every message index, either party, every protocol",
 "No test breaks the link.",
 ["psi/interface.cc", "psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/rr22/rr22_utils.cc", "psi/utils/sync.h", "psi/algorithm/kkrt/kkrt_psi.cc"],
 [("waiting together", "psi/utils/sync.h"), ("pipeline of buckets", "psi/algorithm/rr22/rr22_utils.cc")],
 observe=["outcome of every party, output files"],
 technique=MON + "fault injection at message indices, outcome monitor with deadline", note="Bounded time means: after the transport has told the party of the failure." + TRUST)

prop("P29", "Concurrent work is free of data races",
 "Parallel stages inside one party (masking, comparison, bucket pipeline, hashing, decoding) and independent jobs in one process never access shared data without synchronisation, and give the same result as when run one after the other.",
 ["schedules"],
 "all interleavings of the internal threads, and of concurrent jobs in one process",
 "Tests run without a race detector.",
 ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/rr22/rr22_utils.cc", "psi/utils/resource_manager.cc", "psi/cryptor/ipp_ecc_cryptor.cc", "psi/utils/ec_point_store.cc", "psi/utils/progress.cc"],
 [("concurrent masking stages", "psi/algorithm/ecdh/ecdh_psi.cc"), ("bucket pipeline", "psi/algorithm/rr22/rr22_utils.cc"), ("shared registry", "psi/utils/resource_manager.cc")],
 observe=["race reports, results"],
 technique="runtime monitoring: ThreadSanitizer over full protocol runs with injected delays", note="Covers the interleavings that occurred, widened by delays at every message." + TRUST)

prop("P30", "Temporary data is private to a run and removed",
 "Scratch files of one run never collide with those of another run that shares the same parent folder, and after a run ends, normally or with an error, no scratch file of it remains except the result, what recovery needs, and the key summary kept beside an input declared to have unique keys.",
 ["histories", "fault_sequences", "schedules"],
 "all outcomes of runs, concurrent runs",
 "No test inspects the folders.",
 ["psi/utils/random_str.h", "psi/utils/hash_bucket_cache.cc", "psi/utils/multiplex_disk_cache.cc", "psi/utils/table_utils.cc", "psi/interface.cc", "psi/utils/ec_point_store.cc"],
 [("scoped folders", "psi/utils/multiplex_disk_cache.h")],
 observe=["folder listings before and after"],
 technique=MON + "folder listings before and after each run", note="Listings cover the temporary, working, input and output folders." + TRUST)

prop("P31", "Launcher settings reach the engines unchanged",
 "Every setting accepted by the launcher (JSON file, JSON text or kuscia task) and by the older entry points reaches the engine that executes the job with its value intact, or the job is refused; the right engine, role and rank are chosen, defaults are applied only to settings that were not given, and the engine's report or failure is what the caller sees.",
 ["configurations"],
 "all settings messages of all entry points, all parties and ranks",
 "Tests set a few fields.",
 ["psi/apps/psi_launcher/launch.cc", "psi/apps/psi_launcher/main.cc", "psi/apps/psi_launcher/kuscia_adapter.cc", "psi/interface.cc"],
 [("settings translation", "psi/apps/psi_launcher/launch.cc"), ("dispatch and link", "psi/apps/psi_launcher/main.cc"), ("kuscia tasks", "psi/apps/psi_launcher/kuscia_adapter.cc")],
 observe=["options received by recording stand-ins of the engines"],
 technique=MON + "recording stand-ins for the engines, field-by-field comparison", note="Engines are replaced by recorders of the options they are given; how an engine uses them is the subject of the other properties." + TRUST)

prop("P32", "Malformed peer data never corrupts memory",
 "Whatever bytes the peer sends in place of any protocol message, a party ends with an error or a result, without memory corruption, undefined behaviour or endless waiting.",
 ["inputs", "fault_sequences"],
 "every message of every protocol replaced by truncated, extended, bit-flipped or random bytes",
 "Tests only have honest peers.",
 ["psi/algorithm/ecdh/ecdh_psi.cc", "psi/algorithm/kkrt/kkrt_psi.cc", "psi/algorithm/rr22/rr22_psi.cc", "psi/utils/communication.cc", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_psi.cc"],
 [("message decoding and length checks", "psi/algorithm/ecdh/ecdh_psi.cc")],
 observe=["sanitizer reports, outcome"],
 technique=MON + "message mutation in the transport under ASan and UBSan", note="One or a few mutated messages per run." + TRUST)
