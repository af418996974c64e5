"""What each property's check runs: binaries, scenarios, case counts."""
H = "harness/vh.cc"

def job(bin, scn, quick, thorough=None, **kw):
    d = {"bin": bin, "roots": ["harness/%s.cc" % bin], "scn": scn, "quick": quick}
    if thorough: d["thorough"] = thorough
    roots = kw.pop("roots", None)
    if roots: d["roots"] = d["roots"] + roots
    d.update(kw)
    return d

OPS = ["repo:psi/legacy/nparty_psi.cc", "repo:psi/legacy/dp_2party_psi.cc", "repo:psi/legacy/kkrt_2party_psi.cc",
       "repo:psi/legacy/ecdh_3party_psi.cc", "repo:psi/algorithm/ecdh/ecdh_operator.cc",
       "repo:psi/algorithm/kkrt/kkrt_operator.cc", "repo:psi/algorithm/rr22/rr22_operator.cc"]
PLAIN = ["input tables have a header and at least one row, no BOM, and keys without quotes, commas or line breaks unless a recorded finding says otherwise"]

SPECS = {
    "P01": {
        "jobs": [job("h_psi", "exact", 1200, 20000)],
        "rule": "random key sets (disjoint, identical, subset, random overlap; duplicates; 1-400 rows) times protocol, curve, batch or bucket size, broadcast, ranks; distinct by settings and content hash.",
        "must_observe": ["outputs compared", "intersection keys", "parties without result", "aligned outputs"],
        "assumptions": PLAIN,
    },
    "P02": {
        "jobs": [job("h_psi", "join", 700, 20000), job("h_psi", "quoting", 5, 5)],
        "rule": "random table pairs times join type, left side, null text, alignment, uniqueness, payload columns, column orders, blank lines; distinct by settings and content hash.",
        "must_observe": ["outputs compared", "output rows compared", "aligned outputs", "quoting forms tried"],
        "assumptions": PLAIN,
    },
    "P03": {
        "jobs": [job("h_psi", "counts", 350, 10000)],
        "rule": "random table pairs with duplicates, all joins and protocols, each run twice; distinct by settings and content hash.",
        "must_observe": ["reports checked", "reruns compared", "parties without result"],
        "assumptions": PLAIN,
    },
    "P22": {
        "jobs": [job("h_table", "keys", 600, 15000, roots=OPS), job("h_table", "digest", 800, 20000, roots=OPS),
                 job("h_table", "checker", 100, 2000, roots=OPS), job("h_table", "sort", 500, 10000, roots=OPS),
                 job("h_table", "again", 300, 5000, roots=OPS), job("h_table", "filter", 1000, 20000, roots=OPS)],
        "rule": "random tables (duplicates, several key columns, quoting, blank lines) and confusable key-set pairs; distinct by content hash.",
        "must_observe": ["keys read back", "rows filtered", "equal key sets compared", "different key sets compared",
                         "inputs refused", "inputs accepted", "rows sorted", "second preparations compared", "rows selected"],
        "assumptions": PLAIN,
    },
    "P23": {
        "jobs": [job("h_progress", "sequential", 2000, 40000),
                 job("h_progress", "concurrent", 400, 8000),
                 job("h_progress", "concurrent", 300, 4000, san="tsan")],
        "rule": "random report trees and op sequences; concurrent reporters with polling readers (ASan and TSan builds). A case is non-trivial when it reports at least once; distinct by its op trace or parameters.",
        "must_observe": ["progress reports compared", "concurrent reads", "completed trees"],
    },
    "P11": {
        "jobs": [job("h_dp_utils", "epsilon", 800, 20000), job("h_dp_utils", "gaussian", 2000, 40000)],
        "rule": "random set sizes, budgets, deltas and sensitivities; distinct by the drawn parameters.",
        "must_observe": ["privacy budgets solved", "calibrations above threshold", "calibrations below threshold"],
    },
    "P15": {
        "jobs": [job("h_store", "messages", 6000, 100000)],
        "rule": "random instances of every exchanged message type, with truncations and flips; distinct by content parameters.",
        "must_observe": ["messages round-tripped", "damaged messages decoded"],
    },
    "P18": {
        "jobs": [job("h_store", "cuckoo", 4000, 60000)],
        "rule": "random item sets, sizes and insertion splits; distinct by parameters.",
        "must_observe": ["cuckoo inputs located"],
    },
    "P19": {
        "jobs": [job("h_store", "buckets", 1500, 20000), job("h_store", "match", 1200, 20000)],
        "rule": "random record sets and bucket counts through memory and disk stores; distinct by parameters.",
        "must_observe": ["bucketed items", "matches expected", "cache stores compared"],
    },
    "P20": {
        "jobs": [job("h_store", "batches", 2500, 40000), job("h_store", "csv_batches", 2500, 40000)],
        "rule": "random files, columns and batch sizes through every reader; distinct by parameters.",
        "must_observe": ["shuffled rows delivered", "csv rows read"],
    },
    "P21": {
        "jobs": [job("h_store", "index", 2500, 40000)],
        "rule": "random write/commit/abandon histories; distinct by parameters.",
        "must_observe": ["indexes read back", "commits read back"],
    },
    "P04": {
        "jobs": [job("h_fault", "recover", 260, 6000, case_timeout=90), job("h_fault", "changed", 130, 3000, case_timeout=90)],
        "rule": "random jobs with recovery on, 1-3 crashes (a storage or network operation throws, the whole process exits at an operation, the link breaks) at random operations, then a resume, on the same or a changed task; distinct by settings, data hash and fault list.",
        "must_observe": ["resumed runs", "crashes", "crashes at a storage operation", "failures", "outputs compared", "changed resumes refused"],
        "assumptions": PLAIN,
    },
    "P24": {
        "jobs": [job("h_spiral", "scalars", 400, 20000), job("h_spiral", "polys", 500, 20000)],
        "rule": "random and boundary operands (0, 1, q-1, powers of two, word limits) for every scalar routine against 128-bit integers; random polynomials and matrices of degree 16-2048 over several modulus sets against schoolbook products; distinct by parameters and seed.",
        "must_observe": ["scalar operations", "packings compared", "transforms compared", "products compared", "matrix operations", "gadget decompositions", "encodings compared", "samplers checked"],
        "assumptions": ["the number type Modulus (value, bit count, Barrett constant) comes from a stand-in for the SEAL library"],
    },
    "P25": {
        "jobs": [job("h_spiral", "retrieve", 40, 1500, case_timeout=240)],
        "rule": "random databases of 1-12 plaintexts' worth of rows of 1-20000 bytes, every shipped parameter set, through objects, buffers, strings and dumped-and-loaded servers; first, last, boundary and random rows are queried; distinct by settings.",
        "must_observe": ["rows retrieved", "loaded databases", "queries re-encoded", "rows in several pieces"],
        "assumptions": ["decoding is correct with overwhelming probability for the shipped parameter sets; no case below has been seen to fail from noise"],
    },
    "P26": {
        "jobs": [job("h_expir", "simple", 250, 8000), job("h_expir", "pps", 90, 3000), job("h_expir", "piano", 200, 4000),
                 job("h_expir", "piano", 60, 1500, san="tsan")],
        "rule": "random databases, moduli, set sizes, thread counts and query sequences (sequential, repeated, concentrated, random) over an in-process transport; distinct by settings.",
        "must_observe": ["simplepir entries", "pps entries", "hints refreshed", "piano entries", "repeated queries"],
        "assumptions": ["simplepir moduli leave room for the noise of one row", "a pps query may end in an announced abort (rate bounded), never in a wrong bit"],
    },
    "P27": {
        "jobs": [job("h_keyed", "convert", 220, 6000), job("h_keyed", "groups", 220, 6000, case_timeout=120)],
        "rule": "random tables (column counts, contents with quotes, commas, blanks and multi-byte text, label lengths, repeated keys), bucket and group counts, direct, by worker processes, reopened, or killed and repeated; distinct by settings and data hash.",
        "must_observe": ["tables converted", "rows restored", "count tables compared", "result files compared", "databases built", "records stored", "databases reopened", "generated by worker processes", "generations killed"],
        "assumptions": PLAIN + ["the APSI engine behind the stored buckets is replaced by a plain store of the records it is given"],
    },
    "P28": {
        "jobs": [job("h_fault", "kill", 300, 8000, case_timeout=60), job("h_fault", "full", 150, 4000, case_timeout=120)],
        "rule": "random jobs, each run clean and then with faults injected at random operations (one rank's link, both links, a single throwing operation), or with a limit on the size of every file written; distinct by settings, data hash and fault list.",
        "must_observe": ["outputs compared", "failed runs", "faults that hit", "runs failed on a full disk", "runs that fitted"],
        "assumptions": PLAIN,
    },
    "P05": {
        "jobs": [job("h_peer", "mismatch", 600, 12000), job("h_peer", "invalid", 500, 8000)],
        "rule": "random jobs with one or two settings of one side changed (every field of the settings), and jobs with one side's settings invalid; distinct by settings, data hash and changed fields.",
        "must_observe": ["differences refused", "local differences accepted", "invalid settings refused"],
        "assumptions": PLAIN,
    },
    "P06": {
        "jobs": [job("h_peer", "secrecy", 330, 6000), job("h_peer", "shape", 260, 5000)],
        "rule": "random jobs run twice with every message recorded and searched; triples of jobs that differ in the overlap only; distinct by settings and data hash.",
        "must_observe": ["messages searched", "forms searched for", "protected windows compared", "overlaps compared", "parties without result"],
        "assumptions": PLAIN,
    },
    "P30": {
        "jobs": [job("h_peer", "temps", 300, 6000)],
        "rule": "1-4 jobs at once (often over the same data), one of them sometimes broken at a random operation, then all folders listed; distinct by settings, data hash and fault.",
        "must_observe": ["runs inspected", "failed runs cleaned up", "outputs compared"],
        "assumptions": PLAIN,
    },
    "P07": {
        "jobs": [job("h_ub", "history", 400, 4000), job("h_ub", "interrupted", 500, 5000, case_timeout=90)],
        "rule": "random histories of generation, transfer, offline, full and online phases with changing server tables, keys, client tables, joins and result sides; phases cut short at a random operation and continued or repeated; distinct by history and data hash.",
        "must_observe": ["online phases judged", "generations", "transfers", "offline phases", "full runs", "interruptions", "interruptions at a storage operation", "repeated phases judged", "stale caches tried"],
        "assumptions": PLAIN,
    },
    "P08": {
        "jobs": [job("h_ub", "threshold", 500, 4000), job("h_ub", "history_capped", 300, 3000)],
        "rule": "random balanced jobs and unbalanced histories with thresholds around the number of common keys; distinct by settings and data hash.",
        "must_observe": ["results above the threshold", "results at the threshold", "results within the threshold", "capped outputs compared", "count files checked"],
        "assumptions": PLAIN,
    },
    "P09": {
        "jobs": [job("h_multi", "memory", 250, 6000, roots=["harness/world.cc"] + OPS), job("h_multi", "nty", 900, 20000, roots=["harness/world.cc"] + OPS),
                 job("h_multi", "kmprt", 110, 2500, roots=["harness/world.cc"] + OPS)],
        "rule": "random families of 3 to 8 sets (common to all, to some parties only, disjoint, nested) times protocol, leader or receiver rank, delivery timing; distinct by settings and data hash.",
        "must_observe": ["results compared", "common items", "parties without result"],
    },
    "P10": {
        "jobs": [job("h_dp", "accounting", 500, 15000, roots=["harness/world.cc"] + OPS), job("h_dp", "operator", 500, 15000, roots=["harness/world.cc"] + OPS)],
        "rule": "random set pairs, sampling rates, budgets, curves and roles; distinct by the drawn parameters.",
        "must_observe": ["dp runs accounted for", "common items output", "added items output", "exact intersections", "nothing to hide among",
                         "rates checked on large sets", "operator results compared", "exact operator results"],
    },
    "P12": {
        "jobs": [job("h_legacy", "lists", 700, 15000, roots=["harness/world.cc"] + OPS), job("h_legacy", "files", 700, 15000, roots=["harness/world.cc"] + OPS)],
        "rule": "random item lists and files times protocol, curve, bucket size, receiver, broadcast, precheck, sort; distinct by settings and data hash.",
        "must_observe": ["results compared", "outputs compared", "output rows", "reports checked", "repeated keys refused", "sorted outputs",
                         "equal inputs", "progress readings", "parties without result"],
        "assumptions": PLAIN + ["file keys have no blanks at either end (the CSV reader the stand-in replaces strips them)"],
    },
    "P13": {
        "jobs": [job("h_crypto", "mask", 350, 8000), job("h_crypto", "exchange", 50, 1000), job("h_crypto", "concurrent", 60, 1500),
                 job("h_crypto", "concurrent", 60, 1000, san="tsan", case_timeout=120)],
        "rule": "random item lists, sizes and key pairs for every masking engine and curve, one at a time, in bulk, in batches and from several threads; distinct by engine, sizes and data hash.",
        "must_observe": ["points masked", "bulk against single", "double masks compared", "points checked on the named curve",
                         "implementations compared", "keys agreed", "points masked concurrently"],
    },
    "P14": {
        "jobs": [job("h_crypto", "elligator", 650, 12000)],
        "rule": "random byte strings (empty, long, near-identical) and domain tags through every hash-to-curve routine, against an independent computation with OpenSSL big numbers; distinct by input and tag.",
        "must_observe": ["points compared with the reference", "group membership checked", "variations compared", "tags refused", "cryptor points checked"],
    },
    "P17": {
        "jobs": [job("h_oprf", "rr22", 1500, 40000), job("h_oprf", "mock", 200, 4000), job("h_oprf", "refused", 1, 1),
                 job("h_oprf", "ecdh", 200, 5000), job("h_oprf", "kkrt", 800, 20000)],
        "rule": "random input sets with chosen overlap for both parties of each oblivious function, times sizes, mode, code, consistency check, bins, threads, batch sizes and hash; distinct by parameters and data.",
        "must_observe": ["common items compared", "foreign items compared", "low-communication runs", "runs with the consistency check", "fast runs",
                         "correlations compared", "settings refused", "client and server values compared", "matches compared", "non-matches compared",
                         "empty inputs refused", "foreign bytes refused"],
    },
    "P16": {
        "jobs": [job("h_okvs", "paxos", 2500, 40000), job("h_okvs", "baxos", 350, 6000),
                 job("h_okvs", "algebra", 400, 8000), job("h_okvs", "matrices", 200, 4000)],
        "rule": "random key sets, weights, security parameters, dense types, value widths, bin and thread counts for the key-value stores; random matrices and field elements; distinct by parameters and key hash.",
        "must_observe": ["keys answered", "128-bit stores", "64-bit stores", "randomised stores", "foreign keys",
                         "stores in several bins", "stores in one bin", "solved by several threads",
                         "field products", "rows built", "matrices inverted", "singular matrices refused"],
    },
    "P29": {
        "jobs": [job("h_psi", "exact", 220, 4000, san="tsan", env={"VERIF_JITTER_US": "300"}, case_timeout=120),
                 job("h_peer", "temps", 110, 2000, san="tsan", env={"VERIF_JITTER_US": "300"}, case_timeout=120),
                 job("h_fault", "kill", 90, 1500, san="tsan", env={"VERIF_JITTER_US": "200"}, case_timeout=120),
                 job("h_okvs", "baxos", 40, 600, san="tsan", case_timeout=120),
                 job("h_crypto", "concurrent", 40, 800, san="tsan", case_timeout=120)],
        "rule": "random jobs under ThreadSanitizer with random delays at every link operation: single jobs, up to four at once, and jobs broken at a random operation; distinct by settings, data hash and fault list.",
        "must_observe": ["outputs compared", "runs inspected", "failed runs", "faults that hit"],
        "assumptions": PLAIN + ["the stand-ins' thread pool and link hand work between threads as the originals do"],
    },
    "P31": {
        "jobs": [job("h_launch", n, 2500, 60000, exclude=["psi/apps/psi_launcher/factory.cc", "psi/legacy/bucket_psi.cc"]) for n in ("api", "direct", "cli")],
        "rule": "random values in every field of the job messages and of the older entry points' structures, given directly, as a JSON file, as JSON text or as a kuscia task, for random parties and ranks; distinct by the whole configuration.",
        "must_observe": ["settings compared", "reports compared", "two-party jobs", "older multi-party and dp jobs", "unbalanced jobs", "launches", "kuscia tasks", "links compared", "refused", "failures reported"],
        "assumptions": ["the engines are replaced by recorders of what they are given; logging levels of keyed retrieval are the documented ones", "bucket sizes of the older multi-party protocols fit their 32-bit field"],
    },
    "P32": {
        "jobs": [job("h_peer", "hostile", 200, 6000, case_timeout=120)],
        "rule": "random jobs, each run clean and three times with 1-4 messages of one rank replaced by mutated bytes; distinct by settings, data hash and mutated positions.",
        "must_observe": ["messages changed", "parties that failed cleanly", "parties that finished"],
        "assumptions": PLAIN,
    },
}
