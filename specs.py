"""What each check runs. Case counts are per tier; a stage without a count for
a tier is skipped in it. `require` names what the monitors must have observed,
and how often, for a run to count as an answer."""
SSL_TRUST = "BoringSSL's primitives (called by the harness on its own keys) and protobuf's JSON parser are trusted as oracles"
PB_TRUST = "protobuf's JSON parser is trusted as the definition of a JSON object"
SAN = "memory errors and undefined behaviour are seen in the repository's own code only: BoringSSL, protobuf and abseil are prebuilt"
B64_OPEN = "white space, padding and non-zero trailing bits in base64url, which the decoder in use tolerates, may be accepted or rejected"
CLOCK = "the clock the cache reads is replaced by a virtual one, by interposing the clock functions of libc"

VERIFY_RULE = ("case = random key set (0-6 keys of all types and import routes, kid/alg absent, equal or different, malformed entries) x "
               "token signed with one of 13 algs by one of ~30 keys x one of 30 changes; judged by an independent verdict; ")
PARSE_RULE = ("case = token rendered from a random header and payload, whole or with 1-4 injected defects or text mutations, and, in the fuzz stage, "
              "coverage-guided inputs; judged by an independent parser; ")
LRU_RULE = ("case = random history of 10-80 cache operations (3-8 keys, sizes 0-4, pins held across operations, virtual clock), compared with a reference model after every operation, "
            "with the callback, the counters and the iteration observed; ")


def lru(note, quick, require, **kw):
    return dict(level="exploration", rule=LRU_RULE + note, stages=[dict(harness="h_lru", lib=False, extra=["lru_part%d.cc" % i for i in range(7)], quick=quick, thorough=quick * 20)],
                require=require, assumptions=[CLOCK], **kw)


SPECS = {
    "C01": dict(level="exploration", rule=VERIFY_RULE + "non-trivial: distinct (token, set) pairs no key of which has a valid signature, plus all single-bit changes and prefixes of the signature in sweeps",
                stages=[dict(harness="h_verify", quick=9000, thorough=160000)],
                require={"oracle:invalid": 1000, "oracle:valid": 100, "sweep:sig-bit": 1000, "change:hmac-public": 20, "change:cross-curve": 5},
                assumptions=[SSL_TRUST, SAN, "PSS signatures with another salt length than the digest's are left open"]),
    "C02": dict(level="exploration", rule=VERIFY_RULE + "non-trivial: distinct (token, set) pairs of which some eligible key has a valid signature",
                stages=[dict(harness="h_verify", quick=20000, thorough=300000)], require={"oracle:valid": 1000, "sig_with_zero_edge": 10, "rsa_sig_leading_zero": 5, "ec_edge_signatures": 100},
                assumptions=[SSL_TRUST, SAN]),
    "C03": dict(level="exploration", rule=VERIFY_RULE + "compared with each key alone, 4 permutations, repetition, extension by rejecting keys; non-trivial: distinct (token, set of 2 or more)",
                stages=[dict(harness="h_verify", quick=16000, thorough=240000)], require={"accepted_sets": 500, "rejected_sets": 500},
                assumptions=[SAN]),
    "C04": dict(level="exploration", rule=PARSE_RULE + "non-trivial: distinct tokens",
                stages=[dict(harness="h_parse", quick=120000, thorough=4000000), dict(harness="h_fuzz", flavor="fuzz", quick=80000, thorough=4000000)],
                require={"oracle:accept": 5000, "oracle:reject": 5000, "ast_compared": 2000, "fuzz:oracle:accept": 500, "fuzz:oracle:reject": 500},
                assumptions=[PB_TRUST, SAN, B64_OPEN]),
    "C05": dict(level="exploration", rule=PARSE_RULE + "non-trivial: distinct tokens with a defect",
                stages=[dict(harness="h_parse", quick=120000, thorough=4000000), dict(harness="h_fuzz", flavor="fuzz", quick=80000, thorough=4000000)],
                require={"defect:%d" % d: 20 for d in range(4, 23)},
                assumptions=[PB_TRUST, SAN, B64_OPEN, "where a token has several defects, any one of them may be named"]),
    "C06": dict(level="exploration", rule="case = history of 6-30 parses, copies, assignments, self-assignments and parses of a part of the object itself over 3 token objects, each state compared field by field and by verdict with a fresh object; non-trivial: distinct histories",
                stages=[dict(harness="h_parse", quick=16000, thorough=400000)],
                require={"nested": 200, "state:failed": 1000, "state:parsed": 1000, "state:verified": 500}, assumptions=[SAN]),
    "C07": dict(level="exploration", rule="case = (nbf, exp) from boundary and random 64-bit values x a grid of now and skew around them, judged in 128-bit arithmetic, in the object and through verification; non-trivial: distinct (nbf, exp, now, skew)",
                stages=[dict(harness="h_small", quick=6000, thorough=200000)],
                require={"want:ok": 1000, "want:expired": 1000, "want:notyet": 1000, "through_verifyJwt": 100}, assumptions=[SAN]),
    "C08": dict(level="exploration", rule="case = configured and token audience lists from hostile pieces (schemes, slashes, case, NUL, prefixes), judged by an own normalisation; non-trivial: distinct pairs of lists",
                stages=[dict(harness="h_small", quick=12000, thorough=400000)],
                require={"want:allowed": 500, "want:refused": 500}, assumptions=[SAN]),
    "C09": dict(level="exploration", rule="case = overload x each combination of failing signature, not-before, expiry and audience checks under a virtual wall clock; non-trivial: distinct (overload, token, set, time, audiences)",
                stages=[dict(harness="h_entry", quick=60000, thorough=2000000)], require={"%s:failing=%d" % (o, m): 100 for o, n in (("withoutTimeChecking", 2), ("systemTime", 4), ("givenTime", 4), ("givenTimeAndSkew", 4), ("systemTimeAndAudiences", 8), ("givenTimeAndAudiences", 8)) for m in range(n)},
                assumptions=[SAN, "the system clock is replaced by interposing the clock functions of libc"]),
    "C10": dict(level="exploration", rule="case = JWKS document of 0-8 entries, each a key of the harness in one of many forms or with injected defects, or a document-level defect; keys compared by order, fields and key material; non-trivial: distinct documents",
                stages=[dict(harness="h_import", quick=80000, thorough=2000000)],
                require={"entry:ok:RSA": 500, "entry:ok:EC": 500, "entry:ok:OKP": 200, "entry:ok:oct": 200}, assumptions=[SSL_TRUST, SAN, B64_OPEN]),
    "C11": dict(level="exploration", rule="case = PEM of one of the harness's keys or a broken one, x509 map, or sequence of additions to a set; non-trivial: distinct inputs",
                stages=[dict(harness="h_import", quick=80000, thorough=2000000)],
                require={"pem:RSA": 200, "pem:EC": 200, "pem:OKP": 200, "pem:bad": 200, "x509:good": 200, "x509:bad-cert": 100, "add:good": 200, "add:bad": 200},
                assumptions=[SSL_TRUST, SAN]),
    "C12": dict(level="exploration", rule="case = batch of 2-5 tokens, 1-4 documents, PEMs, audiences and names, generated hostile and mutated, passed to every entry point and to each other (ASan, UBSan; part of them under valgrind), and coverage-guided inputs for 10 entry points; non-trivial: distinct batches and inputs",
                stages=[dict(harness="h_hostile", quick=12000, thorough=400000), dict(harness="h_fuzz", flavor="fuzz", quick=120000, thorough=8000000, hang_s=150),
                        dict(harness="h_hostile", flavor="plain", quick=120, thorough=4000, wrap=["valgrind", "-q", "--error-exitcode=42", "--exit-on-first-error=yes"], hang_s=400)],
                require={"calls": 100000, "giant": 10, "fuzz:mode0": 100, "fuzz:mode2": 100, "fuzz:mode5": 100},
                assumptions=[SAN, "uninitialised data is seen by valgrind, in the smaller stage, and where it changes a result"]),
    "C13": dict(level="exploration", rule="case = batch of hostile and well-formed inputs through every entry point, the error queue looked at after each call, the allocator's byte count compared over repetitions; and calls under allocation failures; non-trivial: distinct batches and faults",
                stages=[dict(harness="h_hostile", quick=4800, thorough=100000), dict(harness="h_fault", quick=1600, thorough=30000)],
                require={"calls": 40000, "growth_windows": 8, "faulted_calls": 20000},
                assumptions=["memory is counted by AddressSanitizer's allocator, whoever allocates it"]),
    "C14": dict(level="exploration", rule="case = plan of calls by 2-8 threads over shared tokens, key sets and audience checkers and private objects, run by one thread in a fresh process and by all in another, under ThreadSanitizer with injected delays, and at full speed; non-trivial: distinct orders of call starts with overlapping calls",
                stages=[dict(harness="h_conc", flavor="tsan", quick=1200, thorough=16000), dict(harness="h_conc", flavor="plain", quick=3000, thorough=60000)],
                require={"overlapping_pairs": 1000, "overlap:verify+verify": 50, "overlap:parse-and-verify+parse-and-verify": 20, "cold_cases": 100},
                assumptions=["races are seen in the repository's code and in the header code compiled into it; BoringSSL, protobuf and abseil are prebuilt",
                             "synchronisation inside abseil's prebuilt mutex would not be seen"]),
    "C15": dict(level="fault_enumeration", rule="case = import or verification; each crypto allocation it makes (thinned beyond 400) fails alone and with all later ones; non-trivial: distinct (call, failing allocation, mode)",
                stages=[dict(harness="h_fault", quick=2400, thorough=60000)],
                require={"faults:single": 20000, "outcome:failed": 10000, "calls:import-x509": 20, "calls:add-pem": 20},
                assumptions=["allocations are failed through BoringSSL's allocation hooks, in processes where the crypto library is already initialised", SAN]),
    "C16": dict(level="exploration", rule="case = random JSON object and dotted names (present, absent, through scalars, empty parts), all lookups, judged by a walk over the object; non-trivial: distinct (object, name)",
                stages=[dict(harness="h_small", quick=120000, thorough=4000000)],
                require={"Get%s:%s" % (t, o): 50 for t in ("String", "Double", "UInt64", "Boolean", "StringList", "Value") for o in ("OK", "MISSING")},
                assumptions=[SAN]),
    "C17": dict(level="exploration", rule="every status code the header declares; non-trivial: distinct codes", exhaustive=True,
                stages=[dict(harness="h_small", quick=1, thorough=1, shards=1)], require={"codes": 50}, assumptions=[]),
    "C18": dict(level="exploration", rule=VERIFY_RULE + "non-trivial: distinct rejected (token, set) pairs",
                stages=[dict(harness="h_verify", quick=16000, thorough=240000)],
                require={"expect:mismatch": 100, "expect:ed-length": 20, "expect:fail": 200, "expect:fail-or-mismatch": 50},
                assumptions=[SSL_TRUST, SAN]),
    "C20": lru("non-trivial: distinct histories", 80000, {"evictions": 1000, "deferred_disposals": 1000, "replacements": 1000}),
    "C21": lru("non-trivial: distinct histories", 80000, {"evictions": 1000, "deferred_seen": 500, "replacements": 1000}),
    "C22": lru("non-trivial: distinct histories", 80000, {"evictions": 1000, "self_evictions": 100}),
    "C23": lru("non-trivial: distinct histories", 80000, {"deferred_seen": 1000}),
    "C24": lru("non-trivial: distinct histories", 80000, {"expired": 1000, "expired_in_use": 50}),
    "C25": lru("with plain and no-order-update lookups overlapping on the same entries and switches of the eviction mode; non-trivial: distinct histories", 80000,
               {"overlapping_pins": 1000, "mode_switches": 500}),
    "C27": dict(level="exploration", rule="case = plan of calls of all kinds and near copies of them, run for the first time in a forked process under a seccomp filter; non-trivial: distinct plans",
                stages=[dict(harness="h_pure", flavor="plain", quick=4000, thorough=200000)],
                require={"calls": 20000, "filtered_processes": 3000}, assumptions=["system calls for memory, clocks, random bytes and locks are not effects"]),
    "C28": dict(level="exploration", rule="case = plan of calls of all kinds and near copies of them, each made in a fresh process and, repeatedly, in a process with a long history and a disturbed environment; non-trivial: distinct plans",
                stages=[dict(harness="h_pure", flavor="plain", quick=4000, thorough=200000)],
                require={"compared": 20000, "fresh_processes": 10000}, assumptions=["the calls that read the system clock are decided by C09"]),
    "C29": dict(level="exploration", rule="case = 1-6 caches used by 2-6 threads in four rounds under a virtual clock, each cache under a lock of its own or used by one thread, under ThreadSanitizer with injected delays, and at full speed; all calls logged with what they showed, and made again by one thread in a fresh process; non-trivial: distinct logs with several caches or handovers between threads",
                stages=[dict(harness="h_lruconc", flavor="tsan", lib=False, quick=2400, thorough=40000), dict(harness="h_lruconc", flavor="plain", lib=False, quick=6000, thorough=200000)],
                require={"handovers_between_threads": 100000, "shared_caches": 5000, "caches_of_one_thread": 5000},
                assumptions=[CLOCK, "time stands still while several threads run", "races are seen in the cache's own header code and in the container code compiled with it"]),
    "C19": dict(level="exploration", rule="case = random family of inputs (tokens, key documents, key sets, audience lists, claim names, histories of a cache) at two sizes a factor of 10 to 16 apart, the work on both counted exactly; non-trivial: distinct families and sizes",
                stages=[dict(harness="h_work", flavor="cov", quick=4000, thorough=60000)],
                require={"family:" + f: 100 for f in ("parse", "import", "verify", "audience", "claims", "cache")},
                assumptions=["work inside BoringSSL and protobuf is seen only as allocations, copies and comparisons", "growth by up to 2.5 times the growth of the input is not told from proportional growth"]),
    "C26": dict(level="exploration", rule="case = HMAC token and key set x about 60 to 200 wrong signatures of the right length, the courses of their verification compared; non-trivial: distinct (token, set)",
                stages=[dict(harness="h_work", flavor="cov", quick=2400, thorough=60000)],
                require={"compared": 50000, "traces:HS256": 5000, "traces:HS384": 5000, "traces:HS512": 5000},
                assumptions=["the course is that of the repository's code and of libc's memory functions; BoringSSL's constant-time comparison is trusted", "instructions whose own duration depends on their operands are not seen"]),
}
