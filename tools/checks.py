"""The registered checks: for each property its parts, level and description."""
LEVEL_FIELDS = {
    "model_checking": {"states": "states", "transitions": "transitions", "traces_validated_against_impl": "traces"},
    "exploration": {"evaluations": "traces", "distinct_nontrivial": "states", "implementation_calls": "transitions"},
    "fault_enumeration": {"evaluations": "traces", "distinct_nontrivial": "states", "implementation_calls": "transitions"},
}

def P(kind, bin, part, **kw):
    d = dict(kind=kind, bin=bin, part=part)
    d.update(kw)
    return d

def S(bin, parts, tier, quick=(1, 2, 3), thorough=(1, 2, 3, 4)):
    """Schedule explorations, one run per pool size (the explorer uses 8 OS threads)."""
    return [P("sched", bin, p, threads=n, weight=8 if n > 1 else 4, cost=2) for n in (quick if tier == "quick" else thorough) for p in parts]

CHECKS = {}

def check(pid, level, technique, note, rule, parts, **kw):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, rule=rule, parts=parts, **kw)

check("C10", "exploration", "exhaustive bounded enumeration of transform inputs on the real code against a reference model",
      "All basis vectors of all sizes to 2^10 (2^12) (the transforms are linear), all vectors of length <= 4 over F17, dense vectors to 2^17 (2^20), every value of vectors with a closed form to 2^20 (2^22), structured dense vectors (zeros, halves, periods, symmetry), every domain length up to and beyond the field's capacity; serial build and rayon pools of 1-37 (1-70) threads.",
      "a case is one (field, element kind, size, vector); it is non-trivial because at least fft, ifft and the coset transforms run on it and every coefficient is compared with Horner evaluation; counted distinct by field/kind/size/vector key",
      lambda tier: [P("ser", "c10", p, threads=1, cost=4 if p == "large" else 3) for p in ("basis", "dense", "exhaustive", "construct", "large")]
      + [P("par", "c10", "large", threads=n, weight=min(n, 4), cost=3) for n in ((3, 8) if tier == "quick" else (1, 2, 3, 5, 8, 16))]
      + [P("par", "c10", p, threads=n, weight=min(n, 4)) for n in ((1, 2, 3, 5, 8, 16, 37) if tier == "quick" else [*range(1, 17), 24, 32, 37, 64, 70]) for p in ("basis", "dense", "construct")])

check("C11", "exploration", "exhaustive bounded enumeration of exponent vectors, density maps, offsets and faulty bases on the real code against a reference model",
      "All exponent vectors (over all of F5, over a 7-value alphabet of F12289) with all density masks, base shortages and identity positions for n <= 4/3; every exponent value of nine fields; every length across every window-size boundary up to 22027, selected ones to 2^17 (2^20), with structured bases and exponents (equal, opposite, paired, doubling); all source/density operation sequences to a depth; every single operation on the source failing by itself.",
      "a case is one (field, exponents, density map, offset, bases); counted distinct by that key; it runs the real multiexp and compares sum or error with the naive model",
      lambda tier: [P("ser", "c11", p, threads=1, cost=5, weight=2, env={"MC_THREADS": "2"}) for p in ("small", "windows")]
      + [P("ser", "c11", p, threads=1, cost=3) for p in ("values", "sequences", "curve", "errors")]
      + [P("par", "c11", p, threads=n, weight=min(n, 4)) for n in ((1, 2, 8) if tier == "quick" else (1, 2, 3, 5, 8, 16, 37)) for p in ("tiny", "winpar", "errors")])

TH = lambda n: dict(threads=1, weight=n, env={"MC_THREADS": str(n)})
check("C01", "model_checking", "explicit enumeration of circuits, witnesses, trapdoors and blindings in a finite toy pairing engine, executing the real generator, prover and verifier on every state",
      "All circuits with up to 3 variables and up to 2 constraints over a library of linear-combination shapes (repeated, zero and cancelling terms included), all allocation orders; every tau of F97/F17, every (r,s) of F17; chains to 1024 constraints; some circuits on BLS12-381. Scale: ~200 circuits around every domain size to 2^16 (2^18), combinations to 1,025 terms, thousands of variables of a kind.",
      "states are distinct (circuit, assignment, trapdoor, blinding) points of the bounded space; transitions are calls of generate_parameters/create_proof/verify_proof; traces are complete honest runs checked for acceptance",
      lambda tier: [P("ser", "c01", "one", cost=5, **TH(3)), P("ser", "c01", "two", cost=5, **TH(3)), P("ser", "c01", "three", cost=5, **TH(3)), P("ser", "c01", "chains", cost=5, **TH(1)), P("ser", "c01", "traps", cost=5, **TH(3)), P("ser", "c01", "real", **TH(1))]
      + [P("par", "c01", p, threads=n, weight=2) for n in ((1, 3, 8) if tier == "quick" else (1, 2, 3, 4, 5, 8, 16)) for p in ("chains", "real", "scale")] + [P("ser", "c01", "scale", **ONE)])

ONE = dict(threads=1)
check("C02", "model_checking", "explicit enumeration of the whole verifier state space over small prime fields on the real verifier against an independent equation oracle",
      "Every verifying key, triple and input list over F3 (0..2 inputs) and F5, F7 (0..1 inputs); every ic/input length mismatch to 5; every position of up to 40 (140) and of up to 300 (1,025) inputs; all inputs over 0, 1, -1 with every set of identity ic elements to 5 (7); small discrete logarithms over BLS12-381.",
      "a state is one (vk, proof, inputs) point; transitions are prepare_verifying_key/verify_proof calls; traces are verdicts compared with the equation evaluated on discrete logarithms",
      lambda tier: [P("ser", "c02", "all", cost=5, **TH(6)), P("ser", "c02", "lengths", **TH(2)), P("ser", "c02", "special", **TH(2)), P("ser", "c02", "real", **TH(4))])
check("C03", "model_checking", "explicit enumeration of circuits and trapdoors in a finite toy engine, executing the real generator on every state against an independent QAP model",
      "All circuits to 3 variables/2 constraints over the term library, all trapdoors of F5, all tau of F97, constraint counts around every field's limit, every failing synthesis step. Scale: ~200 circuits around every domain size to 2^16 (2^18), combinations to 1,025 terms, thousands of variables of a kind.",
      "states are distinct (circuit, trapdoor, fault) points; transitions are generate_parameters calls; traces are runs compared element by element (or error by error) with the model",
      lambda tier: [P("ser", "c03", "one", cost=5, **TH(3)), P("ser", "c03", "two", cost=5, **TH(3)), P("ser", "c03", "trapdoors", cost=5, **TH(3)), P("ser", "c03", "limits", **ONE), P("ser", "c03", "chains", **ONE)]
      + [P("par", "c03", p, threads=n, weight=2) for n in ((1, 3, 8) if tier == "quick" else (1, 2, 3, 4, 5, 8, 16)) for p in ("chains", "limits", "scale")] + [P("ser", "c03", "scale", **ONE)])
check("C04", "model_checking", "explicit enumeration of circuits, witnesses (satisfying and violating), trapdoors and blindings, executing the real prover on every state against the Groth16 definition",
      "Exact proof equality for all circuits to 3 variables/2 constraints over the term library and all (r,s,tau) of F17; violating assignments at every tau of F97; every failing synthesis step. Scale: ~200 circuits around every domain size to 2^16 (2^18), combinations to 1,025 terms, thousands of variables of a kind.",
      "states are distinct (circuit, assignment, trapdoor, blinding) points; transitions are create_proof/verify_proof calls; traces are proofs compared with the definition or judged by the root bound",
      lambda tier: [P("ser", "c04", "one", cost=5, **TH(3)), P("ser", "c04", "two", cost=5, **TH(3)), P("ser", "c04", "violating", cost=5, **TH(3)), P("ser", "c04", "traps", cost=5, **TH(3)), P("ser", "c04", "chains", **ONE)]
      + [P("par", "c04", p, threads=n, weight=2) for n in ((1, 3, 8) if tier == "quick" else (1, 2, 3, 4, 5, 8, 16)) for p in ("chains", "scale")] + [P("ser", "c04", "scale", **ONE)])
check("C05", "model_checking", "explicit enumeration of all blindings, witnesses and RNG output scripts over small fields on the real prover and generator",
      "All (r,s) and all witnesses of 6 multi-witness circuits over F17/F41; all two-draw scripts over F17/F97; all seven-draw scripts over a 3-letter alphabet.",
      "states are distinct (circuit, public input, witness) or RNG-script points; transitions are create_proof/create_random_proof/generate_random_parameters calls; traces are runs compared with the set/script oracle",
      lambda tier: [P("ser", "c05", p, **ONE) for p in ("zk", "proofs", "params")])
check("C06", "model_checking", "exhaustive enumeration of single and paired faults in the proving parameters, each on the real prover under a controlled scheduler that explores its interleavings, and on the real pool",
      "Every fault (truncation, identity, read error, extension) at every position of every query vector, single and in pairs, on several circuits; every schedule within one (thorough: two) departures from the default one for pools of 1-3 (4) workers, single provers and two provers sharing the pool, followed by an honest proof; every single operation on the sources failing by itself; serial build and rayon pools of 1-37 (1-70) threads.",
      "states are scheduling decision points plus distinct (parameters, fault) points; transitions are scheduler steps plus create_proof calls; traces are complete schedules or runs judged against the fault model (error, or the unchanged proof)",
      lambda tier: [P("ser", "c06", p, **TH(4)) for p in ("single", "pairs")] + [P("par", "c06", p, threads=n, weight=4) for n in ((1, 2, 3, 8) if tier == "quick" else (1, 2, 3, 4, 5, 8, 16)) for p in ("single", "pairs")]
      + S("s06", ("single", "two"), tier), degrade=True)
check("C12", "model_checking", "stateless exploration of all interleavings (within a departure or preemption bound) of the real FFT, multiexp, generator and prover under a controlled scheduler, plus enumeration of pool sizes and feature settings, comparing all results",
      "Scope/FFT/multiexp/generation/proving programs on pools of 1-3 (4) workers under the controlled scheduler: every schedule for the small ones, every schedule within 1-4 departures or preemptions for the others; 3200 transforms, multiexps, generations and proofs of many sizes on real pools of 1-16 and 37 (1-32, 37, 64, 70) threads and without the multicore feature, all results compared between all configurations.",
      "states are scheduling decision points plus distinct inputs; transitions are scheduler steps plus library calls; traces are complete schedules or runs compared with the reference result",
      lambda tier: S("s12", ("scope", "fft", "multiexp", "generate", "prove"), tier)
      + [P(k, "c12", p, threads=n, weight=min(n, 4)) for p in ("fft", "multiexp", "circuits") for (k, n) in [("ser", 1)] + [("par", n) for n in ((1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 37) if tier == "quick" else [*range(1, 33), 37, 64, 70])]], degrade=True)
check("C13", "model_checking", "stateless exploration of all interleavings of all small client programs of Worker/Waiter on the real code under a controlled scheduler",
      "Every script of submissions, waits and drops of up to 3 tasks by one user and 2+1 tasks by two users with every kind of task body (nested submissions, scopes, nested waits), every interleaving (Full, sleep sets) or every interleaving within a preemption/departure bound, pools of 1-3 (4) workers; programs beyond the backlog limit; after each run the accounting is probed; the same programs on real pools and the serial build.",
      "states are scheduling decision points plus client programs; transitions are scheduler steps plus submissions; traces are complete schedules (equivalent ones pruned) or runs judged for results, execution counts, deadlock, abort and accounting",
      lambda tier: S("s13", ("selftest", "limit", "one", "two", "scope", "overflow"), tier)
      + [P(k, "c13", p, threads=n, weight=2) for p in ("programs", "overflow", "log") for (k, n) in [("ser", 1)] + [("par", n) for n in ((1, 2, 3, 8) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8, 16, 37, 64, 70))]], degrade=True)
check("C07", "model_checking", "explicit enumeration of batches and of all coefficient draws over small fields on the real batch verifiers against the batch equation",
      "Every batch of up to 2 proofs with every input and every coefficient vector over F3 (1 over F5); every subset of invalid items to 6; every zero draw position; batches to 300 (1,025) items and items of up to 300 (1,025) inputs with every position wrong in every part; the multicore verifier at every coefficient of F97 for batches to 129 with every single bad item, every pair of cancelling errors over a 64-bit field, on several pool sizes and on every schedule (within a departure bound) of pools of 1-3 workers.",
      "states are distinct (key, batch, coefficient script) points; transitions are verify/verify_single/verify_multicore calls; traces are verdicts compared with the randomised equation on discrete logarithms",
      lambda tier: [P("ser", "c07", "all", cost=5, **TH(5)), P("ser", "c07", "structure", **ONE), P("ser", "c07", "large", **TH(2))] + [P("par", "c07", "multicore", threads=n, weight=2) for n in ((1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6, 8))] + S("s07", ("verify", "two"), tier), degrade=True)
check("C08", "fault_enumeration", "exhaustive enumeration of vector lengths, reader/writer chunkings and fault positions on the real serialisation code",
      "All vector-length combinations 0..3, lengths to 70000 and around 2^20, all per-call size patterns (interruptions included) to length 4, every uniform chunk size, a fault (lasting or passing) at every byte; all pairs of one-component-different objects.",
      "a case is one (object, chunking or fault position) or one pair of objects; it is non-trivial because the real read/write runs on it and every component is compared; distinct by key",
      lambda tier: [P("ser", "c08", p, **ONE) for p in ("lengths", "faults", "equality", "real")])
check("C09", "fault_enumeration", "exhaustive enumeration of malformed encodings and truncation points on the real deserialisation code",
      "Every element with every wrong tag, out-of-subgroup, identity, non-canonical and padded encoding; every byte set to every value; end of file or an error at every byte; both checking modes; BLS12-381 subgroup/identity/bit-flip cases.",
      "a case is one malformed input; it is non-trivial because it differs from a valid encoding in exactly one described way; distinct by key",
      lambda tier: [P("ser", "c09", "elements", **ONE), P("ser", "c09", "bytes", **TH(3)), P("ser", "c09", "truncation", **ONE), P("ser", "c09", "real", **ONE)])
check("C14", "model_checking", "explicit enumeration of gate programs and exhaustive exploration of all satisfying assignments of the constraints the real gadgets emit",
      "Every gate with every operand combination (constants, allocated, negated, aliased) over F3..F97, Goldilocks and BLS12-381, every program of 2 (3) operations; every satisfying assignment of the emitted constraints is enumerated and compared with the truth table.",
      "states are distinct (field, program, input vector) points; transitions are constraint propagation steps of the explorer plus synthesis runs; traces are honest runs of the real gadget replayed against the native model",
      lambda tier: [P("ser", "c14", "gates", cost=5, **TH(4)), P("ser", "c14", "sequences", cost=5, **TH(4)), P("ser", "c14", "decomp", **ONE), P("ser", "c14", "explorer", **TH(2))])
check("C15", "model_checking", "explicit enumeration of operand values and exhaustive exploration of all satisfying assignments of the constraints the real gadgets emit",
      "All operand pairs and all satisfying assignments over F3..F97 for every number gadget (aliased operands included); strict and plain bit decompositions of every element of 18 prime fields to 257 (94 below 500 in the thorough tier; all satisfying bit strings enumerated and counted) and of 7 (19) more to 12289 (65537); boundary values of Goldilocks, M61 and BLS12-381; accumulation sequences, long ones to 300 (1,025) terms.",
      "states are distinct (field, operation, operand values) points; transitions are constraint propagation steps plus synthesis runs; traces are honest runs of the real gadget replayed against the native model",
      lambda tier: [P("ser", "c15", "ops", cost=5, **TH(3)), P("ser", "c15", "bits", cost=5, **TH(3)), P("ser", "c15", "bits-big", cost=4, **TH(2)), P("ser", "c15", "acc", **TH(2))]
      + ([P("ser", "c15x", "wide", cost=6, **TH(4))] if tier == "thorough" else []))
check("C16", "model_checking", "explicit enumeration of word programs, operand kinds and values and exhaustive exploration of all satisfying assignments of the emitted constraints",
      "xor/ch/maj with every combination of bit kinds, all rotations and shifts, additions of 2 to 10 operands at every extreme over Goldilocks and BLS12-381; for fixed operand bits every satisfying assignment is enumerated exactly (linear packed constraints over the integers, all wraps of the modulus).",
      "states are distinct (field, program, operand values) points; transitions are constraint propagation steps plus synthesis runs; traces are honest runs of the real gadget replayed against native u32 arithmetic",
      lambda tier: [P("ser", "c16", "bitwise", cost=5, **TH(3)), P("ser", "c16", "shifts", cost=5, **TH(2)), P("ser", "c16", "adds", cost=5, **TH(3)), P("ser", "c16", "adds-bls", cost=5, **TH(3))])

check("C17", "model_checking", "explicit enumeration of width sequences and of every in-width assignment against the constraints the real accumulator emits",
      "All width sequences to 7-9 total bits over F5, F11, F17, F97, F193, F257 with every in-width assignment; boundary-crossing sequences of Goldilocks, M61, F12289 and BLS12-381 with exact enumeration of the unknown side; all pass-through operation sequences to depth 5.",
      "states are in-width assignments of distinct width sequences; transitions are constraint evaluations or propagation steps; traces are syntheses through the real MultiEq compared with the individual equalities",
      lambda tier: [P("ser", "c17", "direct", cost=3, **TH(3)), P("ser", "c17", "exact", cost=3, **TH(3)), P("ser", "c17", "through", **TH(2))])
check("C18", "model_checking", "explicit enumeration of bit-kind strings and lengths with exploration of all satisfying assignments of the constraints the real packing emits",
      "All kind strings to length 4 (5), every length to three chunks and selected ones to many chunks over nine fields, all bit strings to length 14 and long ones natively, all byte strings to length 2 and long ones.",
      "states are distinct (field, kind string or length, values) points; transitions are propagation steps plus packings; traces are honest packings compared with the native model",
      lambda tier: [P("ser", "c18", "kinds", **TH(2)), P("ser", "c18", "lengths", **TH(3)), P("ser", "c18", "native", cost=2, **ONE), P("ser", "c18", "bytes", **ONE)])
check("C19", "model_checking", "explicit enumeration of tables and selections with exploration of all satisfying assignments of the constraints the real lookups emit",
      "All 8-entry and 4-entry table columns over F3 (and F5, F7, F97 alphabets), all 512 selections by constant, allocated, negated and aliased bits on 4-20 tables over F3, F17, Goldilocks and BLS12-381.",
      "states are distinct (field, table, selection kind, truth assignment) points; transitions are propagation steps plus lookups; traces are honest lookups compared with the table",
      lambda tier: [P("ser", "c19", "tables", **TH(4)), P("ser", "c19", "selections", **TH(4))])
check("C20", "model_checking", "exhaustive exploration of the satisfying assignments of the constraints the real SHA-256 gadget emits, for enumerated lengths, bit kinds and inputs",
      "Every byte length to 125 (260) with 17 patterns of constant, allocated, negated, repeated and repeating (per block, word, byte) bits over Goldilocks and selected lengths over BLS12-381; for fixed input bits all satisfying assignments are enumerated exactly; every single-bit block of the unpadded variant; constants to 400 bytes.",
      "states are distinct (length, kind pattern, input) points; transitions are propagation steps plus syntheses; traces are honest runs compared with the sha2 crate or an independent compression function",
      lambda tier: [P("ser", "hash", "sha", cost=9, **TH(5)), P("ser", "hash", "sha-block", cost=8, **TH(4)), P("ser", "hash", "sha-bls", **TH(2)), P("ser", "hash", "sha-lengths", **TH(2))])
check("C21", "model_checking", "exhaustive exploration of the satisfying assignments of the constraints the real BLAKE2s gadget emits, for enumerated lengths, personalisations, bit kinds and inputs",
      "Every byte length to 133 (260) with 17 patterns of constant, allocated, negated, repeated and repeating (per block, word, byte) bits over Goldilocks, selected lengths over BLS12-381, every single-bit personalisation; for fixed input bits all satisfying assignments are enumerated exactly; constants to 400 bytes.",
      "states are distinct (length, personalisation, kind pattern, input) points; transitions are propagation steps plus syntheses; traces are honest runs compared with the blake2s_simd crate",
      lambda tier: [P("ser", "hash", "blake", cost=9, **TH(5)), P("ser", "hash", "blake-personal", cost=3, **TH(2)), P("ser", "hash", "blake-bls", **TH(2)), P("ser", "hash", "blake-lengths", **TH(2))])
check("C22", "model_checking", "explicit enumeration of gadget instances, witness values and unknown-value patterns, comparing the complete constraint systems the real gadgets emit",
      "Every gadget with every operand kind over F3..F97, Goldilocks, M61 and BLS12-381; all or boundary witness values, unknown and partly unknown values, in proving and key-generation contexts; the names of everything each of them creates.",
      "states are gadget instances; transitions are syntheses whose variables, constraints and outputs are compared; traces are instances with all their values",
      lambda tier: [P("ser", "c22", "bools", **TH(2)), P("ser", "c22", "nums", **TH(2)), P("ser", "c22", "words", **TH(2)), P("ser", "c22", "rest", cost=5, **TH(4))])
check("C23", "model_checking", "explicit enumeration of operation histories and small constraint systems on the real testing constraint system against a reference model",
      "All histories of up to 4 (5) of 24 operations; all one- and two-constraint systems over small libraries with every assignment; 1.4 million systems hashed and grouped by structure; all pairs of lists of up to 5 (6) public inputs; every variable of a 600+600-variable system and those around 2^8 and 2^16 (2^20), every position among 600 (2,100) constraints and among 260 (520) terms, 2,000+ coefficients around powers of two, names to 1,025 bytes, namespaces to depth 80 (300); printed text of 214,000 systems grouped by structure.",
      "states are histories and constraint systems; transitions are operations or evaluations; traces are histories replayed against the model",
      lambda tier: [P("ser", "c23", "histories", **TH(3)), P("ser", "c23", "satisfaction", **TH(2)), P("ser", "c23", "verify", **TH(2)), P("ser", "c23", "scale", **TH(3)), P("ser", "c23", "printing", **ONE), P("ser", "c23", "hashes", cost=4, **ONE)])
check("C24", "model_checking", "explicit enumeration of operation sequences on the real linear combinations and wrapper stacks against a reference model",
      "All sequences of up to 3 (4) of 70 linear-combination operations over F5, F97, BLS12-381; all well-formed programs to depth 5 (7), failing allocations included, through 11 wrapper stacks, and through the generator and the prover; combinations of up to 1,025 terms with operands of up to 1,025, every repeated pattern to 300 (1,100) operations, namespaces to depth 70 (260).",
      "states are operation sequences; transitions are operations; traces are runs whose events, values, errors and closure counts are compared with the model",
      lambda tier: [P("ser", "c24", "lc", **TH(2)), P("ser", "c24", "long", **TH(2)), P("ser", "c24", "wrappers", **TH(3)), P("ser", "c24", "groth", **TH(2))])
check("C25", "model_checking", "explicit enumeration of circuits proved by the real prover from an instrumented parameter source that holds exactly what it is asked for",
      "All circuits to 3 variables/2 constraints over the term library, chains of constraints around every domain size, and every request to Parameters as a source (offsets and counts to beyond the vectors); serial build and rayon pools of 1-8 (1-16) threads.",
      "states are distinct (circuit, assignment) points or requests; transitions are create_proof calls or source operations; traces are proofs whose requests, reads and result are compared with the model",
      lambda tier: [P("ser", "c25", "small", cost=3, **TH(4)), P("ser", "c25", "chains", **TH(2)), P("ser", "c25", "handed", **ONE)]
      + [P("par", "c25", p, threads=n, weight=min(n, 4)) for n in ((1, 3, 8) if tier == "quick" else (1, 2, 3, 5, 8, 16)) for p in ("small", "chains")])
