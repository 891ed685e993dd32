#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=obs or [], hook_needed=hook)))

p("C01", "Groth16 completeness: every honest proof verifies",
  "For every circuit and every assignment that satisfies it, parameters generated for the circuit yield, for every choice of the prover's blinding scalars r and s, a proof that the verifier accepts for the circuit's public inputs. This covers circuits with any number of public inputs (including none), any number of private variables (including none), variables that appear in no, one or several of the A/B/C sides, linear combinations with repeated, zero or cancelling terms, and public inputs allocated in any position. The only exceptions are the finitely many trapdoor values at which tau, a constraint polynomial or the domain's vanishing polynomial evaluates to zero.",
  ["inputs", "programs"], "all small R1CS circuits, satisfying assignments, trapdoors and blinding scalars",
  "the tests prove two fixed circuits (a XOR and MiMC) with one or random witnesses; they never vary the circuit shape, so a misalignment between the generator's filtered queries and the prover's density maps on another shape is invisible",
  ["groth16/src/prover.rs", "groth16/src/generator.rs", "groth16/src/verifier.rs"],
  [("density tracking vs filtered A/B queries", "groth16/src/prover.rs:eval, groth16/src/generator.rs:filter"), ("input constraints x*0=0", "groth16/src/{prover,generator}.rs"), ("quotient polynomial on the coset", "groth16/src/prover.rs")],
  obs=["verify_proof(prepare_verifying_key(vk), proof, inputs)"])
p("C02", "Single-proof verification accepts exactly the Groth16 equation",
  "A proof is accepted if and only if e(A,B) = e(alpha,beta) + e(IC(inputs),gamma) + e(C,delta) holds, where IC(inputs) = ic[0] + sum of inputs[i]*ic[i+1], for every verifying key, every triple of group elements (identity included) and every list of public inputs. If the number of public inputs is not one less than the length of ic the result is InvalidVerifyingKey, and a false equation gives InvalidProof; nothing panics.",
  ["inputs"], "all proofs, inputs and verifying keys of toy pairing groups; all input-list lengths 0..5 against all ic lengths",
  "tests check one valid proof and one random wrong input; accepting an equation that drops a term for particular inputs would pass them",
  ["groth16/src/verifier.rs", "groth16/src/lib.rs"],
  [("multi Miller loop comparison", "groth16/src/verifier.rs:verify_proof"), ("negated gamma/delta", "groth16/src/verifier.rs:prepare_verifying_key")],
  obs=["Result of verify_proof"])
p("C03", "Generated parameters equal the circuit's QAP at the trapdoor",
  "For every circuit and trapdoor (g1, g2, alpha, beta, gamma, delta, tau) every element of the generated parameters equals the Groth16 definition computed from the circuit's constraints (verifying key, ic, h, l, and the a, b_g1 and b_g2 queries without their identity elements, in variable order). Generation fails exactly when it must: with UnconstrainedVariable when some private variable's combined polynomial vanishes at tau, with UnexpectedIdentity when gamma or delta is zero, with PolynomialDegreeTooLarge when the constraint count exceeds the field's supported domain, and with the circuit's own error when synthesis fails.",
  ["inputs", "programs"], "all small circuits x trapdoors of toy fields, and structured circuits up to hundreds of variables under several thread counts",
  "the tests compare one circuit with a hand-expanded CRS; element offsets at chunk boundaries, other shapes and error cases are not sampled",
  ["groth16/src/generator.rs"],
  [("Lagrange coefficients by inverse FFT of powers of tau", "groth16/src/generator.rs"), ("chunked evaluation eval()", "groth16/src/generator.rs"), ("identity filtering", "groth16/src/generator.rs")],
  obs=["fields of Parameters / VerifyingKey", "SynthesisError variant"])
p("C04", "The prover outputs exactly the Groth16 proof, and none for bad witnesses",
  "For every circuit, assignment and blinding pair the created proof equals the Groth16 definition A = alpha + sum(a_i u_i) + r*delta, B = beta + sum(a_i v_i) + s*delta, C = (private part + h*t)/delta + sA + rB - rs*delta, with h the interpolation of the actual constraint evaluations. Consequently a proof made from an assignment that violates some constraint is never accepted by the verifier unless the trapdoor is one of the few roots of the violation polynomial. If the circuit's synthesis returns an error, proving returns that same error and no proof.",
  ["inputs", "programs"], "all small circuits x all assignments (satisfying or not) x blinding scalars and trapdoors",
  "tests only ever prove satisfying assignments, so a prover or verifier that papers over an unsatisfied constraint is not observed",
  ["groth16/src/prover.rs", "groth16/src/verifier.rs"],
  [("h computed from A*B-C on a coset", "groth16/src/prover.rs:create_proof")],
  obs=["Proof elements (discrete logs in the toy group)", "verify_proof result", "SynthesisError variant"])
p("C05", "Zero-knowledge blinding and fresh randomness",
  "For a fixed circuit, key and public input, the set of proofs over all (r, s) is the same for every satisfying witness, and distinct (r, s) give distinct proofs, so a uniformly blinded proof carries no information about the witness. Random proof creation draws r and s, and random parameter generation draws its two generators and five trapdoor scalars, as independent consecutive uniform draws from the caller's RNG.",
  ["inputs"], "all (r,s) pairs x all witnesses of small circuits; all RNG output streams of the drawn length over toy fields",
  "tests verify proofs but never compare distributions; ignoring s, reusing r for s, or leaking the witness still verifies",
  ["groth16/src/prover.rs", "groth16/src/generator.rs"],
  [("r*delta and s*delta blinding terms", "groth16/src/prover.rs:create_proof"), ("independent RNG draws", "groth16/src/prover.rs:create_random_proof, groth16/src/generator.rs:generate_random_parameters")],
  obs=["multiset of proofs over (r,s)", "RNG consumption"])
p("C06", "Proving with malformed parameters fails cleanly",
  "If the supplied parameters are malformed (a query vector that is too short, an element that is the identity where it is needed, an identity delta, or a parameter source that returns an error), proof creation returns an error; it never hangs, panics, aborts the process or loses pool capacity, under any interleaving of the worker threads. If every needed element is present and unaltered, additional trailing elements do not change the proof.",
  ["inputs", "schedules", "fault_sequences"], "every single (and pairs of) truncation/identity fault of every query of small parameter sets; every failing parameter-source call; thread interleavings within a delay bound",
  "no test feeds a malformed CRS to the prover, and the early-return path while multiexps are in flight depends on the thread schedule",
  ["groth16/src/prover.rs", "src/multicore.rs", "src/multiexp.rs"],
  [("Source::next identity / EOF checks", "src/multiexp.rs"), ("delta identity check", "groth16/src/prover.rs"), ("result channel of abandoned computations", "src/multicore.rs:Worker::compute")],
  obs=["Result of create_proof", "process status"], hook="--cfg bellman_mc (controlled scheduler)")
p("C07", "Batch verification agrees with the randomised batch equation",
  "Batch verification returns Ok exactly when the random linear combination of the per-proof Groth16 equations holds for the nonzero coefficients it drew, so a batch of valid proofs (of any size, including the empty batch) is accepted for every randomness and a batch containing an invalid proof is rejected except with probability about 1/|F| (8/|F| per chunk for the multi-threaded variant). Every item's coefficient is drawn fresh and independently from the RNG, is never zero, and multiplies that item's A, C and inputs consistently; an item with the wrong number of inputs yields InvalidVerifyingKey, and single verification of an item agrees with the ordinary verifier.",
  ["inputs", "schedules"], "all batches of small size over a toy group x all RNG outcomes; batches of 0..40 items with every position invalid; multi-threaded variant over its chunkings and schedules",
  "the test batches a handful of valid proofs with one random RNG, plus one bad proof; a batch that ignores one item, or coefficients that cancel pairs of bad proofs, passes",
  ["groth16/src/verifier/batch.rs"],
  [("z != 0 rejection loop", "groth16/src/verifier/batch.rs"), ("accumulators acc_Gammas, acc_Delta, acc_Y", "groth16/src/verifier/batch.rs")],
  obs=["Result of Verifier::verify, verify_multicore, Item::verify_single"])
p("C08", "Serialisation round-trips proofs, verifying keys and parameters",
  "Writing and then reading a proof, verifying key or parameter set yields an equal object, consumes exactly the bytes written and reproduces the same bytes when written again, for every vector length (including empty) and every chunking of the underlying reader or writer (short reads/writes and interruptions included). Equality of proofs, keys and parameters holds only if every component is equal. Writer errors are reported, never swallowed.",
  ["inputs", "fault_sequences"], "all small objects over the toy group; every short-read/short-write chunking; every position of an I/O error",
  "tests round-trip one random object through in-memory buffers that never split or fail",
  ["groth16/src/lib.rs"],
  [("write/read of Proof, VerifyingKey, Parameters", "groth16/src/lib.rs"), ("PartialEq impls", "groth16/src/lib.rs")],
  obs=["bytes written", "object read back", "io::Result"])
p("C09", "Deserialisation rejects malformed input",
  "Reading a proof, or parameters in either mode, fails (never panics, hangs or returns an object) if any group element encoding is invalid, if a proof element or a query/ic element is the point at infinity, or if the input ends before the object is complete. With checking on, parameter queries containing an encodable point outside the prime-order subgroup are rejected; verifying keys are always subgroup-checked and proofs always are too.",
  ["inputs", "fault_sequences"], "every codepoint of the toy encodings at every element position of every object, every truncation length and every reader error position",
  "tests check a couple of identity encodings on BLS12-381; per-position checks and truncations are not enumerated",
  ["groth16/src/lib.rs"],
  [("read_g1/read_g2 closures", "groth16/src/lib.rs")],
  obs=["io::Result of read"])
p("C10", "Evaluation-domain transforms equal the polynomial mathematics",
  "For every supported size and every coefficient vector (over scalars or curve points), fft evaluates the polynomial at the powers of the domain's root of unity in order, ifft inverts it, coset_fft/icoset_fft do the same on the multiplicative-generator coset, distribute_powers, mul_assign, sub_assign, z and divide_by_z_on_coset equal their definitions, and construction pads to the next power of two and fails with PolynomialDegreeTooLarge once the field's two-adicity is exceeded. The results do not depend on the number of threads.",
  ["inputs", "configurations"], "all sizes up to 2^12 (basis vectors, hence by linearity all vectors), all vectors of small sizes over small fields, thread counts 1 to 70 and serial",
  "tests compare random vectors of sizes up to 2^9 on one thread count of the build machine",
  ["src/domain.rs"],
  [("serial_fft / parallel_fft", "src/domain.rs"), ("chunked scopes", "src/domain.rs, src/multicore.rs:Worker::scope")],
  obs=["domain coefficients"])
p("C11", "Multi-exponentiation equals the naive sum",
  "For every list of bases, exponents and density map, multiexp returns exactly the sum of exponent times base over the positions whose density is set, bases being consumed in order from the source's starting offset only at those positions, whatever the number of exponents, their values (0, 1, r-1 and all others) and the window size chosen. If a base that is needed is missing or is the identity it returns the corresponding error instead of a sum, and an error of the source in any of its operations is returned; an unneeded identity base (exponent zero) is skipped.",
  ["inputs"], "all exponent/density vectors of length up to 4 over small fields; structured vectors at every window-size boundary up to 2^17 on 255-bit, 64-bit and small scalars",
  "the tests use one full-density multiexp of 2^14 random exponents; windows, partial density, skips and errors are not exercised",
  ["src/multiexp.rs"],
  [("bucket method with window c", "src/multiexp.rs:multiexp_inner"), ("Source next/skip", "src/multiexp.rs"), ("DensityTracker", "src/multiexp.rs")],
  obs=["Result of multiexp().wait()"])
p("C12", "Results are independent of threads, schedules and the multicore feature",
  "For identical inputs, parameter generation, proving, multi-exponentiation and FFTs give identical results for every number of worker threads, for every interleaving of the worker threads, and with the multicore feature on or off; every one of them terminates and none panics or aborts in any such configuration.",
  ["schedules", "configurations"], "thread interleavings of real generate/prove/multiexp/fft runs within a delay bound, thread counts 1..17, multicore on and off",
  "tests run on whatever schedule and core count the machine gives, and the serial configuration is only type-checked",
  ["src/multicore.rs", "src/domain.rs", "src/multiexp.rs", "groth16/src/generator.rs", "groth16/src/prover.rs"],
  [("Worker::scope chunking", "src/multicore.rs"), ("disjoint chunk writes", "src/domain.rs, groth16/src/generator.rs"), ("serial fallback", "src/multicore.rs")],
  obs=["equality of outputs"], hook="--cfg bellman_mc (controlled scheduler)")
p("C13", "Worker tasks run exactly once and waiters get their results",
  "Every computation submitted to a worker runs exactly once and its waiter receives exactly its result, under every thread interleaving and any number of outstanding tasks, including tasks submitted from inside the pool and after the backlog limit makes submission synchronous; no schedule deadlocks, and waiting from inside the pool panics instead of blocking it. Dropping a waiter without waiting has no effect on other tasks and never kills the process. While the backlog is below the limit submission returns without waiting for the task, and after all tasks finish the backlog accounting is back to zero.",
  ["schedules"], "all interleavings (bounded preemptions) of small client programs over 1-3 virtual pool threads: submit/wait orders, drops, nesting and backlog overflow",
  "the existing tests never exercise the worker directly, and a race in its bookkeeping shows only under particular interleavings",
  ["src/multicore.rs"],
  [("bounded(1) result channel", "src/multicore.rs:Worker::compute"), ("WORKER_SPAWN_COUNTER backlog limit", "src/multicore.rs")],
  state=[("WORKER_SPAWN_COUNTER", "outstanding computations", "src/multicore.rs")],
  obs=["task executions", "values received", "process status"], hook="--cfg bellman_mc (controlled scheduler)")
p("C14", "Boolean gadgets are complete and sound",
  "For every combination of constant, allocated and negated operands (aliased ones included) and for AllocatedBit operations, XOR, AND, AND-NOT, NOR, SHA-256 ch and maj, negation, conditional allocation, equality enforcement and the u64/field-to-bits decompositions compute the right value, the honest assignment satisfies the constraints, and no assignment of the allocated variables satisfies them with a non-boolean or wrong output for the given operands. The reported value and the linear combination of a boolean always agree, operations on constants stay constant, and equality of unequal constants gives Unsatisfiable.",
  ["inputs", "programs"], "all operand kinds x values x aliasing for every operation, and all assignments of all auxiliary variables over small fields",
  "tests check honest values of each case and a few tampered assignments over BLS12-381; they do not enumerate alternative witnesses or aliased operands",
  ["src/gadgets/boolean.rs"],
  [("R1CS constraints of each gate", "src/gadgets/boolean.rs")],
  obs=["constraints recorded through the ConstraintSystem trait", "get_value", "lc"])
p("C15", "Number gadgets are complete and sound",
  "Multiplication, squaring, non-zero assertion, conditional reversal, inputization, bit decomposition (strict and not) and Num accumulation compute the right values, are satisfied by the honest assignment, and admit no satisfying assignment with a wrong result for the given operands; aliased operands included. The strict decomposition has exactly one satisfying bit string, the canonical one, for every value of every field; the plain one only strings congruent to the value. Asserting non-zero on zero gives DivisionByZero and has no satisfying assignment.",
  ["inputs", "programs"], "all operand values and all auxiliary assignments over many small primes (all runs-of-ones patterns of the modulus), propagation-exact exploration over 64-bit and 255-bit fields",
  "tests use one 255-bit modulus with random values, so the run-of-ones logic of the strict decomposition is exercised for a single modulus only",
  ["src/gadgets/num.rs", "src/gadgets/boolean.rs"],
  [("to_bits_le_strict run logic", "src/gadgets/num.rs"), ("mul/square/nonzero/reverse constraints", "src/gadgets/num.rs")],
  obs=["constraints recorded through the ConstraintSystem trait", "get_value"])
p("C16", "32-bit word gadgets are complete and sound",
  "XOR, ch, maj, rotation, shift, modular addition of 2 to 10 operands, constants, allocation and bit-order conversions on UInt32 agree with the native u32 operation for every mix of constant and allocated operands and every value, are satisfied by the honest assignment, and admit no satisfying assignment with another result. Adding only constants yields a constant without constraints; the tracked value always equals the bits.",
  ["inputs", "programs"], "all rotation/shift amounts, operand counts 2..10, per-bit constant/allocated/negated masks and boundary values, with exact exploration of all auxiliary assignments",
  "tests use random words and honest assignments; carries of many operands and mixed constant bits are not enumerated and soundness is only sampled by flipping single bits",
  ["src/gadgets/uint32.rs", "src/gadgets/multieq.rs"],
  [("addmany carry width", "src/gadgets/uint32.rs:addmany"), ("per-bit gates", "src/gadgets/uint32.rs")],
  obs=["constraints recorded through the ConstraintSystem trait", "into_bits values"])
p("C17", "Packed equality constraints are equivalent to the individual equalities",
  "For any sequence of equalities with declared bit widths (each at least one and below the field capacity), the constraints emitted by the packed-equality accumulator, including the final flush when it goes out of scope, are satisfied by exactly those assignments, within the declared widths, that satisfy every individual equality, for every field size and every packing boundary. Allocation, constraints and namespaces pass through it unchanged.",
  ["programs", "inputs"], "all width sequences up to a total several times the capacity of small fields x all in-range values",
  "the tests only reach it through SHA-256/BLAKE2s with honest values on one field; a boundary off by one that overflows the field is not reached",
  ["src/gadgets/multieq.rs"],
  [("bits_used accounting and flush", "src/gadgets/multieq.rs:enforce_equal/accumulate/drop")],
  obs=["constraints recorded through the ConstraintSystem trait"])
p("C18", "Packing bits into public inputs is exact",
  "Packing booleans into public inputs allocates ceil(n/capacity) inputs, each equal to the little-endian value of its chunk and equal to the native packing of the same bits, for every length, every mix of constant, allocated and negated bits and every field; no satisfying assignment gives an input another value. Different bit strings of equal length pack to different inputs. The byte/bit conversions list every byte's bits in the documented order.",
  ["inputs"], "all bit strings and lengths around multiples of the capacity of several fields; all byte values and short byte strings",
  "the test packs random lengths once over BLS12-381",
  ["src/gadgets/multipack.rs", "src/gadgets/num.rs"],
  [("chunking by CAPACITY", "src/gadgets/multipack.rs")],
  obs=["public inputs and constraints recorded", "compute_multipacking output"])
p("C19", "Window-table lookups return the selected entry",
  "A 3-bit lookup returns, for every table of 8 coordinate pairs and every selection by constant, allocated, negated or aliased bits, exactly the selected pair, and the signed variant returns the selected one of 4 pairs with y negated when the sign bit is set; the constraints are satisfied by the honest assignment and admit no other result.",
  ["inputs", "programs"], "all bit kinds, aliasing and values x tables spanning the table space (basis tables, hence by linearity all tables) over several fields, with all auxiliary assignments",
  "tests use random tables with allocated bits only",
  ["src/gadgets/lookup.rs"],
  [("synth coefficients", "src/gadgets/lookup.rs"), ("lookup constraints", "src/gadgets/lookup.rs")],
  obs=["constraints recorded", "values of the returned numbers"])
p("C20", "The SHA-256 gadget computes SHA-256 and nothing else",
  "For every whole-byte input length and every mix of constant, allocated and negated input bits the gadget's output bits equal SHA-256 of the input, the honest assignment satisfies all constraints, and for the given input bits no satisfying assignment has a different output. The unpadded single-block variant equals the raw compression from the standard IV.",
  ["inputs", "programs"], "all input byte lengths 0..260 (every padding case over several blocks), kinds of input bits; exact exploration of all auxiliary assignments for representative inputs",
  "tests compare outputs on random inputs up to 70 bytes with allocated or constant bits; no test shows that the constraints admit no other output",
  ["src/gadgets/sha256.rs", "src/gadgets/uint32.rs", "src/gadgets/multieq.rs"],
  [("padding", "src/gadgets/sha256.rs:sha256"), ("compression rounds", "src/gadgets/sha256.rs")],
  obs=["output bits", "constraints recorded"])
p("C21", "The BLAKE2s gadget computes personalised BLAKE2s and nothing else",
  "For every whole-byte input length, every 8-byte personalisation and every mix of constant, allocated and negated input bits the gadget's output bits equal BLAKE2s-256 of the input, the honest assignment satisfies all constraints, and for the given input bits no satisfying assignment has a different output.",
  ["inputs", "programs"], "all input byte lengths 0..260 (every block boundary), personalisations, kinds of input bits; exact exploration of all auxiliary assignments for representative inputs",
  "tests compare outputs on random inputs up to 66 or so bytes with one personalisation; no test shows that the constraints admit no other output",
  ["src/gadgets/blake2s.rs", "src/gadgets/uint32.rs", "src/gadgets/multieq.rs"],
  [("block loop and offset counter", "src/gadgets/blake2s.rs:blake2s"), ("mixing", "src/gadgets/blake2s.rs")],
  obs=["output bits", "constraints recorded"])
p("C22", "Circuit shape does not depend on witness values",
  "Every gadget emits the same variables and constraints whatever the witness values are, and the same ones again when the values are unknown (as during parameter generation); with an unknown value every operation that needs it reports AssignmentMissing in a proving context and never panics, and reported values are then unknown rather than wrong. The namespaces, variables and constraints a gadget creates have distinct names, so that it can always be synthesised in the testing constraint system.",
  ["inputs", "programs"], "every gadget x operand kinds x all (or spanning) witness values, with known and with unknown values",
  "a shape that depends on a witness value makes the prover disagree with the key only for that value; tests fix the constraint counts for random values",
  ["src/gadgets"],
  [("value closures separate from constraint synthesis", "src/gadgets/*")],
  obs=["recorded constraint system with and without values"])
p("C23", "The test constraint system reports satisfaction and structure exactly",
  "The testing constraint system reports satisfied if and only if every constraint holds under the current assignment, names the first violated one otherwise, returns and updates variables exactly by their namespaced path, verifies public inputs exactly, and hashes equal exactly for systems with the same constraint structure up to term order and cancelling terms; the printed text distinguishes the same structures and names every constraint. Creating two objects at the same path, or a name containing a slash, panics; annotations in different namespaces never collide.",
  ["programs", "histories"], "all small constraint systems x assignments and all operation histories (namespace, alloc, enforce, set, get) up to a depth, against a reference model",
  "the self-test runs one fixed sequence; developers rely on this helper to judge their own circuits",
  ["src/gadgets/test/mod.rs"],
  [("eval_lc / which_is_unsatisfied", "src/gadgets/test/mod.rs"), ("named objects and namespaces", "src/gadgets/test/mod.rs"), ("hash over normalised LCs", "src/gadgets/test/mod.rs")],
  state=[("named_objects/current_namespace", "paths in use and the open namespaces", "src/gadgets/test/mod.rs")],
  obs=["is_satisfied, which_is_unsatisfied, get, set, verify, hash, num_inputs, num_constraints"])
p("C24", "Linear combinations and constraint-system wrappers are transparent",
  "Every sequence of additions and subtractions of variables, scaled variables, linear combinations and scaled linear combinations evaluates to the corresponding field arithmetic under every assignment. Synthesising through namespaces, mutable references or nested wrappers forwards every allocation, constraint and error to the underlying system unchanged and in order, evaluates each value closure at most once (exactly once when a value is needed), and enters and leaves namespaces in balance even when synthesis fails.",
  ["programs", "histories"], "all operation sequences up to a depth over a small field against a reference evaluator; all wrapper nestings x operations x failing closures",
  "tests use a few operator combinations implicitly; error paths through namespaces are not tested",
  ["src/lib.rs", "src/gadgets/multieq.rs"],
  [("Add/Sub impls of LinearCombination", "src/lib.rs"), ("Namespace and &mut impls of ConstraintSystem", "src/lib.rs")],
  obs=["LinearCombination::as_ref terms", "calls received by the underlying constraint system"])
p("C25", "The prover asks a parameter source for exactly what the proof needs",
  "For every circuit create_proof asks its ParameterSource for a verifying key with one element per public input (the constant one included), for m-1 elements of h (m the domain size), for one element of l per private variable, and, for a, b in G1 and b in G2, for all public inputs or exactly the public inputs resp. private variables that occur with a non-zero coefficient in A resp. B, as the trait's methods are called with; it never reads past what it asked for, and a source holding exactly those elements yields the same proof as the full parameters. Parameters, used as a source, hand out windows of their vectors that start at the right element and fail once exhausted.",
  ["programs"], "all circuits to 3 variables and 2 constraints over the term library, constraint chains around every domain size, all requests to Parameters as a source",
  "tests only ever use complete in-memory parameters, so a request that is too large, too small or read too far goes unseen unless a custom source (streamed parameters) is used",
  ["groth16/src/prover.rs", "groth16/src/lib.rs"],
  [("get_vk/get_h/get_l/get_a/get_b_g1/get_b_g2 requests of create_proof", "groth16/src/prover.rs"), ("impl ParameterSource for &Parameters", "groth16/src/lib.rs")],
  obs=["requests received by the parameter source, elements read from its windows, the proof"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
