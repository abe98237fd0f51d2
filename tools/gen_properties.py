#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

p("C01","An honest prover's proof always verifies",
 "For every circuit that can be built, every input assignment that satisfies it and every one of the supported curve cycles, proof generation finishes and the resulting proof is accepted by the verifier together with exactly the public inputs the prover used. This holds however the worker threads are scheduled, whatever hash seeds and entropy the process received, with and without blinding, for any number of public inputs, any circuit size and any number of previously generated proofs folded in. The verifier accepts with the final group check done immediately or deferred.",
 ["programs","inputs","configurations","schedules","fault_sequences"],
 "all circuits over the builder's operations (constants and operands biased to 0, 1, -1 and edge values), all satisfying inputs, 0 to many public inputs incl. around multiples of the wire count, 0-3 old proofs, four Halo curves, 1-16 worker threads, every interleaving of them, every entropy and clock behaviour",
 "tests/plonk_proof.rs and tests/plonk.rs prove a handful of fixed circuits on one curve under whatever schedule the OS gives; neither program shape, public-input layout, curve nor interleaving is varied.",
 ["src/plonk.rs","src/circuit_builder.rs","src/plonk_proof.rs","src/verifier.rs","src/halo.rs","src/poly_commit.rs","src/plonk_util.rs","src/fft.rs","src/gates/*.rs"],
 [("proof generation","src/plonk.rs Circuit::generate_proof"),("circuit building and padding","src/circuit_builder.rs CircuitBuilder::build"),("verification","src/verifier.rs verify_proof"),("batched inner-product argument","src/halo.rs batch_opening_proof / verify_ipa")],
 ["Result of generate_proof","Result of verify_proof"])

p("C02","A message altered on its way to the verifier is never accepted",
 "If a valid proof, its public inputs, the list of previous proofs or the verification key it is checked with is changed in any way on its way to the verifier (a value replaced, swapped, dropped, duplicated, truncated or taken from another valid exchange), verification does not succeed. The verifier answers such a message by refusing it, never by accepting a statement nobody proved. In particular the number of public inputs must match the verification key.",
 ["fault_sequences","histories","inputs"],
 "all single and multiple alterations of any field of the exchanged messages (each group element coordinate, each opened value, each scalar, vector lengths, public inputs, old proofs, key fields), and all recombinations of messages from different exchanges",
 "Existing tests only ever feed the verifier the untouched output of the prover; no rejecting case exists.",
 ["src/verifier.rs","src/plonk_proof.rs","src/halo.rs","src/plonk_challenger.rs","src/serialization.rs"],
 [("parameter check","src/verifier.rs check_proof_parameters"),("opening equation","src/verifier.rs verify_proof"),("public-input quotient","src/verifier.rs"),("inner-product argument and Schnorr","src/halo.rs verify_ipa / verify_g"),("transcript","src/plonk_proof.rs Proof::get_challenges")],
 ["Result of verify_proof"])

p("C03","A Byzantine prover cannot get a false statement accepted",
 "A prover that deviates from the protocol - using an execution trace that violates any gate constraint, any equality between wires, any fixed circuit constant or the public inputs, leaving a term out of the combined constraint, using a bad permutation accumulator, lying about opened values or about public inputs, or forging a final accumulator - never obtains a proof that the verifier, doing all its checks, accepts. This holds for every gate kind and every single constraint of it. Anything accepted is a statement whose trace satisfies the circuit.",
 ["fault_sequences","programs","inputs"],
 "all deviations of the prover's trace (each gate kind x each constraint x random operands), each enforced copy constraint, each constant, and all message-level deviations that keep the remaining transcript self-consistent",
 "Gate tests evaluate constraints on honest witnesses only; no existing test runs a dishonest prover against the verifier, so a dropped or vacuous constraint goes unnoticed.",
 ["src/gates/*.rs","src/plonk.rs","src/verifier.rs","src/plonk_util.rs","src/partition.rs","src/halo.rs","src/circuit_builder.rs"],
 [("gate constraints","src/gates/*.rs evaluate_unfiltered"),("gate selection by prefix","src/gates/mod.rs evaluate_filtered / evaluate_all_constraints"),("copy constraints","src/partition.rs, src/plonk_util.rs permutation_polynomial"),("combined check at zeta","src/verifier.rs verify_proof, compute_quotient_eval"),("final accumulator check","src/halo.rs verify_ipa")],
 ["Result of verify_proof for proofs of deviating provers"])

p("C04","Every message is bound into every later challenge",
 "Every value the prover sends before a challenge is drawn influences that challenge and all later ones; the public inputs influence every challenge, and the previous accumulators (their points and their challenges) every challenge from the evaluation point on; two different histories of the shape the verifier accepts never lead to the same challenge. The verifier derives exactly the challenges the prover used.",
 ["histories","inputs"],
 "all exchanged histories and all single-element perturbations at every transcript position and every alignment with the sponge's absorption block, for all four curves",
 "Tests only run transcripts with a matching prover and verifier; a value missing from both sides' transcript changes nothing they can see.",
 ["src/plonk_challenger.rs","src/plonk_proof.rs","src/plonk.rs","src/halo.rs","src/rescue.rs"],
 [("duplex sponge","src/plonk_challenger.rs Challenger"),("verifier-side transcript","src/plonk_proof.rs Proof::get_challenges"),("prover-side transcript","src/plonk.rs Circuit::generate_proof, src/halo.rs batch_opening_proof")],
 ["challenges returned by get_challenges","outputs of the challenger"])

p("C05","Deferred group checks in a chain of proofs cannot be dodged",
 "When a proof's expensive group check is deferred, its accumulator must be handed on with the next proof, and a chain whose last proof passes full verification can contain no accumulator that is wrong: a forged accumulator accepted provisionally is refused as soon as it is checked. Dropping, duplicating, reordering, substituting or altering the accumulators that a proof was made with makes that proof's verification fail. Honest chains of any shape and length verify.",
 ["histories","fault_sequences","programs"],
 "all chains and trees of proofs up to a size, over both curves of each cycle, with every subset of links faulty (forged, dropped, duplicated, swapped, altered) and any choice of when checks run",
 "The single existing old-proof test makes one honest proof from one honest predecessor.",
 ["src/plonk_proof.rs","src/verifier.rs","src/plonk.rs","src/halo.rs"],
 [("accumulator hand-over","src/plonk_proof.rs OldProof, Proof -> OldProof"),("accumulator openings","src/plonk.rs open_all_polynomials / src/verifier.rs"),("deferred check","src/verifier.rs verify_proof verify_g, src/halo.rs verify_g")],
 ["Result of verify_proof over the chain"])

p("C06","Stream encoding round-trips under any I/O behaviour and never desynchronises",
 "Any value written to a byte stream is read back equal, and reading consumes exactly the bytes that writing produced, so that any sequence of values written one after the other is read back in order. This holds whatever short reads, short writes and interruptions the stream produces; when the stream ends early or fails, the reader or writer returns an error instead of a value, without hanging or crashing. Bytes that are no encoding of a value are refused.",
 ["inputs","fault_sequences","histories"],
 "all sequences of field elements, points (incl. the identity), proofs and nested containers; all partitions of the stream into short transfers, all positions of interruptions, end-of-file and errors",
 "Unit tests round-trip one value each through an in-memory vector that never short-reads, never fails and is never read past the first value.",
 ["src/serialization.rs"],
 [("encoding","src/serialization.rs ToBytes"),("decoding","src/serialization.rs FromBytes")],
 ["return values and stream position of write/read"])

p("C07","Stored keys and proofs survive crashes or are refused, never misread",
 "A proof or verification key that was durably stored is loaded unchanged and still verifies after any crash and restart. After a crash in the middle of storing it, or after the stored bytes were torn, truncated or corrupted, loading yields the complete old value, the complete new value, an error, or something the verifier then refuses, and never a different proof or key under which it accepts what it should not. Loading never crashes the process.",
 ["crash_points","fault_sequences","inputs"],
 "all crash points of a store/replace/load workload on a disk that loses, tears, truncates and flips unsynced or stored data, for keys and proofs of random circuits",
 "The only persistence test serialises one key to a vector and back; nothing crashes and nothing is damaged.",
 ["src/plonk_proof.rs","src/plonk.rs","src/serialization.rs","src/curve/curve.rs","src/field/*.rs"],
 [("serde encodings of keys and proofs","src/plonk_proof.rs, src/plonk.rs VerificationKey"),("point and field encodings","src/serialization.rs, src/curve/curve.rs")],
 ["value returned by the loader and the verifier's answer on it"])

p("C08","Concurrent callers sharing keys and circuits do not affect each other",
 "Any number of caller threads may build, prove, verify and hash at the same time, sharing circuits, keys and process-wide caches, and each call returns what it would have returned alone. A call that panics, fails or is starved leaves the shared state usable and the other calls' results unchanged. First use of a shared cache by several threads at once yields one correct value for all.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of operations by 2-6 caller threads over 1-16 pool workers, including panicking callers, starved threads and racing first uses of lazily initialised state",
 "All tests call the library from one thread at a time on a given object; shared-cache initialisation is never raced and no call is ever interrupted by a panic.",
 ["src/mds.rs","src/rescue.rs","src/plonk.rs","src/plonk_util.rs","src/fft.rs","src/curve/curve_msm.rs"],
 [("shared matrix cache","src/mds.rs"),("shared circuits and keys","src/plonk.rs Circuit, VerificationKey"),("parallel kernels","src/plonk_util.rs, src/fft.rs, src/curve/curve_msm.rs")],
 ["per-operation results recorded in the history, compared with a sequential model"])

p("C09","Witness generation computes what the circuit operations mean",
 "For every circuit and every assignment of its inputs, generating the execution trace fills every wire with the value that the operations the author wrote define (arithmetic, selection, zero tests, inverses, bit and digit splits, powers, hashing, curve addition, doubling and scalar multiplication), copied consistently to every place it is used. The outcome does not depend on hash iteration order, on the order in which operations or inputs were supplied, or on scheduling. Each computation step runs once, after all it depends on.",
 ["programs","inputs","schedules"],
 "all programs over the builder's operations with random and edge-case operands, every hash seed, every order of supplying inputs, custom generators with arbitrary dependency graphs",
 "Existing tests run one program per gadget with one input, and never observe that hash order, generator order or chained dependencies leave the result unchanged.",
 ["src/witness.rs","src/plonk.rs","src/circuit_builder.rs","src/circuit_curve.rs","src/gates/*.rs","src/partition.rs"],
 [("dependency-driven generator engine","src/plonk.rs Circuit::generate_partial_witness"),("copy propagation","src/plonk.rs, src/partition.rs"),("gate generators","src/gates/*.rs"),("gadgets","src/circuit_builder.rs, src/circuit_curve.rs")],
 ["PartialWitness / Witness values at every target"])

p("C10","Independently built copies of a circuit are interchangeable",
 "Two processes that build the same circuit independently - under different schedules, thread counts, hash seeds and entropy - obtain verification keys under which each accepts the other's proofs, and a proof without blinding is the same on both but for values that are random by design. Nothing process-specific leaks into keys, commitments to constants or copy constraints.",
 ["schedules","programs","configurations"],
 "all programs, pairs of simulated processes with different worker counts, schedules, hash seeds and entropy",
 "Tests build and verify inside one process with the same circuit object, so anything that depends on hash order or randomness at build time is invisible.",
 ["src/circuit_builder.rs","src/partition.rs","src/plonk.rs","src/gates/mod.rs","src/hash_to_curve.rs","src/poly_commit.rs"],
 [("deterministic build","src/circuit_builder.rs build"),("wire partition and permutation","src/partition.rs"),("derived generators","src/hash_to_curve.rs")],
 ["VerificationKey contents","cross verification between processes"])

p("C11","Parallel kernels return the sequential answer under every schedule",
 "Fourier transforms (with their inverses and coset variants), the polynomial products and quotients computed with them, multi-scalar multiplication, point summation, inner products and polynomial commitments return exactly what a plain sequential definition gives, for every input including zero, repeated and opposite points and zero scalars, every size, worker count and interleaving. Precomputed tables can be shared and reused any number of times.",
 ["schedules","inputs","configurations"],
 "all power-of-two sizes up to the chunking thresholds and past them, all window sizes, degenerate inputs, 1-16 workers, every interleaving",
 "Unit tests compare a few sizes on random inputs under the OS schedule; sizes above the parallel split thresholds, degenerate points and adverse schedules are not reached.",
 ["src/fft.rs","src/curve/curve_msm.rs","src/curve/curve_summations.rs","src/poly_commit.rs","src/plonk_util.rs","src/polynomial.rs"],
 [("parallel FFT","src/fft.rs"),("parallel MSM","src/curve/curve_msm.rs"),("pairwise summation","src/curve/curve_summations.rs"),("commitments","src/poly_commit.rs")],
 ["returned vectors and points"])

p("C12","Secrets are hidden with fresh randomness or no proof is produced",
 "With blinding on, every commitment in a proof carries its own unpredictable blinding, different from every other commitment in this and every other proof, and proving the same statement twice never repeats one. The random rows and the final inner-product response are fresh per proof as well. If the system's entropy source fails, proving fails rather than producing an unblinded or predictable proof.",
 ["fault_sequences","schedules","histories"],
 "all behaviours of the entropy source (short reads, interruptions, unavailability, persistent failure, failure at any point) and schedules, over repeated proofs of the same statement in one process",
 "Entropy is never made to fail and no test looks at whether the blinding of two commitments or two proofs differs.",
 ["src/plonk.rs","src/poly_commit.rs","src/halo.rs","src/circuit_builder.rs","src/field/field.rs"],
 [("commitment blinding","src/poly_commit.rs"),("blinding rows","src/circuit_builder.rs"),("Schnorr masks","src/halo.rs")],
 ["commitments minus their unblinded recomputation","entropy calls seen by the simulated OS"])

p("C13","Lookup arguments accept exactly members of the table",
 "For every table and every list of values that all occur in it, the lookup prover produces a proof that the lookup verifier accepts, whatever the sizes, repetitions and order. If some looked-up value is not in the table, or the table, values or proof are altered on the way, verification does not succeed.",
 ["inputs","fault_sequences","schedules","histories"],
 "all table and lookup sizes incl. powers of two, empty-ish, duplicates, zero-containing and zero-free tables, absent values, and all alterations of the proof message, under every schedule",
 "The existing test proves one fixed membership list and never a rejected one.",
 ["plookup/src/plookup.rs","plookup/src/verifier.rs","plookup/src/proof.rs","plookup/src/table.rs","plookup/src/openings.rs"],
 [("lookup prover","plookup/src/plookup.rs"),("lookup verifier","plookup/src/verifier.rs"),("multiset check","plookup/src/table.rs")],
 ["Result of the lookup prover and verifier"])

p("C14","Every operation finishes within bounded work under adverse scheduling",
 "Building, witness generation, proving and verifying finish within a bounded number of simulated steps under every fair schedule - with starved workers, spurious wake-ups, interrupted system calls, clock jumps, transient entropy failures and any number of workers - and never deadlock. The work needed depends on the circuit only and not on the schedule beyond a constant factor. Malformed input is answered within the same bound.",
 ["schedules","fault_sequences","inputs","configurations"],
 "all schedules with fairness restored after a bounded faulty prefix, 1-16 workers, nested parallelism from several callers, malformed proofs of any shape",
 "Tests run on an idle machine under a fair scheduler; a lost wake-up, an unbounded retry or a schedule-dependent loop would show once in a great many runs.",
 ["src/plonk.rs","src/plonk_util.rs","src/fft.rs","src/curve/curve_msm.rs","src/halo.rs","src/verifier.rs","src/mds.rs","src/field/field.rs"],
 [("work-stealing kernels","src/fft.rs, src/curve/curve_msm.rs, src/plonk_util.rs"),("retry loops over challenges","src/halo.rs, src/plonk.rs"),("generator loop","src/plonk.rs generate_partial_witness")],
 ["simulated step counter, blocked-thread set"])

p("C15","Big-integer, comparison and foreign-field gadgets compute exact values in every generation order",
 "When a witness is generated for a circuit that uses the big-integer gadgets (constants and inputs, sums of two or many, products, quotients and remainders, comparisons, equality of numbers of different lengths), the foreign-field gadgets (constants, sums, products) or the deterministic square root, every result is computed, equals integer arithmetic (modulo the foreign field's order where it applies; the root with an even canonical value), is encoded in canonical 86-bit limbs and stays within the bound its target carries. This holds for all operands including zero, numbers at limb boundaries and results fed into further gadgets, and whatever order hash seeds and late inputs make the generators run in. It is about values, not about what a dishonest prover could claim (see C26).",
 ["programs","inputs","schedules","histories"],
 "all programs over these gadgets mixed with ordinary arithmetic, operands biased to 0, 1, powers of two at limb boundaries, the two field orders, tight and loose bounds, inputs that only become known late, every generator order, four curves",
 "Each gadget has one test with one pair of constants in one order; carries out of the top limb, zero operands, several limbs, comparison and chains of gadgets never occur.",
 ["src/circuit_bigint.rs","src/circuit_foreign_field.rs","src/circuit_ordering.rs","src/circuit_builder.rs","src/witness.rs","src/conversions.rs"],
 [("limb arithmetic and bounds","src/circuit_bigint.rs bigint_add_many / bigint_mul / bigint_div_rem / bigint_cmp"),("reduction","src/circuit_foreign_field.rs reduce"),("comparison generator","src/circuit_ordering.rs add_ordering_generator"),("reading and setting limbs","src/witness.rs get_bigint_target / set_bigint_target")],
 ["PartialWitness::get_bigint_target, get_foreign_field_target, get_ordering_target after Circuit::generate_partial_witness"])

# ---- listed, not decided by this technique
na="pure function of its input: no schedule, clock, fault, history or second party takes part in it"
p("C20","Field arithmetic satisfies the field axioms in every representation",
 "For each of the supported prime fields, addition, subtraction, multiplication, inversion, exponentiation, square roots, batch inversion and conversion from and to integers agree with integer arithmetic modulo the field's order, and values are always in canonical form.",
 ["inputs"],"all pairs of field elements incl. 0, 1, -1, values next to limb boundaries and to the modulus",
 "Tests sample a few operands and carry chains near limb boundaries are rare.",
 ["src/field/*.rs","src/bigint/*.rs"],[("Montgomery arithmetic","src/field/monty.rs"),("limb arithmetic","src/bigint/bigint_arithmetic.rs")])
p("C21","Curve arithmetic satisfies the group law incl. all exceptional cases",
 "For each supported curve, affine and projective addition, doubling, negation, conversion and scalar multiplication implement the same abelian group, for all points including the identity, equal and opposite points.",
 ["inputs"],"all pairs of points and all scalars","Tests sample a few random points per curve.",
 ["src/curve/*.rs"],[("group law","src/curve/curve_adds.rs, src/curve/curve.rs"),("scalar multiplication","src/curve/curve_multiplication.rs")])
p("C22","Hashing to curves and fields is well-defined and lands on the curve",
 "Hashing any input to a curve point ends with a point on the curve, the same each time, and distinct inputs give distinct points; pseudorandom field elements are canonical and reproducible.",
 ["inputs"],"all byte inputs","Tests hash a handful of inputs.",
 ["src/hash_to_curve.rs","src/pseudorandom.rs"],[("try-and-increment","src/hash_to_curve.rs")])
p("C23","Polynomial algebra agrees with the definition",
 "Addition, trimming, padding, comparison, degree and evaluation of polynomials agree with their algebraic definition for all operand sizes, including zero polynomials and different degrees.",
 ["inputs"],"all pairs of polynomials up to a size","Tests sample random dense operands.",
 ["src/polynomial.rs"],[("polynomial operations","src/polynomial.rs")])
p("C24","Conversions between integers, bits and fields are exact or refused",
 "Conversions between big integers, limbs, bits and elements of different fields preserve the value when it fits and report an error when it does not.",
 ["inputs"],"all values around every field's order","Tests sample a few conversions.",
 ["src/conversions.rs","src/bigint/*.rs"],[("conversions","src/conversions.rs, src/field/field.rs")])
p("C25","The recursion circuit verifies proofs in-circuit",
 "The recursive verification circuit built for a given inner circuit is satisfiable for every proof the native verifier accepts and for no other.",
 ["programs","inputs"],"all inner circuits and proofs","The only test of it is disabled: the circuit is unfinished upstream.",
 ["src/plonk_recursion.rs","src/bin/recursion.rs"],[("recursion circuit","src/plonk_recursion.rs recursion_circuit")])
p("C26","Big-integer and foreign-field gadgets are enforced by the circuit's constraints",
 "A dishonest prover cannot claim results of the big-integer and foreign-field gadgets that differ from integer arithmetic (the honest values themselves are C15).",
 ["programs","inputs"],"all operands and limb counts","Tests stop at the witness; the range checks are unfinished upstream and the constraints are not satisfiable.",
 ["src/circuit_bigint.rs","src/circuit_foreign_field.rs","src/circuit_ordering.rs"],[("big-integer gadgets","src/circuit_bigint.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
