c("C01","real verifier accepts what the real prover produced","Random programs over the whole public builder, all four Halo cycles, 0-30 public inputs, chains of up to 3 deferred proofs, 1-16 simulated worker threads with pre-emption inside the code, entropy and clock faults. Sequentially consistent interleavings only; sizes up to degree 2048.")
c("C09","big-integer reference interpreter, every gate constraint, every copy class","Random programs and arbitrary dependency graphs of user generators, under fresh hash seeds every round; results must be complete, correct and the same in every order.")
c("C02","real verifier fed altered and recombined messages","Every field of the proof, public-input list, old-proof list and key fed to the verifier altered, swapped, dropped, truncated, duplicated or replaced with another exchange's, in random combinations, for random circuits on four curves; refusal by panic is only tolerated for alterations of the locally held key.")
c("C04","challenge histories compared with a reference duplex sponge and with each other","Random histories of absorbed values and squeezed challenges against a reference sponge written from the definition; single-element perturbations at every transcript position of real proofs; prover and verifier challenges compared.")
c("C06","simulated byte streams with short transfers, interruptions, end of file and errors; exact position and value oracle","Random nested values over random transfer partitions and fault positions; random and mutated bytes must be refused or re-encode to themselves.")
c("C07","simulated disk with crash points, torn, lost, truncated and flipped writes","Random store/replace/load workloads for keys and proofs of random circuits with crash at every write or sync; loader and verifier results checked against the set of values that durability allows.")
c("C03","a deviating prover against the real verifier; reference constraint semantics in big-integer arithmetic","Every gate kind with every single constraint violated on random operands, every copy class split, false claims, lies about openings, bad accumulators, terms left out, forged opening arguments, deviating witness generators and false assertions. Screening by the real constraint evaluator decides which false rows go through the full prover and verifier; the adversary does not break the hash or discrete logarithms.")
c("C11","kernels called by several simulated threads sharing tables under seeded schedules, against sequential references","Random kernel calls (transforms, products, quotients, multi-scalar multiplication, summation, scalar multiplication, commitments, inner products) on degenerate and random inputs with 1 to 16 workers and 1 to 6 callers, also from inside a worker; big-integer references over points with known logarithms.")
c("C13","honest, tampering and cheating lookup provers against the real verifier in simulated exchanges","Random tables and value lists (all sizes to 33, repetitions, zeros, any order) proved under seeded schedules; every message altered; a cheating prover that violates each of the four conditions of the argument, lies about openings, swaps table commitments or forges the accumulator.")
c("C05","honest and forging provers and verifiers exchanging proofs and accumulators over a simulated network that drops, duplicates, reorders, substitutes and alters them","Random trees of proofs over one to three circuits; each verdict of the real verifier compared with the history: accumulators are recomputed from their challenges by an independent polynomial and naive multi-scalar multiplication; lists that differ from the one the proof was made with must be refused, including alterations fitted to the opening point; forged accumulators accepted provisionally must be refused when checked.")
c("C12","entropy source under fault injection (interruptions, short reads, missing call, transient and persistent failure at any point), several simulated processes and callers","Histories of witnesses, proofs, lookup proofs and draws; every blinding point, mask and random row is recovered by recomputing the commitment or folding step without blinding and must be non-zero, not small and different from all others of all processes; no proof may come out once the entropy source failed.")
c("C08","2 to 6 simulated caller threads under seeded schedules with entropy failures and panicking callers, against the same calls in a sequential simulated process","Random mixtures of builds, witnesses, proofs (blinded, unblinded, chained), verifications of good and false proofs, hashes, sums and transforms over shared or first-used state; every single result compared with the sequential process, during and after; calls may give up only while the entropy source fails.")
c("C10","several simulated processes with their own schedules, worker counts, hash seeds and entropy building one program and exchanging serialised keys and proofs","Keys, permutation and constant polynomials, commitments and generators compared between processes and racing threads; proofs (also on old proofs) judged by independently built copies and by shipped keys; unblinded proofs of one trace equal but for what is random by design.")
c("C14","deadlock detection and step bounds on the real code under adverse simulated schedules, against the same operations alone","Rounds, malformed messages and shapes, damaged bytes, generator graphs with cycles and missing dependencies, deep chains, hashing, transforms, sums, lookups and nested parallelism: alone within absolute bounds by kind and size, then by 1 to 6 callers or pool jobs with starvation, spurious wake-ups, clock jumps and entropy failures within 6 times that work plus a constant; after the faults a lone caller must succeed.")
c("C15","big-integer reference for wide-integer and foreign-field programs, under fresh hash seeds and late inputs","Random programs over the wide-integer, comparison, foreign-field and square-root gadgets up to 8 limbs, mixed with ordinary arithmetic, with inputs that become known late; each generated several times in new orders; every number, limb, bound, ordering and foreign element compared. Values only, not soundness.")
