#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Honest PLONK proofs are always accepted",
  "For every circuit whose assignment satisfies all its gates, copy links and public inputs, a proof made by the prover from a large enough reference string is accepted by every verifier that compiles the same circuit itself (knowing no private value) and holds the same reference string. This holds for every hash function both sides agree on, for every value of the operating system's randomness, for every order, duplication or delay in which proofs are delivered, and after the prover crashes and proves again. Once faults stop, every submitted statement ends up accepted within a bounded number of messages.",
  ["inputs", "schedules", "crash_points", "fault_sequences"],
  "all satisfied circuits (size 1 up to the reference string), all entropy streams incl. EINTR/short reads, all hash choices, all delivery schedules and prover crash points",
  "The tests prove four fixed circuits of 2..7 gates in one process with SHA-256 and real entropy; sizes such as 1 gate, other hashes, public inputs, other entropy, a verifier compiled without the witness and repeated or crashed provers are never reached.",
  ["plonk/src/prover.rs", "plonk/src/verifier.rs", "plonk/src/circuit.rs", "plonk/src/slice_polynomial.rs", "plonk/src/challenge.rs", "kzg/src/scheme.rs", "kzg/src/srs.rs"],
  [("five-round prover", "plonk/src/prover.rs generate_proof"), ("pairing check", "plonk/src/verifier.rs verify"), ("circuit padding and permutation", "plonk/src/circuit.rs compile")],
  observe=["result of the verifier for each delivered proof", "panic of prover or verifier"])

p("C02", "Altered, mixed or misdirected PLONK proofs are rejected",
  "A PLONK proof that differs in any component from one the prover produced, or that is checked against another circuit, other public inputs, a reference string made from another secret, or another hash than it was made for, is rejected. The verifier answers every such message with an error and never crashes, whatever the message contains. Rejecting bad messages leaves the verifier able to accept the honest proof that follows.",
  ["fault_sequences", "inputs", "schedules"],
  "all single and multiple component alterations, splices of two genuine proofs, misroutings and stale deliveries, at any point of a session",
  "No test alters a proof or delivers it to another statement; the only negative test panics inside the prover before the verifier is reached.",
  ["plonk/src/verifier.rs", "plonk/src/challenge.rs", "plonk/src/prover.rs"],
  [("recomputed challenges compared with the proof's", "plonk/src/verifier.rs verify_challenges"), ("pairing equation over all components", "plonk/src/verifier.rs verify"), ("transcript hash chain", "plonk/src/challenge.rs feed")],
  observe=["result of the verifier for each delivered proof", "panic of the verifier"])

p("C03", "No PLONK proof is accepted for a false statement",
  "A prover that does not hold a satisfying assignment cannot make the verifier accept: not by running the honest algorithm on a bad assignment, nor by choosing any proof component after learning a challenge that was meant to depend on it. In particular an assignment that breaks one gate, one copy link or one public input never leads to an accepted proof.",
  ["inputs", "fault_sequences", "histories"],
  "all unsatisfied circuits and all Byzantine provers that deviate in a modelled way (bad witness, chosen components fitted to already fixed challenges, statement chosen after the proof)",
  "The tests contain no adversarial prover; the single unsatisfied circuit makes the honest prover panic, so the verifier's checks are never needed.",
  ["plonk/src/verifier.rs", "plonk/src/challenge.rs", "plonk/src/prover.rs", "plonk/src/circuit.rs"],
  [("Fiat-Shamir order: every message absorbed before the challenge that follows it", "plonk/src/verifier.rs verify_challenges"), ("gate, permutation and public-input terms in the pairing equation", "plonk/src/verifier.rs verify"), ("copy permutation", "plonk/src/circuit.rs cal_permutation")],
  observe=["result of the verifier on each forged proof"])

p("C04", "PLONK proofs hide the witness with fresh randomness",
  "Every wire and permutation commitment and every revealed evaluation in a PLONK proof is masked by blinding values that come from the operating system's randomness, differ from each other, are not zero, and are never used again in another proof. This holds for repeated proofs of the same statement, for concurrent provers and for a prover restarted after a crash. If the operating system gives no randomness, no proof is produced.",
  ["histories", "crash_points", "fault_sequences", "schedules"],
  "all sequences of proofs by any number of provers with crashes, restarts, and failing, short or interrupted entropy reads",
  "The tests never look inside a proof: a prover with constant, zero or repeated blinding values passes all of them.",
  ["plonk/src/prover.rs"],
  [("nine blinding scalars from a generator seeded by the OS", "plonk/src/prover.rs generate_proof rounds 1 and 2")],
  observe=["public proof components together with the simulator's knowledge of the witness"])

p("C05", "Prover and verifier derive the same circuit from an expression",
  "For every polynomial equation in the accepted syntax, the circuit the prover derives from the text and the witness, and the preprocessed input the verifier derives from the text alone, describe the same constraints, whatever the witness and whatever the per-process hash seeds, and however often or in whatever process they are derived. A prover with witness values that satisfy the equation gets a proof that a verifier holding only the text accepts.",
  ["inputs", "configurations", "schedules", "crash_points"],
  "all expressions over +, *, powers, integer constants and variables, all witnesses, all hash seeds, all restarts of either party",
  "One expression is compared in one process; hash-map iteration order, other shapes (negative constants, single gates, repeated terms, variables on the right) and witness-dependent layouts are not sampled.",
  ["plonk/src/parser.rs", "plonk/src/common_preprocessed_input/cpi_parser.rs", "plonk/src/common_preprocessed_input/cpi_circuit.rs", "plonk/src/circuit.rs"],
  [("prover-side parser", "plonk/src/parser.rs parse"), ("verifier-side parser", "plonk/src/common_preprocessed_input/cpi_parser.rs compute_common_preprocessed_input")],
  observe=["size, coset factors, selector and permutation commitments, public-input polynomial of both sides"])

p("C06", "An accepted expression proof means the equation holds",
  "If a verifier that derived its circuit from an equation accepts a proof, the prover knew values of the variables that satisfy the equation, each variable having one value at all its occurrences. A prover whose values do not satisfy the equation is not able to obtain an accepted proof.",
  ["inputs", "fault_sequences"],
  "all equations and all false assignments submitted by faulty provers",
  "No test submits values that violate an equation through the parser.",
  ["plonk/src/parser.rs", "plonk/src/common_preprocessed_input/cpi_parser.rs"],
  [("wire naming: equal text, equal wire", "plonk/src/parser.rs prepare_gen_circuit"), ("constant gates", "plonk/src/parser.rs generate_constant_gate")],
  observe=["result of the verifier"])

p("C07", "A KZG opening is accepted exactly when it is correct",
  "For every polynomial that fits the reference string and every point, the opening made for a commitment is accepted, and an opening with any other value, witness point, evaluation point, commitment or reference string is rejected; the opened value is the value of the polynomial. Neither opening nor verification crashes for any such polynomial or any message. This holds whatever the secret behind the reference string and however messages are delayed, duplicated, altered or mixed up.",
  ["inputs", "fault_sequences", "schedules"],
  "all polynomials (zero, constant, up to the maximum degree), points, secrets and message faults",
  "The tests use a handful of fixed polynomials, one wrong value each, and never the zero polynomial, the maximum degree, or a crossed reference string.",
  ["kzg/src/scheme.rs", "kzg/src/opening.rs", "kzg/src/commitment.rs", "kzg/src/srs.rs"],
  [("quotient commitment", "kzg/src/scheme.rs open"), ("pairing check", "kzg/src/scheme.rs verify")],
  observe=["result of verify", "opened value against direct evaluation", "panic"])

p("C08", "KZG batch verification equals checking every opening",
  "A batch of openings is accepted if and only if each opening in it would be accepted on its own, for every batch size and order. In particular errors placed in several openings never cancel out, because each opening is weighted by fresh unpredictable randomness. When the randomness source fails, no batch is accepted.",
  ["inputs", "fault_sequences", "schedules"],
  "all batches, all corruptions including ones coordinated between openings, all randomness streams and their failures",
  "The tests batch a few valid openings and one wrong value; coordinated corruptions and the randomness are untouched.",
  ["kzg/src/scheme.rs"],
  [("random linear combination", "kzg/src/scheme.rs batch_verify")],
  observe=["result of batch_verify against the conjunction of verify"])

p("C09", "KZG commitments and openings combine linearly",
  "Adding, subtracting, scaling, negating and aggregating commitments, and adding openings made at one point, gives the commitment to and an accepted opening of the polynomial combined in the same way. The outcome does not depend on the order in which contributions arrive.",
  ["inputs", "schedules", "fault_sequences"],
  "all sets of contributions from several parties, all coefficients, all arrival orders with duplicates suppressed",
  "The tests add one or two fixed commitments and openings of which both are equal or symmetric.",
  ["kzg/src/commitment.rs", "kzg/src/opening.rs", "kzg/src/scheme.rs"],
  [("group operations on commitments", "kzg/src/commitment.rs"), ("addition of openings", "kzg/src/opening.rs"), ("random aggregation", "kzg/src/scheme.rs aggregate_commitments")],
  observe=["equality with the commitment to the combined polynomial", "result of verify on the combined opening"])

p("C10", "Reference strings are well formed and secret",
  "Every reference string made for circuits of size n consists of consecutive powers of one nonzero secret on the first group, at least enough of them to prove circuits of that size, with the same secret on the second group. Strings made from the operating system's randomness use a fresh, full-range secret each time, also after a restart; when that randomness is unavailable no string is produced.",
  ["configurations", "fault_sequences", "crash_points"],
  "all sizes, all entropy streams with short, interrupted and failing reads, all restarts",
  "The tests check one size and never look at where the secret comes from.",
  ["kzg/src/srs.rs", "kzg/src/scheme.rs"],
  [("random secret", "kzg/src/srs.rs new"), ("power loop", "kzg/src/srs.rs new_from_secret")],
  observe=["pairing relations between consecutive elements", "equality of strings made at different times"])

p("C11", "Honest FRI proofs are always accepted",
  "For every polynomial, every blow-up factor of at least two and every number of queries of at least one, the proof the prover makes is accepted by every verifier using the same hash, in whatever order, delay or duplication proofs arrive and in whatever process they are made. Proving again, or after a crash, gives the same proof.",
  ["inputs", "configurations", "schedules", "crash_points"],
  "all polynomials (zero, constant, any degree), parameters and hash functions, delivery schedules and prover restarts",
  "The tests prove one or two fixed polynomials with fixed parameters.",
  ["fri/src/prover.rs", "fri/src/verifier.rs", "fri/src/fri_layer.rs", "fri/src/merkle_tree.rs", "fri/src/fiat_shamir/transcript.rs"],
  [("folding and query phases", "fri/src/prover.rs"), ("verifier", "fri/src/verifier.rs verify")],
  observe=["result of the verifier", "panic of either side", "equality of repeated proofs"])

p("C12", "Altered FRI proofs are rejected without crashing",
  "A FRI proof in which any part has been changed, dropped, added, exchanged with another proof's, or that is checked with another hash, is rejected, unless it is constant data all of whose queries happen to fall on the same places (a proof cut down consistently to fewer of its queries is itself the honest proof for that many queries). The verifier answers every message, whatever its shape or size fields, with an answer and never crashes or runs without bound.",
  ["fault_sequences", "inputs", "schedules"],
  "all alterations, truncations, extensions, splices and size-field changes of genuine proofs",
  "No test gives the verifier anything but a genuine proof.",
  ["fri/src/verifier.rs", "fri/src/merkle_tree.rs", "fri/src/prover.rs"],
  [("challenge recomputation", "fri/src/verifier.rs verify"), ("Merkle path check", "fri/src/merkle_tree.rs verify"), ("folding equation", "fri/src/verifier.rs")],
  observe=["result of the verifier", "panic or time limit"],
  hook="merkle_tree module made reachable so that forged Merkle paths can be built")

p("C13", "FRI never accepts data that is far from low degree",
  "A prover whose committed data is far from every polynomial of the claimed degree, whose opened values are not the committed ones, whose folding is wrong, or who fixes any commitment after learning a challenge meant to depend on it, is rejected. With q queries the chance of escaping falls exponentially in q.",
  ["inputs", "fault_sequences", "histories"],
  "all Byzantine provers that deviate in a modelled way (forged trees, high-degree data, wrong folding, chosen final value, adaptively fixed layers)",
  "The tests contain no adversarial prover.",
  ["fri/src/verifier.rs", "fri/src/prover.rs", "fri/src/merkle_tree.rs", "fri/src/fiat_shamir/transcript.rs"],
  [("Merkle binding of queried values to layer roots", "fri/src/verifier.rs"), ("folding consistency and final constant", "fri/src/verifier.rs"), ("number of layers against domain size", "fri/src/verifier.rs")],
  observe=["result of the verifier on each forged proof"],
  hook="merkle_tree module made reachable so that Byzantine provers can commit to their own layers")

p("C14", "Folding keeps good instances good and bad ones bad",
  "Folding two committed instances that satisfy a constraint system gives an instance and witness that satisfy it and match each other's commitments, for every system and any number of successive folds in any order of arrival. If either input does not satisfy the system or does not match its commitments, the folded pair does not either. The folding challenge depends on everything in both instances and on the cross term, so that no party can choose an instance after the challenge.",
  ["inputs", "histories", "fault_sequences"],
  "all constraint systems and instances, chains of folds, corrupted inputs, and inputs fitted to an already known challenge",
  "The tests fold one pair of one fixed system.",
  ["nova/src/nifs/mod.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs", "nova/src/r1cs/mod.rs", "nova/src/transcript.rs"],
  [("cross term", "nova/src/nifs/mod.rs compute_t"), ("witness fold", "nova/src/nifs/nifs_prover.rs fold_witness"), ("instance fold", "nova/src/nifs/nifs_verifier.rs fold_instance"), ("challenge", "nova/src/nifs/nifs_prover.rs prover")],
  observe=["relaxed satisfaction and commitments of the folded pair, computed independently"])

p("C15", "IVC makes progress through crashes and restarts",
  "From the first step on, an honest prover that follows the step protocol produces after each step a proof that the verifier accepts for exactly the number of steps done and the state reached, and that state equals the step function applied that many times to the initial state. This holds for any number of steps, when verification happens at any moment, when messages are repeated or late, and when the prover crashes at any point and resumes from its last checkpoint.",
  ["schedules", "crash_points", "histories", "inputs"],
  "all step functions of the supported shape, initial states, step counts, crash points, checkpoint intervals and delivery schedules",
  "The tests run two fixed steps in sequence with no restart.",
  ["nova/src/circuit.rs", "nova/src/ivc/ivc_prover.rs", "nova/src/ivc/ivc_verifier.rs", "nova/src/ivc/mod.rs", "nova/src/nifs/mod.rs"],
  [("step", "nova/src/circuit.rs run, next_step"), ("proof of step", "nova/src/ivc/ivc_prover.rs prove"), ("verification", "nova/src/ivc/ivc_verifier.rs verify")],
  state=[("step counter and states", "position of the computation", "nova/src/circuit.rs AugmentedCircuit")],
  observe=["result of the verifier at every step", "state against a reference evaluation"])

p("C16", "Altered, stale or mixed IVC proofs are rejected",
  "From the first step on, the IVC verifier rejects every message in which any part of a genuine proof has been changed, in which parts of proofs of different steps or of different runs are mixed, or whose claimed step number, initial state or current state is not the one proved. It answers with an error and never crashes, and goes on to accept the genuine proof.",
  ["fault_sequences", "histories", "schedules"],
  "all alterations and recombinations of the proofs, states and claims exchanged in a run, delivered at any time",
  "The tests change one or two components of one proof.",
  ["nova/src/ivc/ivc_verifier.rs", "nova/src/nifs/nifs_verifier.rs", "nova/src/circuit.rs", "nova/src/transcript.rs"],
  [("hash binding of step, states and running instance", "nova/src/ivc/ivc_verifier.rs verify"), ("folding and opening checks", "nova/src/nifs/nifs_verifier.rs")],
  observe=["result of the verifier", "panic"])

p("C17", "An IVC step happens only from the state the last step left",
  "After the first step, a step is taken only if the instance presented is the one that commits to the current step number, initial state, current state and running instance, and the running instance presented is that very one; otherwise the step is refused. A refused step changes nothing: the machine can still take the right step afterwards. Taking the step advances the counter by one and the state by one application of the step function.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "all sequences of steps, repeated, reordered, stale or altered step inputs, and crashes between them",
  "The tests only take right steps in order.",
  ["nova/src/circuit.rs"],
  [("hash comparison before the step", "nova/src/circuit.rs run"), ("state advance", "nova/src/circuit.rs next_step")],
  state=[("i, z_0, z_i, h_i", "committed position", "nova/src/circuit.rs AugmentedCircuit")],
  observe=["result of run", "step counter, states and hashes before and after"])

p("C18", "Folding proofs with any altered part are rejected",
  "The verifier of a folding proof accepts it for the two instances, the cross-term commitment and the folded instance it was made for, and rejects it when the challenge, an opening, a commitment, a public value or any instance is altered or belongs to another fold. It never crashes on any message.",
  ["fault_sequences", "inputs", "schedules"],
  "all alterations and recombinations of folding proofs and instances",
  "The tests check one genuine proof and one wrong one.",
  ["nova/src/nifs/nifs_verifier.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/transcript.rs"],
  [("challenge check", "nova/src/nifs/nifs_verifier.rs verify_challenge"), ("opening check", "nova/src/nifs/nifs_verifier.rs verify_opening")],
  observe=["result of verify", "panic"])

p("C19", "An accepted IVC proof means the computation was done",
  "If the IVC verifier accepts a proof that n steps lead from an initial state to a current state, then the step function applied n times to the initial state gives that current state. A prover that skips, changes or invents a step is not accepted.",
  ["histories", "fault_sequences"],
  "all Byzantine provers that deviate in a modelled way from the computation and then follow the proof protocol",
  "No test has a prover that computes wrongly.",
  ["nova/src/ivc/ivc_verifier.rs", "nova/src/circuit.rs", "nova/src/ivc/ivc_prover.rs"],
  [("folded instance must satisfy the step relation", "nova/src/ivc/ivc_verifier.rs verify")],
  observe=["result of the verifier for wrong computations"])

p("C20", "Fiat-Shamir transcripts agree and bind everything absorbed",
  "In each of the three proof systems, two parties that absorb the same messages in the same order get the same challenges, in any process and however their calls interleave with other sessions; parties whose absorbed messages differ in any byte, in order or in number get different challenges. A challenge is drawn only after new data was absorbed where the protocol forbids reuse, and repeated draws that are allowed give different values. Every round message of a prover (commitments, claimed evaluations, layer roots, the final constant, folded instances, cross terms) and the PLONK statement are absorbed before the next challenge is drawn.",
  ["schedules", "histories", "inputs"],
  "all message histories, interleavings of sessions and process restarts, for every hash function",
  "The tests compare two or three short histories.",
  ["plonk/src/challenge.rs", "fri/src/fiat_shamir/transcript.rs", "nova/src/transcript.rs"],
  [("hash chain", "plonk/src/challenge.rs feed"), ("absorb/challenge", "fri/src/fiat_shamir/transcript.rs"), ("feed/generate", "nova/src/transcript.rs")],
  observe=["challenges of two parties", "bytes handed to the hash function during a proof"],
  hook="plonk challenge module made reachable")

p("C21", "Expression texts have their usual arithmetic meaning",
  "Powers, products, sums, integer constants, case and blanks in an equation text mean what ordinary arithmetic says.",
  ["inputs"], "all texts of the accepted syntax",
  "Only a few texts are parsed.",
  ["plonk/src/parser.rs", "plonk/src/common_preprocessed_input/cpi_parser.rs"],
  [("power expansion", "plonk/src/parser.rs parse_string")])

p("C22", "Vector, matrix and polynomial helpers compute what they name",
  "Sums, products, matrix-vector products, polynomial evaluation, interpolation, splitting and folding helpers return the mathematically defined result for all operands of matching size.",
  ["inputs"], "all operands",
  "The tests use small fixed operands.",
  ["nova/src/utils.rs", "plonk/src/slice_polynomial.rs", "fri/src/prover.rs"],
  [("vector helpers", "nova/src/utils.rs"), ("slices", "plonk/src/slice_polynomial.rs"), ("polynomial folding", "fri/src/prover.rs fold_polynomial")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
