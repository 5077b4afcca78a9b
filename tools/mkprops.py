#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

C, B, X, E, D = "zksk/composition.py", "zksk/base.py", "zksk/extended.py", "zksk/expr.py", "zksk/primitives/dlrep.py"
NE, R, S, PA, U = "zksk/primitives/dl_notequal.py", "zksk/primitives/rangeproof.py", "zksk/primitives/bbsplus.py", "zksk/pairings.py", "zksk/utils/groups.py"

p("C01", "True statements always prove and verify",
  "For every statement composed with AND and OR from discrete-logarithm representations and the included primitives, over any supported group, a prover holding the needed secrets obtains a proof that a verifier who rebuilds the statement independently and without secret values accepts, both non-interactively (with the same message) and in the interactive protocol. Secret values may be given on the secrets or in a mapping at proving time, as plain or big integers, and may be zero, negative, equal to each other or larger than the group order; secrets and bases may repeat.",
  ["inputs", "programs"], "every well-formed composition tree, every assignment of true secrets and public values, every message, both proof modes",
  "The tests run some thirty fixed trees with small hand-picked secrets; nesting, sharing pattern, group and value combinations are unbounded.",
  [C, B, X, D], [("commit/challenge/response recursion over the tree", C), ("Fiat-Shamir proof and check", B), ("precommitment handling", X)],
  ["prove()/verify()", "get_prover()/get_verifier() message exchange", "SigmaProtocol.verify"])

p("C02", "A prover without a witness never convinces a verifier",
  "If the secret values a prover supplies do not satisfy the statement (some conjunct is false, or every usable disjunct is false), then whatever it produces through the library, non-interactively or interactively, is not accepted. Proving either refuses with an error or yields something verification rejects.",
  ["inputs", "programs"], "every composition tree, every position of the false leaf or wrong secret, every wrong value that differs modulo the group order",
  "The tests falsify one secret in a handful of fixed statements; a check that is skipped for one position or one nesting is invisible to them.",
  [C, B, D, X], [("verification identity per leaf", D), ("all conjuncts recomputed", C)],
  ["verify() result", "interactive verifier result"])

p("C03", "A proof is valid only for the statement it was made for",
  "A proof accepted for one statement is never accepted for a statement that differs in any public value, base, order or number of terms, pattern of shared secrets, AND/OR connective, order or nesting of clauses, range bound, or kind of primitive. This holds even when the statement digest attached to the proof is replaced by that of the other statement.",
  ["inputs", "programs"], "every pair (statement, single semantic edit of it), with and without digest replacement",
  "One test swaps the order of two terms in a two-term statement; no other difference is sampled.",
  [C, B, D, X], [("statement identifier hashed into the challenge", C), ("digest comparison", C)],
  ["verify() on a different statement object"])

p("C04", "Any change to a proof or its message makes it rejected",
  "Verifying an accepted proof under a different message, or after changing its challenge, any response, any subchallenge of a disjunction, any part of its precommitment or its statement digest, never succeeds. Only responses that stay the same modulo the group order are exempt, and changes that satisfy the same equations with the same commitments because a statement repeats a base or has a neutral public value or base.",
  ["inputs"], "every accepted proof, every field and nested position in it, every changed value, every pair of different messages",
  "One test randomises one response of one two-term proof, none changes a message or any other field.",
  [B, C, D], [("challenge recomputation", B), ("consistency of subchallenges", C)],
  ["verify() on the mutated proof"])

p("C05", "A disjunction cannot be proved without proving one disjunct",
  "No transcript in which every clause of a disjunction is simulated is accepted, whatever subchallenges it carries: too many or too few of them, negative ones, ones outside the challenge range, ones shifted by multiples of a group order, or ones that do not add up to the overall challenge. This holds for disjunctions at the top level and nested at any depth, in both proof modes.",
  ["inputs", "programs"], "every disjunction shape and depth, every way of choosing subchallenges and responses from simulations",
  "No test builds an adversarial disjunction transcript; tests only run the honest prover and the honest simulator.",
  [C], [("subchallenges must add up to the global challenge", C)],
  ["verify() on a forged NIZK", "interactive verifier on forged messages"])

p("C06", "A secret reused across conjuncts is enforced to be one value",
  "When the same secret appears several times in one statement outside disjunctions, or within one clause of a disjunction, a prover that uses different values for its occurrences is rejected even if each occurrence is satisfied by its own value; this includes secrets bound by inequality, range and signature primitives. Distinct secrets are never forced to be equal.",
  ["inputs", "programs"], "every sharing pattern across terms, conjuncts and nesting levels; every choice of diverging values",
  "One test lets a malicious prover diverge on one secret of a two-clause conjunction; other positions and nestings are not sampled.",
  [C, D, X], [("equal responses for equal secrets", D), ("consistency check recursion", C)],
  ["verify() result for a deviating prover"])

p("C07", "A disjunction's proof does not reveal which clause is true",
  "Proofs of the same disjunction obtained from different true clauses are indistinguishable by form: presence and nesting of every component, value types and admissible value ranges are the same whichever clause was really proved. No component of a clause marks it as the proved or the simulated one.",
  ["inputs", "programs"], "every disjunction (nested, with conjunctions and primitives as clauses), every choice of the clause really proved",
  "No test compares transcripts produced from different witnesses; a sign or a missing placeholder that gives the witness away passes all of them.",
  [C, X, R, NE, S], [("simulated clauses and residual challenge", C), ("simulated precommitments", X)],
  ["NIZK fields", "interactive messages"])

p("C08", "The clause really proved is a usable one, and simulate marks are obeyed",
  "When proving a disjunction, a clause marked as simulated or lacking any secret value is never the one really proved, so a prover with at least one usable true clause always succeeds, whatever kind of statement the other clauses are and even if their known secrets do not satisfy them. If no clause is usable, no proof is produced; if several are, each gets chosen.",
  ["inputs", "programs"], "every disjunction, every assignment of simulated marks and of known secrets to clauses, every random choice",
  "The tests mark one clause of two or leave one representation without secrets; unusable conjunctions and primitives and repeated random choices are not sampled.",
  [C, D, X], [("candidate selection", C), ("prover availability", D)],
  ["get_prover()/prove() success", "NIZK verdict"])

p("C09", "Simulated transcripts are well formed but are not proofs",
  "For every statement whose parts can be simulated, without any secret value, simulation yields a transcript that satisfies the verification equations, carries the requested challenge when one is given, and is rejected as a proof by a verifier. Changing a response, commitment or challenge of it breaks the equations.",
  ["inputs", "programs"], "every simulatable composition tree, every requested challenge",
  "Tests simulate five fixed statements and never request a challenge.",
  [C, D, X, NE, R, S], [("simulate_proof recursion", C), ("simulate_precommit", X)],
  ["simulate()", "verify_simulation_consistency()", "verify()"])

p("C10", "Proofs use fresh full-range randomness and do not leak secrets",
  "Each run draws new independent randomisers covering the whole group order: the same randomiser serves all occurrences of one secret in a conjunction and nothing else, and no two proofs, secrets or disjunction clauses share one. From any set of proofs of the same or related statements no secret or blinding value can be computed by the usual linear equations, and repeated proofs never share commitments, precommitments or simulated responses.",
  ["histories", "inputs"], "every statement, every sequence of proofs of it by reused or new statement objects, reseeding of the ordinary random generator included",
  "Tests look at one commitment at a time; reuse across runs or between secrets needs several transcripts to be seen.",
  [D, C, NE, R, S, U], [("randomiser drawing", D), ("randomiser sharing inside AND", C), ("blinders of precommitments", X)],
  ["several NIZKs of one statement, with the secrets known to the checker"])

p("C11", "Serialised proofs round-trip with the same verdict",
  "Serialising any proof and reading it back gives a proof with the same content, and every verifier gives it the same verdict as the original, for every kind of statement including those over pairing groups and those with precommitments. Serialising again gives the same bytes.",
  ["inputs", "programs"], "every statement kind and composition, honest and tampered proofs",
  "One test round-trips a disjunction of two representations; precommitments and pairing points are never serialised.",
  [B, PA], [("NIZK serialize/deserialize", B), ("point coders", PA)],
  ["NIZK.serialize/deserialize", "verify()"])

p("C12", "Proofs made in one process verify in another",
  "Statement digests, default generators and proofs do not depend on the process that computes them: a proof serialised by one process is accepted by another process with its own memory layout and hash randomisation that rebuilds the same statement. The same statement has the same digest in both, and different statements have different digests.",
  ["configurations", "inputs"], "every statement kind, every pair of processes (hash seeds, allocation history)",
  "All tests prove and verify in one process, and the runner pins the hash seed.",
  [C, PA, E, U], [("statement identifier", C), ("text form of points", PA), ("secret naming", E)],
  ["verify() in a separate process"])

p("C13", "Verdicts do not depend on what a statement object was used for before",
  "Proving, verifying, simulating and interactive runs can be repeated and mixed in any order on the same statement objects, and one prover or verifier object can serve one session after another: every honest proof keeps being accepted, every invalid one keeps being rejected, and proving keeps working. Using a statement never changes the secret values, mappings, expressions or proofs passed in by the caller beyond assigning the given values to secrets.",
  ["histories"], "every sequence of prove / verify / verify-tampered / simulate / interactive operations over shared statement objects",
  "Each test uses a statement once or twice; state left behind by earlier operations needs longer histories.",
  [C, X, D, B], [("per-run state kept on statements", X), ("simulated flags", C)],
  ["results of a random operation sequence"], [("simulated mark", "clause to be simulated", C), ("constructed inner statement", "built from the last precommitment", X)])

p("C14", "Composition operators mean what they say and isolate their operands",
  "Writing a composition with & and | is equivalent to using the conjunction and disjunction constructors, with chains of one operator flattened into one level in the same order. Composed statements own copies: marking, reusing or proving an operand or another composition built from it afterwards does not affect an existing composition, one object may occur several times in a tree, and composing leaves the operands as they were.",
  ["programs", "inputs"], "every operator expression over operands, every later use of the operands, every multiplicity of one operand",
  "Tests compare two fixed compositions; sharing of nested operands is not exercised.",
  [C, X], [("__and__/__or__ flattening", C), ("copying of subproofs", C)],
  ["statement digests", "proof verdicts"])

p("C15", "Unsupported compositions are refused by prover and verifier",
  "A statement in which a secret occurs both inside a disjunction and elsewhere in the enclosing conjunction, or in which one secret is used with bases of groups of different order, is neither provable nor verifiable: proving raises an error and no transcript is accepted for it. A representation mixing bases of different groups, a composition of fewer than two clauses, and a right-hand side that is not an expression are rejected at construction; legal statements are never refused on these grounds.",
  ["programs", "inputs"], "every tree containing one unsupported reuse at any depth, and every legal tree near it",
  "Three fixed statements are tried, all on the proving side.",
  [C, D, E], [("secret reoccurrence check", C), ("group order check", C), ("base group check", D)],
  ["exceptions at construction, proving, verification"])

p("C16", "Inequality proofs verify exactly when the logarithms differ",
  "A proof that the logarithm of one pair is known and differs from that of another pair is accepted whenever that is so, and is never accepted when the two logarithms are equal, when the prover's secret is not the first pair's logarithm, or when the carried blinded difference is the neutral element or was altered. In binding mode the secret is tied to its other occurrences in the statement; otherwise it is not.",
  ["inputs", "programs"], "every pair of pairs, every secret, both modes, alone and composed, honest and adversarial precommitments",
  "Tests use a few small fixed values and never an adversarial precommitment.",
  [NE, X], [("blinded difference and inner conjunction", NE), ("neutral element check", NE)],
  ["verify()", "interactive verification"])

p("C17", "Range proofs verify exactly for committed values inside the range",
  "For every interval of width at least one and every committed value, a range proof is accepted if the value lies in the interval (lower end included, upper end excluded) and none can be obtained or assembled for a value outside it, whatever bit commitments the proof carries. The proof is bound to the commitment, its bases and both bounds.",
  ["inputs"], "every lower and upper bound, every value inside or outside, honest provers and provers sending inconsistent, surplus, missing or non-bit commitments",
  "Tests cover about ten fixed intervals, none of width one or two, and no dishonest bit commitments.",
  [R], [("two power-of-two proofs", R), ("bit decomposition and its validation", R)],
  ["verify()", "errors when proving"])

p("C18", "A BBS+ signature verifies exactly for the signed messages",
  "A signature issued on a committed message list, blinded or not, verifies under the issuer's key for exactly that list: changing, adding, dropping or reordering differing non-zero messages, using another key, or altering the signature makes verification fail. The proof that a blinded commitment was formed correctly is accepted only for that commitment and key material, and a credential request object can be reused for further requests.",
  ["inputs", "histories"], "every message list up to the key capacity, blinded or not, every single change, sequences of issuing operations",
  "One test signs one fixed list and checks acceptance only.",
  [S, PA], [("pairing check", S), ("unblinding", S), ("commitment proof", S)],
  ["verify_signature", "verify_blinding"])

p("C19", "Signature proofs verify only for holders of a valid signature",
  "A proof of knowledge of a signature is accepted by a verifier holding only the public key when the prover has a valid signature on its hidden messages, alone or composed with other statements that share those messages. It is rejected when the signature, a message or the key is wrong, when the blinded signature elements it carries are altered, or when a message shared with another statement has a different value there.",
  ["inputs", "programs"], "every message list and key, every wrong component, binding and non-binding mode, composition with other statements, adversarial precommitments",
  "Tests use one fixed list of three messages and a few compositions.",
  [S, X], [("inner conjunction over G1 and GT", S), ("response consistency across statements", C)],
  ["verify()", "interactive verification"])

p("C20", "Pairing groups obey group laws and survive encoding",
  "The wrapped groups G1, G2 and GT satisfy the additive group laws and scalar multiplication laws for every scalar (zero, negative, larger than the order included), and the pairing is bilinear and non-degenerate. Equality, weighted sums, encoding and decoding agree with these laws, decoded points are interchangeable with the originals, and equal points have equal text forms while different points have different ones.",
  ["inputs"], "every point and scalar of the three groups",
  "Tests check a few fixed points.",
  [PA], [("point wrappers", PA), ("pack coders", PA)],
  ["point operators", "petlib.pack encode/decode"])

p("C21", "Expressions behave as ordered linear combinations",
  "Adding and multiplying secrets and bases yields expressions listing secrets and bases in writing order, without altering the expressions they were made from, so any sub-expression may be reused. Evaluating an expression gives the sum of value times base exactly when all values are known and fails otherwise; anything that is not a linear combination is rejected, and two secrets are the same only if they are the same named one: secrets made without a name differ from all others, also from copies of secrets that no longer exist and from those of another process.",
  ["inputs", "programs"], "every expression tree built from shared sub-expressions, every value assignment",
  "Tests build three fixed expressions, each used once.",
  [E], [("Expression addition", E), ("evaluation", E), ("secret identity", E)],
  ["Expression.secrets/bases/eval", "statements built from shared expressions"])

p("C22", "The interactive verifier accepts exactly the valid transcripts",
  "A commitment that names another statement is refused. Given a commitment, the verifier draws a fresh 128-bit challenge and accepts exactly those responses that satisfy, for every representation, weighted sum of bases = commitment + challenge times public value, with equal responses for equal secrets and, in a disjunction, subchallenges that are in range and add up to its challenge. Consequently two accepted runs with one commitment and different challenges yield the witness, and a response to one challenge is rejected under another.",
  ["inputs", "programs", "schedules"], "every tree of representations, every valid or invalid algebraic transcript built by an independent reference, every challenge",
  "Tests only feed honest provers' messages.",
  [B, C, D], [("verification identity", D), ("challenge drawing", B), ("response computation", D)],
  ["Verifier.send_challenge/verify", "Prover.compute_response"])

p("C23", "User-defined primitives get the guarantees of built-in ones",
  "A primitive defined by the documented extension points (an inner statement built from a precommitment, optional precommitment, validation and simulation) can be proved and verified alone, in conjunctions and in disjunctions, in both proof modes, by separate prover and verifier objects. The prover's precommitment reaches the verifier unchanged and is bound to the proof, and a proof whose precommitment fails the primitive's own validation is rejected wherever the primitive occurs in the tree. Further arguments given to a verification reach the validation of every primitive.",
  ["programs", "inputs"], "every generated primitive (inner statement shape, precommitment shape, validation rule) at every place of a composition",
  "Tests run two example primitives alone and never a failing validation inside a composition.",
  [X, C], [("construction from precommitment", X), ("recursive validation", C), ("distribution of precommitments", C)],
  ["prove()/verify()", "interactive messages"])

p("C24", "Generator derivation and number helpers are exact",
  "Generators derived from a seed are reproducible, independent of how many are requested, pairwise distinct, non-neutral members of the requested group; without a seed they are fresh each time. Random numbers stay below the requested bit length and cover the range, modular sums equal integer sums modulo the modulus for plain and big integers alike, and bit decomposition and integer conversion are exact or refuse.",
  ["inputs"], "every seed, count, group, bit length, list of summands and modulus",
  "Tests and doctests check one value each.",
  [U, R], [("hash-to-point derivation", U), ("modular summation", U), ("bit decomposition", R)],
  ["utils functions"])

p("C25", "No malformed proof is ever accepted",
  "Whatever proof object or serialised byte string a verifier is given, other than a proof equal in content to one made with the witness, verification does not succeed: it returns a negative verdict or raises an error. This covers truncated, extended, reordered, retyped and spliced proofs (parts taken from different valid proofs) for every kind of statement.",
  ["inputs", "fault_sequences"], "every structural or byte-level corruption of proofs of every statement kind",
  "Tests never feed a malformed proof.",
  [B, C, X, D, PA], [("decoding", B), ("verification", B)],
  ["NIZK.deserialize + verify()"])

p("C26", "The challenge fixes commitments and public values beforehand",
  "A non-interactive proof cannot be assembled by choosing any commitment, precommitment, public value or base after the challenge is known: in every statement each of these influences the challenge. Transcripts built in that order, for any clause of any statement, are rejected.",
  ["inputs", "programs"], "every statement, every leaf chosen as the unknown one, every element adapted after the challenge",
  "Tests only tamper after an honest proof; omission of one element from the hash needs an adaptive forger.",
  [B, C, X], [("challenge derivation", B), ("statement identifier contents", C)],
  ["verify() on adaptively built NIZKs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
