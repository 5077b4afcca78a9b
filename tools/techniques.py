TECH = {
 "C01": "property-based testing: generated statement trees, accept oracle, both proof modes",
 "C02": "property-based testing: generated trees without a witness, integer truth model, reject oracle",
 "C03": "property-based testing: generated statement edits, metamorphic cross-verification and canonical-form model",
 "C04": "property-based testing: mutation of accepted proofs against reference equations",
 "C05": "property-based testing: generated forgeries with all clauses simulated, reject oracle and positive control",
 "C06": "property-based testing: provers with one value per occurrence, reject oracle and positive control",
 "C07": "property-based testing: metamorphic relation between proofs from different clauses, statistical marks",
 "C08": "property-based testing: generated marks and missing values against a model of usable clauses",
 "C09": "property-based testing: simulated transcripts against reference equations, mutations",
 "C10": "property-based testing: histories of proofs, linear extraction oracle, randomness spy, statistics",
 "C11": "property-based testing: round-trip and differential verdicts of serialised proofs",
 "C12": "property-based testing: differential digests and verdicts between processes",
 "C13": "stateful property-based testing: generated operation sequences on shared objects against a verdict model",
 "C14": "property-based testing: operator form against constructor form, isolation after generated edits",
 "C15": "property-based testing: generated illegal reuse, refusal oracle, legal neighbours accepted",
 "C16": "property-based testing: generated inequality parameters and adversarial provers against integer truth",
 "C17": "property-based testing: generated ranges and adversarial bit commitments against integer truth",
 "C18": "property-based testing: generated issuing histories against a reference issuer",
 "C19": "property-based testing: generated signature proofs and altered elements against the signature equation",
 "C20": "property-based testing: group programs against an integer model",
 "C21": "property-based testing: expression programs against a list model",
 "C22": "property-based testing: differential verdicts against reference equations, witness extraction",
 "C23": "property-based testing: generated primitives against a model of their verdicts",
 "C24": "property-based testing: generators and helpers against integer models",
 "C25": "property-based testing and fuzzing: structural and byte mutations of proofs, splices, reject oracle",
 "C26": "property-based testing: generated adaptive forgeries, reject oracle and positive control",
}
