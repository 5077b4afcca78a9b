From ad4ca4e30547571656e99ffc6f4eec8d8048f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 01/38] fix: or-proof residual challenge revealed the proved
 clause by its sign

---
 zksk/composition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0d4ae5b..9545f16 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -36,7 +36,8 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     modulus = Bn(2).pow(modulus)
     temp_arr = subchallenges.copy()
     temp_arr.append(-challenge)
-    return -sum_bn_array(temp_arr, modulus)
+    # Reduce, so that the result is in the same range as any other subchallenge.
+    return -sum_bn_array(temp_arr, modulus) % modulus
 
 
 def _assign_secret_ids(secret_vars):
-- 
2.43.0


From 8181761520374e50292436e064ad1bb9f8521bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 02/38] fix: reject or-proofs with surplus or out-of-range
 subchallenges, and surplus responses

---
 zksk/composition.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 9545f16..481ece5 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -422,6 +422,16 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        if len(self.or_challenges) != len(self.subproofs) or len(responses) != len(
+            self.subproofs
+        ):
+            raise InconsistentChallengeError("One subchallenge per subproof expected.")
+
+        # Out-of-range subchallenges could be shifted by multiples of the group order
+        max_challenge = Bn(2).pow(CHALLENGE_LENGTH)
+        if any(c < 0 or c >= max_challenge for c in self.or_challenges):
+            raise InconsistentChallengeError("Subchallenge out of range.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From ac4dd42c1f210ed575ba242f9ffd7188c8cdc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 03/38] fix: reject proofs with surplus responses

---
 zksk/composition.py      | 8 +++++---
 zksk/primitives/dlrep.py | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 481ece5..f155b1c 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -18,7 +18,7 @@ from zksk.utils import get_random_num, sum_bn_array
 from zksk.utils.misc import get_default_attr
 from zksk.exceptions import StatementSpecError, StatementMismatch
 from zksk.exceptions import InvalidSecretsError, GroupMismatchError
-from zksk.exceptions import InconsistentChallengeError
+from zksk.exceptions import InconsistentChallengeError, ValidationError
 
 
 def _find_residual_challenge(subchallenges, challenge, modulus):
@@ -419,8 +419,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
     def recompute_commitment(self, challenge, responses):
         # We retrieve the challenges, hidden in the responses tuple
-        self.or_challenges = responses[0]
-        responses = responses[1]
+        self.or_challenges, responses = responses
 
         if len(self.or_challenges) != len(self.subproofs) or len(responses) != len(
             self.subproofs
@@ -741,6 +740,9 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.validate_secrets_reoccurence()
 
     def recompute_commitment(self, challenge, responses):
+        if len(responses) != len(self.subproofs):
+            raise ValidationError("One response per subproof expected.")
+
         com = []
         for index, subproof in enumerate(self.subproofs):
             com.append(subproof.recompute_commitment(challenge, responses[index]))
diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 27ec139..95c4bf3 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -22,6 +22,7 @@ from zksk.utils import get_random_num
 from zksk.consts import CHALLENGE_LENGTH
 from zksk.composition import ComposableProofStmt
 from zksk.exceptions import IncompleteValuesError, InvalidExpression
+from zksk.exceptions import ValidationError
 
 import warnings
 
@@ -170,6 +171,8 @@ class DLRep(ComposableProofStmt):
         return output
 
     def recompute_commitment(self, challenge, responses):
+        if len(responses) != len(self.bases):
+            raise ValidationError("One response per base expected.")
 
         commitment = (
             self.lhs.group.wsum(responses, self.bases) + (-challenge) * self.lhs
-- 
2.43.0


From 854b5d8922e0108dab3bcfe5ab14979ad261daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 04/38] fix: proving or simulating a statement no longer marks
 it as simulated

---
 zksk/composition.py      | 1 -
 zksk/primitives/dlrep.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index f155b1c..433a80f 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -302,7 +302,6 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Generate the transcript of a simulated non-interactive proof.
         """
-        self.set_simulated()
         self.prepare_simulate_proof()
         transcript = self.simulate_proof(challenge=challenge)
         transcript.stmt_hash = self.prehash_statement().digest()
diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 95c4bf3..001da1f 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -124,7 +124,7 @@ class DLRep(ComposableProofStmt):
         secrets_dict = self.secret_values
         # If missing secrets or simulation parameter set, return now
         if (
-            self.set_simulated()
+            self.simulated
             or secrets_dict == {}
             or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))
         ):
-- 
2.43.0


From b0dcae8f1ab441272016f96472eaa163548d3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 05/38] fix: or-proof failed at random when an and-clause
 lacked secrets

---
 zksk/composition.py | 13 ++++++++++---
 zksk/exceptions.py  |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 433a80f..a9ad8d9 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -19,6 +19,7 @@ from zksk.utils.misc import get_default_attr
 from zksk.exceptions import StatementSpecError, StatementMismatch
 from zksk.exceptions import InvalidSecretsError, GroupMismatchError
 from zksk.exceptions import InconsistentChallengeError, ValidationError
+from zksk.exceptions import MissingConjunctError
 
 
 def _find_residual_challenge(subchallenges, challenge, modulus):
@@ -479,8 +480,14 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         possible = list(candidates.keys())
         self.chosen_idx = random_gen.choice(possible)
 
+        def try_get_prover(subproof):
+            try:
+                return subproof.get_prover(secrets_dict)
+            except MissingConjunctError:
+                return None
+
         # Feed the selected proof the secrets it needs if we have them, and try to get_prover
-        valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+        valid_prover = try_get_prover(self.subproofs[self.chosen_idx])
         while valid_prover is None:
             possible.remove(self.chosen_idx)
             # If there is no proof left, abort and say we cannot get a prover
@@ -488,7 +495,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
                 self.chosen_idx = None
                 return None
             self.chosen_idx = random_gen.choice(possible)
-            valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+            valid_prover = try_get_prover(self.subproofs[self.chosen_idx])
         return OrProver(self, valid_prover)
 
     def get_verifier(self):
@@ -761,7 +768,7 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
         if None in subs:
             # TODO: It'd be great to know which one is failing.
-            raise ValueError("Failed to construct prover for a conjunct")
+            raise MissingConjunctError("Failed to construct prover for a conjunct")
 
         return AndProver(self, subs)
 
diff --git a/zksk/exceptions.py b/zksk/exceptions.py
index 7546475..777dc56 100644
--- a/zksk/exceptions.py
+++ b/zksk/exceptions.py
@@ -15,6 +15,10 @@ class InconsistentChallengeError(Exception):
     """Recomputed and global challenge values do not match."""
 
 
+class MissingConjunctError(ValueError):
+    """A conjunct cannot be proved, as it is simulated or lacks secret values."""
+
+
 class StatementMismatch(Exception):
     """Proof statements mismatch, impossible to verify."""
 
-- 
2.43.0


From 65a9d7794b7d09eaba30f1e51886aacfa32e6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 06/38] fix: or-proofs picked extended clauses that are
 simulated or lack secrets

---
 zksk/composition.py            | 14 ++++++++++++++
 zksk/primitives/bbsplus.py     |  5 +++++
 zksk/primitives/dl_notequal.py |  3 +++
 zksk/primitives/rangeproof.py  |  3 +++
 4 files changed, 25 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index a9ad8d9..d6210c8 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -162,6 +162,12 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         else:
             raise StatementSpecError("No verifier class specified.")
 
+    def can_prove(self):
+        """
+        Tell if this clause can be the one really proved in an or-proof. Override if needed.
+        """
+        return not self.simulated
+
     def get_prover(self, secrets_dict=None):
         """
         Get the :py:class:`base.Prover` for the current proof.
@@ -481,6 +487,8 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.chosen_idx = random_gen.choice(possible)
 
         def try_get_prover(subproof):
+            if not subproof.can_prove():
+                return None
             try:
                 return subproof.get_prover(secrets_dict)
             except MissingConjunctError:
@@ -498,6 +506,9 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             valid_prover = try_get_prover(self.subproofs[self.chosen_idx])
         return OrProver(self, valid_prover)
 
+    def can_prove(self):
+        return super().can_prove() and any(sub.can_prove() for sub in self.subproofs)
+
     def get_verifier(self):
         return OrVerifier(self, [sub.get_verifier() for sub in self.subproofs])
 
@@ -772,6 +783,9 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
         return AndProver(self, subs)
 
+    def can_prove(self):
+        return super().can_prove() and all(sub.can_prove() for sub in self.subproofs)
+
     def get_verifier(self):
         """
         Constructs a Verifier for the and-proof, based on a list of the Verifiers of each subproof.
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 62edede..402a058 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -254,6 +254,11 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def can_prove(self):
+        return super().can_prove() and self.signature is not None and all(
+            secret.value is not None for secret in self.secret_vars
+        )
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 713254b..4829fb3 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -60,6 +60,9 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def can_prove(self):
+        return super().can_prove() and self.x.value is not None
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index ff57624..bd33f45 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -79,6 +79,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def can_prove(self):
+        return super().can_prove() and self.is_prover
+
     def precommit(self):
         """
         Commit to the bit-decomposition of the value.
-- 
2.43.0


From 021fd4fdc67f85c156ee2ca0f8cb056742fa166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 07/38] fix: precommitments of or-proofs revealed which clause
 was simulated

---
 zksk/composition.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index d6210c8..6ba7214 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -575,6 +575,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         resp.append(final_transcript.responses)
         precom.append(final_transcript.precommitment)
 
+        # As in a real proof, there is no precommitment if no subproof has any.
+        if all(p is None for p in precom):
+            precom = None
+
         # Pack everything into a SimulationTranscript, pack the or-challenges in the response field.
         return SimulationTranscript(
             commitment=com,
@@ -625,7 +629,7 @@ class OrProver(Prover):
                 else:
                     index1 = index
                 precommitment.append(self.simulations[index1].precommitment)
-        if not any(precommitment):
+        if all(p is None for p in precommitment):
             return None
         return precommitment
 
@@ -845,6 +849,10 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             resp.append(simulation.responses)
             precom.append(simulation.precommitment)
 
+        # As in a real proof, there is no precommitment if no subproof has any.
+        if all(p is None for p in precom):
+            precom = None
+
         return SimulationTranscript(
             commitment=com, challenge=challenge, responses=resp, precommitment=precom
         )
-- 
2.43.0


From eabdc47a5c5d387f26ebd77a81971542ebe747c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 08/38] fix: range proofs over intervals of width one or two
 could not be built

---
 zksk/primitives/rangeproof.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index bd33f45..a3c65ee 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -133,6 +133,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
 
             bit_proofs.append(p0 | p1)
 
+        if len(bit_proofs) == 1:
+            return bit_proofs[0]
+
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
@@ -216,7 +219,7 @@ class GenericRangeStmtMaker:
         """
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
 
         com_shifted1 = com - a * g
@@ -287,7 +290,7 @@ class GenericRangeOnlyStmtMaker:
 
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
-- 
2.43.0


From b482580b8c36ce10f050d701ab39a75ede4424bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 09/38] fix: interactive verification of extended statements
 whose inner statement is not an and-proof

---
 zksk/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index e181697..cdd67e7 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -187,7 +187,7 @@ class Verifier(metaclass=abc.ABCMeta):
         """
         pass
 
-    def send_challenge(self, commitment):
+    def send_challenge(self, commitment, ignore_statement_hash_checks=False):
         """
         Store the received commitment and generate a challenge.
 
@@ -197,9 +197,15 @@ class Verifier(metaclass=abc.ABCMeta):
             commitment: A tuple containing a hash of the stmt statement, to be
                 compared against the local statement, and the commmitment as a
                 (potentially multi-level list of) base(s) of the group.
+            ignore_statement_hash_checks: Optional parameter to deactivate the
+                statement check. In this case, the commitment parameter is
+                simply the actual commitment.
         """
-        statement, self.commitment = commitment
-        self.stmt.check_statement(statement)
+        if ignore_statement_hash_checks:
+            self.commitment = commitment
+        else:
+            statement, self.commitment = commitment
+            self.stmt.check_statement(statement)
         self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
-- 
2.43.0


From 1986f07fded09981f84817197163b2d733045c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 10/38] fix: reject range proofs with surplus bit commitments

---
 zksk/primitives/rangeproof.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index a3c65ee..8593097 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -160,6 +160,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         rand = precommitment["rand"]
 
+        if len(precommitment["Cs"]) != self.num_bits:
+            raise ValidationError("One commitment per bit expected")
+
         # Combine bit commitments into value commitment
         combined = self.g.group.infinite()
         power = Bn(1)
-- 
2.43.0


From e76c71694c0592124a026dbc7a9f7d99715a0ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 11/38] fix: power-two range statement could not be built
 without the secrets

---
 zksk/primitives/rangeproof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 8593097..bedce78 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -55,7 +55,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
     """
 
     def __init__(self, com, g, h, num_bits, x=None, randomizer=None):
-        if not x.value is None and not randomizer.value is None:
+        if not any(s is None or s.value is None for s in (x, randomizer)):
             self.x = x
             self.randomizer = randomizer
             self.is_prover = True
-- 
2.43.0


From b7c1d2f6f541e6a434f73a43b1969e83e0d58b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 12/38] fix: adding expressions altered the left operand

---
 zksk/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 955c39e..afd34aa 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -56,9 +56,10 @@ class Expression:
             raise InvalidExpression(
                 "Invalid expression. Only linear combinations of group elements are supported."
             )
-        self._secrets.extend(other._secrets)
-        self._bases.extend(other._bases)
-        return self
+        result = Expression(self._secrets[0], self._bases[0])
+        result._secrets = self._secrets + other._secrets
+        result._bases = self._bases + other._bases
+        return result
 
     @property
     def secrets(self):
-- 
2.43.0


From a56a79d09a18b0fb358f9ec9056de6795ad3d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 13/38] fix: composed statements shared the subproofs of
 composed operands

---
 zksk/composition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 6ba7214..e1bec36 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -340,6 +340,13 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
 
 
 class _CommonComposedStmtMixin:
+    def __copy__(self):
+        # Copies should not share subproofs, e.g., when an operand occurs several times in a tree.
+        clone = self.__class__.__new__(self.__class__)
+        clone.__dict__.update(self.__dict__)
+        clone.subproofs = [copy.copy(sub) for sub in self.subproofs]
+        return clone
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From 19b541e9e985da43f6d46bb37dfa6ff04742cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 14/38] fix: an extended statement occurring several times in a
 conjunction did not verify

---
 zksk/extended.py               | 14 ++++++++++++++
 zksk/primitives/bbsplus.py     |  3 +++
 zksk/primitives/dl_notequal.py |  3 +++
 zksk/primitives/rangeproof.py  |  5 +++++
 4 files changed, 25 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 047d133..7f1dd56 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -26,6 +26,7 @@ The protocol of an extended proof is as follows:
 import abc
 
 from zksk.base import Prover, Verifier
+from zksk.expr import Secret
 from zksk.composition import ComposableProofStmt
 from zksk.exceptions import StatementSpecError
 from zksk.utils.misc import get_default_attr
@@ -47,6 +48,19 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         """
         pass
 
+    def copy_with_fresh_secrets(self, *names):
+        """
+        Copy the statement, renewing its internal secrets.
+
+        Args:
+            names: Attributes holding internal secrets
+        """
+        clone = self.__class__.__new__(self.__class__)
+        clone.__dict__.update(self.__dict__)
+        for name in names:
+            setattr(clone, name, Secret())
+        return clone
+
     def precommit(self):
         """
         Compute precommitments. Override if needed.
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 402a058..932c508 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -254,6 +254,9 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def __copy__(self):
+        return self.copy_with_fresh_secrets("r1", "r2", "delta1", "delta2")
+
     def can_prove(self):
         return super().can_prove() and self.signature is not None and all(
             secret.value is not None for secret in self.secret_vars
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 4829fb3..5cd202e 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -60,6 +60,9 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def __copy__(self):
+        return self.copy_with_fresh_secrets("alpha", "beta")
+
     def can_prove(self):
         return super().can_prove() and self.x.value is not None
 
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index bedce78..5cff27f 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -79,6 +79,11 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def __copy__(self):
+        clone = self.copy_with_fresh_secrets()
+        clone.randomizers = [Secret() for _ in range(self.num_bits)]
+        return clone
+
     def can_prove(self):
         return super().can_prove() and self.is_prover
 
-- 
2.43.0


From 7a76808af69b7668104e54e1f9a064a8edbd3f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 15/38] fix: statement identifiers over pairing groups differed
 between processes

---
 zksk/pairings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 01667af..1da8ede 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -117,7 +117,7 @@ class AdditivePoint:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "GTPt(" + str(self.pt.__hash__()) + ")"
+        return "GTPt(" + self.export().hex() + ")"
 
 
 class G1Point:
@@ -158,7 +158,7 @@ class G1Point:
         return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
 
     def __repr__(self):
-        return "G1Pt(" + str(self.pt.__hash__()) + ")"
+        return "G1Pt(" + self.export().hex() + ")"
 
 
 class G2Point:
@@ -196,7 +196,7 @@ class G2Point:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "G2Pt(" + str(self.pt.__hash__()) + ")"
+        return "G2Pt(" + self.export().hex() + ")"
 
 
 class G1Group:
-- 
2.43.0


From de6e664f3563ca6802147fc38e06907a8f264e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 16/38] fix: G2 and GT groups of decoded points did not equal
 the original groups

---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 1da8ede..0537574 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -50,6 +50,9 @@ class GTGroup:
         self.gen = None
         self.inf = None
 
+    def __eq__(self, other):
+        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__
+
     def infinite(self):
         if self.inf is None:
             self.inf = AdditivePoint(self.generator().pt.one(self.bp.bpgp), self.bp)
@@ -260,6 +263,9 @@ class G2Group:
         self.gen = None
         self.inf = None
 
+    def __eq__(self, other):
+        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__
+
     def generator(self):
         if self.gen is None:
             self.gen = G2Point(self.bp.bpgp.gen2(), self.bp)
-- 
2.43.0


From a6b14648fcba470741b3c933380c1cd30c368fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 17/38] fix: BBS+ signing and verification ignored messages
 beyond the key's generators

---
 zksk/primitives/bbsplus.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 932c508..a36b630 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -33,6 +33,9 @@ class BBSPlusSignature:
         """
         Verify the validity of the signature w.r.t the given public key and set of messages.
         """
+        if len(messages) + 2 > len(pk.generators):
+            return False
+
         generators = pk.generators[: len(messages) + 2]
         product = generators[0] + generators[0].group.wsum(
             ([self.s] + messages), generators[1:]
@@ -91,6 +94,9 @@ class BBSPlusSignatureCreator:
         Returns:
             :py:class:`UserCommitmentMessage`: user's packed commitment.
         """
+        if len(messages) + 2 > len(self.pk.generators):
+            raise ValueError("More messages than the public key supports")
+
         lhs = self.pk.generators[0].group.wsum(
             messages, self.pk.generators[2 : len(messages) + 2]
         )
-- 
2.43.0


From 9ff100ca0dd2f6bd72e258ff386c2b218630d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 18/38] fix: reusing a BBS+ signature creator without blinding
 kept a stale blinding factor

---
 zksk/primitives/bbsplus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index a36b630..cfa0eda 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -101,6 +101,7 @@ class BBSPlusSignatureCreator:
             messages, self.pk.generators[2 : len(messages) + 2]
         )
         com_nizk_proof = None
+        self.s1 = None
         if zkp:
             self.s1 = self.pk.generators[0].group.order().random()
             lhs = self.s1 * self.pk.generators[1] + lhs
-- 
2.43.0


From 05b137418d7ba20f7755088d01513b758c3168c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 19/38] fix: group pair ignored the given bplib group

---
 zksk/pairings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 0537574..48ba36b 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -19,8 +19,7 @@ class BilinearGroupPair:
     """
 
     def __init__(self, bp_group=None):
-        if bp_group is None:
-            self.bpgp = BpGroup()
+        self.bpgp = BpGroup() if bp_group is None else bp_group
         self.GT = GTGroup(self)
         self.G1 = G1Group(self)
         self.G2 = G2Group(self)
-- 
2.43.0


From 6a9c7b94c1fd46915b5ce2db0db413d91c5d1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 20/38] fix: range clauses with an out-of-range value could not
 be simulated

---
 zksk/primitives/rangeproof.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 5cff27f..e18f687 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -119,8 +119,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         Construct the internal proof statement.
         """
-        if self.is_prover:
-            # Indicators that tell us which or-clause is true
+        # Indicators that tell us which or-clause is true (none is for values out of range)
+        in_range = self.is_prover and 0 <= self.x.value < Bn(2) ** self.num_bits
+        if in_range:
             actual_value = ensure_bn(self.x.value)
             value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
             zero_simulated = [b == 1 for b in value_as_bits]
@@ -132,7 +133,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             p1 = DLRep(precommitment["Cs"][i] - self.g, self.randomizers[i] * self.h)
 
             # When we are a prover, mark which disjunct is true
-            if self.is_prover:
+            if in_range:
                 p0.set_simulated(zero_simulated[i])
                 p1.set_simulated(one_simulated[i])
 
-- 
2.43.0


From c42eda29cffbd554f54250dc7d95ef378d4723f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 21/38] fix: verifiers did not check that the composition is
 supported, nor provers nested ones

---
 zksk/base.py        |  1 +
 zksk/composition.py | 12 +++++++++++-
 zksk/extended.py    |  6 ++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/zksk/base.py b/zksk/base.py
index cdd67e7..34b6778 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -210,6 +210,7 @@ class Verifier(metaclass=abc.ABCMeta):
         return self.challenge
 
     def pre_verification_validation(self, response, *args, **kwargs):
+        self.stmt.validate_composition()
         self.stmt.full_validate(*args, **kwargs)
 
         if not self.check_responses_consistency(response, {}):
diff --git a/zksk/composition.py b/zksk/composition.py
index e1bec36..b6f919d 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -241,6 +241,12 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         # TODO: calling return here is deceptive if we ask to throw an Exception
         return self.validate(*args, **kwargs)
 
+    def validate_composition(self, *args, **kwargs):
+        """
+        Validate that composition is done correctly. Does nothing if not overriden.
+        """
+        pass
+
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
         Check if a secret appears both inside an outside an or-proof.
@@ -519,11 +525,13 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
     def get_verifier(self):
         return OrVerifier(self, [sub.get_verifier() for sub in self.subproofs])
 
-    def validate_composition(self):
+    def validate_composition(self, *args, **kwargs):
         """
         Validate that composition is done correctly.
         """
         self.validate_group_orders()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
@@ -766,6 +774,8 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         """
         self.validate_group_orders()
         self.validate_secrets_reoccurence()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def recompute_commitment(self, challenge, responses):
         if len(responses) != len(self.subproofs):
diff --git a/zksk/extended.py b/zksk/extended.py
index 7f1dd56..3c36761 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -96,6 +96,12 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
     def full_validate(self, *args, **kwargs):
         self.validate(self.precommitment, *args, **kwargs)
 
+    def validate_composition(self, *args, **kwargs):
+        self.constructed_stmt.validate_composition()
+
+    def validate_secrets_reoccurence(self, forbidden_secrets=None):
+        self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
+
     @property
     def constructed_stmt(self):
         return get_default_attr(self, "_constructed_stmt")
-- 
2.43.0


From dab8f9eb4baa4443f15c73b59f74be3030c8e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 22/38] fix: extended statements overriding construct_stmt only
 could not be simulated

---
 zksk/extended.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 3c36761..f811755 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -83,6 +83,10 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         It should compute the same output as generated by precommit, but without relying on any
         secrets.
         """
+        # Without precommitments, there is nothing to simulate.
+        if type(self).precommit is ExtendedProofStmt.precommit:
+            return self.precommit()
+
         raise StatementSpecError(
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
-- 
2.43.0


From 80041b5d12d103e244b153b09736e3b0d37306da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 23/38] fix: verification with a missing precommitment used the
 one of an earlier verification

---
 zksk/base.py        | 4 +---
 zksk/composition.py | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index 34b6778..39ec3e6 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -252,9 +252,7 @@ class Verifier(metaclass=abc.ABCMeta):
             bool: True of verification succeeded, False otherwise.
         """
         # Build the complete stmt if necessary.
-        # TODO: If empty precommit() function, this is always true.
-        if nizk.precommitment is not None:
-            self.process_precommitment(nizk.precommitment)
+        self.process_precommitment(nizk.precommitment)
 
         # Check the proofs statements match, gather the local statement.
         prehash = self.stmt.check_statement(nizk.stmt_hash)
diff --git a/zksk/composition.py b/zksk/composition.py
index b6f919d..464c684 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -725,7 +725,7 @@ class OrVerifier(Verifier):
             precommitment: A list of all required precommitments, ordered.
         """
         if precommitment is None:
-            return
+            precommitment = [None] * len(self.subs)
         for index, sub in enumerate(self.subs):
             sub.process_precommitment(precommitment[index])
 
@@ -1000,6 +1000,6 @@ class AndVerifier(Verifier):
         Distribute the list of precommitments to the subverifiers.
         """
         if precommitment is None:
-            return
+            precommitment = [None] * len(self.subs)
         for index, sub in enumerate(self.subs):
             sub.process_precommitment(precommitment[index])
-- 
2.43.0


From 3b0b03b3b51b312783f0f077347efb6d5ea790f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 24/38] fix: multiplying a pairing group point by a secret from
 the right gave a broken point

---
 zksk/pairings.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 48ba36b..a882be4 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -9,6 +9,8 @@ from bplib.bp import BpGroup, G1Elem, G2Elem, GTElem
 import petlib.pack as pack
 import msgpack
 
+from zksk.expr import Secret
+
 
 class BilinearGroupPair:
     """
@@ -103,6 +105,8 @@ class AdditivePoint:
         Special case in 0 as the underlying ``bplib`` function is broken for
         this value.
         """
+        if isinstance(nb, Secret):
+            return NotImplemented
         if nb == 0:
             return AdditivePoint(self.pt / self.pt, self.bp)
         return AdditivePoint(self.pt ** nb, self.bp)
@@ -146,6 +150,8 @@ class G1Point:
         return self + (-1 * other)
 
     def __mul__(self, nb):
+        if isinstance(nb, Secret):
+            return NotImplemented
         return G1Point(self.pt * nb, self.bp)
 
     def export(self, form=0):
@@ -187,6 +193,8 @@ class G2Point:
         return self + (-1 * other)
 
     def __mul__(self, nb):
+        if isinstance(nb, Secret):
+            return NotImplemented
         return G2Point(self.pt * nb, self.bp)
 
     def export(self, form=0):
-- 
2.43.0


From b93b8933cb9cb9bfedaa3da64cabae5cf9abe696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 25/38] fix: multiplying a GT point by zero failed

---
 zksk/pairings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index a882be4..a3dcc2c 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -108,7 +108,7 @@ class AdditivePoint:
         if isinstance(nb, Secret):
             return NotImplemented
         if nb == 0:
-            return AdditivePoint(self.pt / self.pt, self.bp)
+            return self.group.infinite()
         return AdditivePoint(self.pt ** nb, self.bp)
 
     def __eq__(self, other):
-- 
2.43.0


From 29675ca24d73fac8c4e35c805596649b38fd3582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 26/38] fix: GT points could not be subtracted, so primitives
 needing it failed over GT

---
 zksk/pairings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index a3dcc2c..7516629 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -120,6 +120,9 @@ class AdditivePoint:
         """
         return AdditivePoint(self.pt * (other.pt), self.bp)
 
+    def __sub__(self, other):
+        return self + (-1 * other)
+
     __rmul__ = __mul__
 
     def __repr__(self):
-- 
2.43.0


From aa3346c892d87780a805497910400636c10d5a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 27/38] fix: non-interactive proofs failed when the
 precommitment was a string

---
 zksk/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/base.py b/zksk/base.py
index 39ec3e6..a1abf7e 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -81,7 +81,7 @@ def build_fiat_shamir_challenge(stmt_prehash, *args, message=""):
     """
     # Start building the complete hash for the challenge
     for elem in args:
-        if not isinstance(elem, bytes) and not isinstance(elem, str):
+        if not isinstance(elem, bytes):
             encoded = encode(elem)
         else:
             encoded = elem
-- 
2.43.0


From ce3c47eb7648ed8c10b871543e418acd150e423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 28/38] fix: comparing a secret holding a big number with one
 without a value failed

---
 zksk/expr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index afd34aa..4c88a38 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -143,7 +143,12 @@ class Secret:
         return hash(("Secret", self.name))
 
     def __eq__(self, other):
-        return (hash(self) == hash(other)) and self.value == other.value
+        if hash(self) != hash(other):
+            return False
+        # Big numbers cannot be compared to None.
+        if self.value is None or other.value is None:
+            return self.value is other.value
+        return self.value == other.value
 
 
 def wsum_secrets(secrets, bases):
-- 
2.43.0


From e316cc12f63dd8448654b729976ec8858bc90ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 29/38] fix: reading a proof that names an unknown curve
 crashed the process

---
 zksk/base.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/zksk/base.py b/zksk/base.py
index a1abf7e..f2c419d 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -8,6 +8,7 @@ import string
 from petlib.ec import EcGroup, EcPt
 from petlib.bn import Bn
 from petlib.pack import *
+from petlib.pack import ext_hook
 import binascii
 import msgpack
 from hashlib import sha256
@@ -19,6 +20,21 @@ from zksk.consts import CHALLENGE_LENGTH
 from zksk.exceptions import ValidationError
 
 
+def _checked_ext_hook(code, data):
+    """
+    Decode an EcGroup (1), an EcPt (2), or a registered type, refusing curves that do not exist.
+
+    Petlib does not check the curve number, and crashes if it is unknown.
+    """
+    if code in (1, 2):
+        nid = msgpack.unpackb(data)
+        if code == 2:
+            nid, _ = nid
+        if nid not in EcGroup.list_curves():
+            raise ValidationError("Unknown curve.")
+    return ext_hook(code, data)
+
+
 @attr.s
 class NIZK:
     """
@@ -49,7 +65,10 @@ class NIZK:
         """
         Deserialize a non-interactive zero-knowledge proof.
         """
-        as_list = [decode(x) for x in msgpack.unpackb(nizk_raw)]
+        as_list = [
+            msgpack.unpackb(x, ext_hook=_checked_ext_hook, encoding="utf-8")
+            for x in msgpack.unpackb(nizk_raw)
+        ]
         return NIZK(*as_list)
 
 
-- 
2.43.0


From d25b18da91b602a23fda48a271a250a054503162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 30/38] fix: copies of a representation keep secret values of
 their own

---
 zksk/primitives/dlrep.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 001da1f..f06e99f 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -106,6 +106,13 @@ class DLRep(ComposableProofStmt):
         self.lhs = lhs
         self.set_simulated(simulated)
 
+    def __copy__(self):
+        clone = self.__class__.__new__(self.__class__)
+        clone.__dict__.update(self.__dict__)
+        # Values given to one of the copies do not concern the other.
+        clone.secret_values = dict(self.secret_values)
+        return clone
+
     def get_prover(self, secrets_dict=None):
         """
         Get a prover for the current proof statement.
-- 
2.43.0


From 8e557f69106ddc5f9798c9ecd7a7e6e88b0d1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 31/38] fix: an or-prover runs fresh simulations for every
 proof

---
 zksk/composition.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 464c684..ad47d61 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -624,14 +624,30 @@ class OrProver(Prover):
         """
         Run all the required simulations and stores them.
         """
-        self.simulations = []
         for index, subproof in enumerate(self.stmt.subproofs):
             if index != self.true_prover_idx:
                 subproof.prepare_simulate_proof()
-                sim = subproof.simulate_proof()
-                self.simulations.append(sim)
+        self.precommitted = False
+        self.run_simulations()
+
+    def run_simulations(self):
+        """
+        Run the simulations, with the precommitments that are already prepared.
+        """
+        self.simulations = [
+            subproof.simulate_proof()
+            for index, subproof in enumerate(self.stmt.subproofs)
+            if index != self.true_prover_idx
+        ]
+        self.committed = False
 
     def precommit(self):
+        # A simulation serves a single run: seen in a second one, it would give away which of the
+        # subproofs are simulated.
+        if self.precommitted or self.committed:
+            self.setup_simulations()
+        self.precommitted = True
+
         # Generate precommitment for the legit subprover, and gather the precommitments from the
         # stored simulations.
         precommitment = []
@@ -656,6 +672,10 @@ class OrProver(Prover):
             randomizers_dict: A dictionary of randomizers to use for responses consistency. Not used
                 in this proof. Parameter kept so all internal_commit methods have the same prototype.
         """
+        if self.committed:
+            self.run_simulations()
+        self.committed = True
+
         # Now that all proofs have been constructed, we can check
         self.stmt.validate_composition()
 
-- 
2.43.0


From 87448e3638e6e7f32e13cca9a072bb80fe7f4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 32/38] fix: inequality of logarithms in two different groups
 failed

---
 zksk/primitives/dl_notequal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 5cd202e..dc055ed 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -101,13 +101,13 @@ class DLNotEqual(ExtendedProofStmt):
         """
         Verify the the proof statement is indeed proving the inequality of discret logs.
         """
-        if precommitment == self.g.group.infinite():
+        if precommitment == self.h.group.infinite():
             raise ValidationError("The commitment should not be the unity element")
 
     def simulate_precommit(self):
         """
-        Draw a base at random (not unity) from the bases' group.
+        Draw a base at random (not unity) from the group of the second pair.
         """
-        group = self.g.group
+        group = self.h.group
         precommitment = group.order().random() * group.generator()
         return precommitment
-- 
2.43.0


From 68365ecd40859e8bd33963724ae0efc28c3b0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 33/38] fix: byte strings are encoded before they are hashed
 into a challenge

A proof without precommitment was accepted with the precommitment
replaced by the encoding of None.
---
 zksk/base.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index f2c419d..e9f2abe 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -100,11 +100,8 @@ def build_fiat_shamir_challenge(stmt_prehash, *args, message=""):
     """
     # Start building the complete hash for the challenge
     for elem in args:
-        if not isinstance(elem, bytes):
-            encoded = encode(elem)
-        else:
-            encoded = elem
-        stmt_prehash.update(encoded)
+        # Byte strings too, so that no two different elements are hashed alike.
+        stmt_prehash.update(encode(elem))
 
     stmt_prehash.update(message.encode())
     return Bn.from_hex(stmt_prehash.hexdigest())
-- 
2.43.0


From e8c049749787dc406aea04addf9f8d0cb2be364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:05 +0000
Subject: [PATCH 34/38] fix: proofs whose precommitment holds tuples or byte
 arrays did not verify once serialized

---
 zksk/extended.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index f811755..180f2c0 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -32,6 +32,22 @@ from zksk.exceptions import StatementSpecError
 from zksk.utils.misc import get_default_attr
 
 
+def normalize_precommitment(precommitment):
+    """
+    Bring a precommitment to the form it takes after serialization.
+
+    The serialization does not distinguish tuples from lists, and byte arrays from bytes, so
+    identifiers should not either.
+    """
+    if isinstance(precommitment, (list, tuple)):
+        return [normalize_precommitment(elem) for elem in precommitment]
+    if isinstance(precommitment, dict):
+        return {k: normalize_precommitment(v) for k, v in precommitment.items()}
+    if isinstance(precommitment, bytearray):
+        return bytes(precommitment)
+    return precommitment
+
+
 class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
     """
     Proof that deals with precommitments.
@@ -151,7 +167,7 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         if self.constructed_stmt is not None:
             proof_id = [
                 self.__class__.__name__,
-                self.precommitment,
+                normalize_precommitment(self.precommitment),
                 self.constructed_stmt.get_proof_id(secret_id_map),
             ]
         else:
-- 
2.43.0


From 2e4810a96e77673c41daa3605398013a4c206d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 35/38] fix: generators on curves with a cofactor could lie
 outside the group of the given order

---
 zksk/utils/groups.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zksk/utils/groups.py b/zksk/utils/groups.py
index 4520762..8f44279 100644
--- a/zksk/utils/groups.py
+++ b/zksk/utils/groups.py
@@ -40,7 +40,14 @@ def get_random_point(group=None, random_bits=256, seed=None):
     else:
         randomness = hashlib.sha512(b"%i" % seed).digest()[:num_bytes]
 
-    return group.hash_to_point(randomness)
+    point = group.hash_to_point(randomness)
+
+    # On a curve with a cofactor, hashing can leave the subgroup of the group's order.
+    while group.order() * point != group.infinite():
+        randomness = hashlib.sha512(randomness).digest()[:num_bytes]
+        point = group.hash_to_point(randomness)
+
+    return point
 
 
 def make_generators(num, group=None, random_bits=256, seed=42):
-- 
2.43.0


From 8c3091e855c63c0439f9095598489f642a604c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 36/38] fix: inequality proofs accepted points of small order
 as the blinded difference

---
 zksk/primitives/dl_notequal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index dc055ed..5477198 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -101,8 +101,12 @@ class DLNotEqual(ExtendedProofStmt):
         """
         Verify the the proof statement is indeed proving the inequality of discret logs.
         """
-        if precommitment == self.h.group.infinite():
+        group = self.h.group
+        if precommitment == group.infinite():
             raise ValidationError("The commitment should not be the unity element")
+        # On curves with a cofactor, points of small order could stand in for the unity element
+        if group.order() * precommitment != group.infinite():
+            raise ValidationError("The commitment should lie in the group")
 
     def simulate_precommit(self):
         """
-- 
2.43.0


From 455a0bf22b93066ba807e91d5b25ce9b95b9c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 37/38] fix: range proofs over more than a fraction of the
 group order accepted any value

---
 zksk/primitives/rangeproof.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index e18f687..4cf068f 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -37,6 +37,16 @@ def decompose_into_n_bits(value, n):
     return base + [0] * extra_bits
 
 
+def check_range_width(num_bits, offset, width, order):
+    """
+    Check that the two parts of a range proof single out the range within the group's order.
+
+    Values that are too large must not reach the allowed ones by wrapping around the order.
+    """
+    if width < order and Bn(2) ** num_bits + offset > order:
+        raise ValueError("The range is too wide for the order of the group")
+
+
 class PowerTwoRangeStmt(ExtendedProofStmt):
     r"""
     A power-two range proof statement.
@@ -230,6 +240,7 @@ class GenericRangeStmtMaker:
         b = ensure_bn(b)
         num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
+        check_range_width(num_bits, offset, b - a, g.group.order())
 
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
@@ -301,6 +312,7 @@ class GenericRangeOnlyStmtMaker:
         b = ensure_bn(b)
         num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
+        check_range_width(num_bits, offset, b - a, g.group.order())
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
 
-- 
2.43.0


From 64940f6e6b7178d95d9ddba85b934a4d17f6ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:50 +0000
Subject: [PATCH 38/38] fix: anonymous secrets could get the name of one that
 is gone, or of another process

Names were made from the address of the object, which is given to another
object afterwards. A copy of the first secret, or its name, then counted as
the same secret as the later one.
---
 zksk/expr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 4c88a38..f70b31f 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -11,7 +11,7 @@ Tiny expression language suitable for expressing statements on discrete logarith
 
 """
 
-import struct
+import os
 import hashlib
 
 from zksk.exceptions import InvalidExpression, IncompleteValuesError
@@ -112,7 +112,9 @@ class Secret:
         self.value = value
 
     def _generate_unique_name(self):
-        h = struct.pack(">q", super().__hash__())
+        # Not the address of the object: it is given to another secret as soon as this one is gone,
+        # although copies of this one, or its name, can still be in use.
+        h = os.urandom(self.NUM_NAME_BYTES * 2)
         return hashlib.sha256(h).hexdigest()[: self.NUM_NAME_BYTES * 4]
 
     def __mul__(self, base):
-- 
2.43.0

