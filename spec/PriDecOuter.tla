----------------------------- MODULE PriDecOuter -----------------------------
(* The outer loop of a primal-decomposition solve: when it must stop.
   The two measurements of an iteration are abstract: ct (convergence measure against the tolerance) and ca (against
   the acceptable tolerance), each "lt", "gt" or, when a recorded number is too close to call, "near".
   Used twice: model checked over all measurement sequences (PriDecOuterMC) and as the oracle of the recorded runs. *)
EXTENDS Integers, Sequences, FiniteSets

\* possible values of the acceptable-level counter after a measurement, given the set of possible values before it
NextAcc(S, ca) ==
  (IF ca \in {"lt", "near"} THEN {a + 1 : a \in S} ELSE {}) \cup (IF ca \in {"gt", "near"} THEN {0} ELSE {})

MustStop(k, maxit, ct, accs, limit) == ct = "lt" \/ k >= maxit - 1 \/ accs = {limit}
MayStop(k, maxit, ct, accs, limit) == ct \in {"lt", "near"} \/ k >= maxit - 1 \/ limit \in accs
=============================================================================
