------------------------------- MODULE SameTrace -------------------------------
(* Runs that must not differ (P07, P08).  The history variable remembers, per effective configuration, the digest of
   everything the user saw in the first run of it (every callback argument, every value the solver reports, the returned
   solution, multipliers, status and counts); every later run must show the same.                                     *)
EXTENDS TraceLib
VARIABLES t, l, errs, seen, st, ovf, nrun
vars == <<t, l, errs, seen, st, ovf, nrun>>
M == Traces[t].meta
E == Traces[t].ev[l]
Id == IF M.mode = "again" THEN "P07-" ELSE "P08-"
Statuses == {0, 1, 2, 5, 10, 12, -4, -5, -15, -16}
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ seen = <<>> /\ st = <<>> /\ ovf = FALSE /\ nrun = 0
Ran ==
  /\ E.e = "ran"
  /\ errs' = errs \cup Rule(E.st \in Statuses, Id \o "status", l)
       \cup (IF E.key \in DOMAIN seen
             THEN Rule(seen[E.key] = E.dig, IF M.mode = "again" THEN IF E.how = "reused" THEN "P07-same-as-fresh" ELSE "P07-deterministic"
                                            ELSE "P08-" \o E.how, l)
                  \cup Rule(st[E.key] = <<E.st, E.it, E.ns>>, Id \o "same-outcome", l)
             ELSE {})
  /\ seen' = IF E.key \in DOMAIN seen THEN seen ELSE seen @@ (E.key :> E.dig)
  /\ st' = IF E.key \in DOMAIN st THEN st ELSE st @@ (E.key :> <<E.st, E.it, E.ns>>)
  /\ nrun' = nrun + 1 /\ UNCHANGED ovf
Over == E.e = "ovf" /\ ovf' = TRUE /\ UNCHANGED <<errs, seen, st, nrun>>
Stop ==
  /\ E.e \in {"assert", "crash"}
  \* functions whose values overflow are outside what the user may ask for
  /\ errs' = errs \cup Rule(ovf, Id \o "run-completes", l)
  /\ UNCHANGED <<seen, st, ovf, nrun>>
Other == E.e \notin {"ran", "ovf", "assert", "crash"} /\ UNCHANGED <<errs, seen, st, ovf, nrun>>
Step == l <= Len(Traces[t].ev) /\ (Ran \/ Over \/ Stop \/ Other) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1
        /\ Report(t, errs \cup (IF ovf \/ nrun >= 2 THEN {} ELSE {Id \o "runs-recorded@" \o ToString(l)}))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, seen, st, ovf, nrun>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
