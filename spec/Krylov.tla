-------------------------------- MODULE Krylov --------------------------------
(* An iterative solver as the state machine behind P18: residual levels 0 .. Top (a level <= Tol meets the tolerance).
   The recurrence for the residual may drift from the truth, so success is only declared on a residual that was recomputed.
   Iterations may stagnate or break down at any time.  The result is the best iterate seen, with the iteration it stems from. *)
EXTENDS Integers, FiniteSets
CONSTANTS Top, Tol, Limit, MaxStag, Drift, Variant
VARIABLES k, rec, true, best, bestit, stag, st, flag, it, out
vars == <<k, rec, true, best, bestit, stag, st, flag, it, out>>
Levels == 0 .. Top
Abs(a) == IF a < 0 THEN -a ELSE a
Init == /\ k = 0 /\ true \in Levels /\ rec = true /\ best = true /\ bestit = 0 /\ stag = 0 /\ flag = 1 /\ it = 0 /\ out = -1
        /\ st = "run"
Give(r, n) == out' = r /\ it' = n /\ st' = "end"
Started == k = 0 /\ true <= Tol
\* the initial iterate is good enough
Good == /\ st = "run" /\ Started /\ flag' = 0 /\ Give(true, 0) /\ UNCHANGED <<k, rec, true, best, bestit, stag>>
Failed(f, n) == /\ flag' = f
                /\ IF Variant = "last" THEN Give(true, n) ELSE IF true < best THEN Give(true, n) ELSE Give(best, bestit)
                /\ UNCHANGED <<k, rec, true, best, bestit, stag>>
Breakdown == st = "run" /\ ~Started /\ k < Limit /\ Failed(4, k + 1)
OutOfLimit == st = "run" /\ ~Started /\ k = Limit /\ Failed(1, Limit)
Iterate == /\ st = "run" /\ ~Started /\ k < Limit
           /\ \E r \in Levels, x \in Levels, small \in BOOLEAN :
                /\ Abs(r - x) <= Drift
                /\ LET s == IF small THEN stag + 1 ELSE 0
                       verify == r <= Tol \/ s >= MaxStag
                       \* without recomputing, the recurrence is believed
                       seen == IF verify /\ Variant # "believe" THEN x ELSE r
                   IN /\ rec' = r /\ true' = x /\ stag' = s
                      /\ IF seen <= Tol
                         THEN /\ flag' = 0 /\ Give(x, k + 1) /\ k' = k + 1 /\ UNCHANGED <<best, bestit>>
                         ELSE /\ best' = IF x < best THEN x ELSE best
                              /\ bestit' = (IF x < best THEN k + 1 ELSE bestit) + (IF Variant = "offbyone" THEN 1 ELSE 0)
                              /\ IF s >= MaxStag
                                 THEN /\ flag' = 3 /\ k' = k + 1 /\ Give(IF x < best THEN x ELSE best, IF x < best THEN k + 1 ELSE bestit)
                                 ELSE k' = k + 1 /\ UNCHANGED <<st, flag, it, out>>
Next == Good \/ Breakdown \/ OutOfLimit \/ Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == st = "end"
Truth == Ended /\ flag = 0 => out <= Tol
Reason == Ended => flag \in {0, 1, 3, 4}
Count == Ended => it >= 0 /\ it <= Limit
Best == Ended /\ flag # 0 => out <= best
Terminates == <>Ended
=============================================================================
