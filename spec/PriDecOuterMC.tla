---------------------------- MODULE PriDecOuterMC ----------------------------
(* Design check: the stepwise stopping rule equals its declarative meaning on whole measurement histories. *)
EXTENDS PriDecOuter, FiniteSetsExt
CONSTANTS MaxIt, Limit, Variant
VARIABLES hist, accs, stopped
vars == <<hist, accs, stopped>>
Init == hist = <<>> /\ accs = {0} /\ stopped = FALSE
Meas == {<<"gt", "gt">>, <<"gt", "lt">>, <<"lt", "lt">>}
Acc(a, ca) == IF Variant = "noreset" /\ ca = "gt" THEN a ELSE NextAcc(a, ca)
Iterate ==
  /\ ~stopped
  /\ \E m \in IF hist = <<>> THEN {<<"gt", "gt">>} ELSE Meas :
       /\ hist' = Append(hist, m)
       /\ accs' = Acc(accs, m[2])
       /\ stopped' = MustStop(Len(hist), MaxIt, m[1], accs', Limit)
       /\ stopped' = MayStop(Len(hist), MaxIt, m[1], accs', Limit)   \* no freedom when nothing is near
Next == Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* declarative: stopped exactly when the last measurement converged, the limit is reached or the last Limit
\* measurements were all acceptable; and never earlier
Conv(i) == hist[i][1] = "lt"
AccRun(i) == i >= Limit /\ \A j \in i - Limit + 1 .. i : hist[j][2] = "lt"
Reason(i) == Conv(i) \/ i = MaxIt \/ AccRun(i)
StopsTruthfully == /\ stopped => Reason(Len(hist))
                   /\ \A i \in 1 .. Len(hist) : Reason(i) => (i = Len(hist) /\ stopped)
NeverBeyond == Len(hist) <= MaxIt
Terminates == <>stopped
=============================================================================
