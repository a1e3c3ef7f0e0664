------------------------------- MODULE LBFGSIpm -------------------------------
(* The quasi-Newton matrix during solves (harness/lbipm.cpp): pair k compares iterates k-1 and k; the matrix seen at an iterate has
   been updated with all earlier pairs. A pair whose curvature is too close to the threshold may be accepted or not. *)
EXTENDS TraceLib, LBFGS
VARIABLES t, l, errs, poss, cnt, st, lmax, fixed
vars == <<t, l, errs, poss, cnt, st, lmax, fixed>>
E == Traces[t].ev[l]
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ poss = {<<<<>>, 0>>} /\ cnt = 0 /\ st = "on" /\ lmax = 0 /\ fixed = FALSE
New == E.e = "new" /\ lmax' = E.lmax /\ fixed' = (E.fixed = 1) /\ UNCHANGED <<errs, poss, cnt, st>>
After(p) == LET r == Accept(p[1], p[2], cnt + 1, lmax, fixed) IN
            (IF E.cls # 0 THEN {<<r.mem, r.sig>>} ELSE {}) \cup (IF E.cls # 1 THEN {p} ELSE {})
Pair == /\ E.e = "pair" /\ cnt' = cnt + 1 /\ poss' = UNION {After(p) : p \in poss} /\ UNCHANGED <<errs, st, lmax, fixed>>
Query == /\ E.e = "query" /\ UNCHANGED <<cnt, st, lmax, fixed>>
         /\ LET ok == IF st = "ovf" THEN poss ELSE {p \in poss : \E k \in 1 .. Len(E.m) : E.m[k] = p} IN
            /\ errs' = errs \cup Rule(ok # {}, "P10-solver-matrix", l)
            /\ poss' = IF ok = {} THEN poss ELSE ok
End == E.e = "end" /\ st' = (IF st = "ovf" THEN st ELSE "ended") /\ UNCHANGED <<errs, poss, cnt, lmax, fixed>>
\* values beyond 1e60 end the obligations
Ovf == E.e = "ovf" /\ st' = "ovf" /\ UNCHANGED <<errs, poss, cnt, lmax, fixed>>
Died == /\ E.e \in {"assert", "crash"} /\ errs' = errs \cup Rule(st = "ovf", "P10-" \o E.e, l) /\ UNCHANGED <<poss, cnt, st, lmax, fixed>>
Other == E.e \notin {"new", "pair", "query", "end", "assert", "crash", "ovf"} /\ UNCHANGED <<errs, poss, cnt, st, lmax, fixed>>
Next1 == l <= Len(Traces[t].ev) /\ (New \/ Pair \/ Query \/ End \/ Ovf \/ Died \/ Other) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Report(t, errs \cup Rule(st \in {"ended", "ovf"}, "P10-trace-ends", l))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, poss, cnt, st, lmax, fixed>>
Next == Next1 \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
