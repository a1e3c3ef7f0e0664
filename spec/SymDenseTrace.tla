---------------------------- MODULE SymDenseTrace ----------------------------
(* Recorded sequences of factorizations and solves (harness/symdense.cpp) *)
EXTENDS TraceLib, SymDense
VARIABLES t, l, errs, mat, st
vars == <<t, l, errs, mat, st>>
N == Traces[t].meta.n
E == Traces[t].ev[l]
Plain(L) == \A i, j \in 1 .. N : i # j => At(L, N, i, j) = 0
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ mat = <<>> /\ st = "new"
Fact == /\ E.e = "fact" /\ mat' = (IF Singular(E.D) THEN <<>> ELSE E.A)
        /\ errs' = errs \cup Rule(Certificate(E.A, E.L, E.D, E.p, N), "harness-certificate", l)
             \cup Rule(Singular(E.D) \/ E.ret = Neg(E.D), "P19-inertia", l)
             \* without fill-in the elimination is exact, otherwise rounding may turn a zero into a tiny eigenvalue of either sign
             \cup Rule(Singular(E.D) => E.ret = -1 \/ (~Plain(E.L) /\ E.ret - Neg(E.D) \in 0 .. Cardinality({k \in 1 .. Len(E.D) : BlockSing(E.D[k])})), "P19-singular", l)
        /\ st' = IF E.ret >= 0 THEN "ready" ELSE "singular"
Solve == /\ E.e = "solve" /\ UNCHANGED <<mat, st>>
         /\ errs' = errs \cup Rule(st = "ready", "P19-solve-without-factorization", l) \cup Rule(E.ok = 1, "P19-solve-fails", l) \cup Rule((mat = <<>> /\ N > 0) \/ Solves(mat, N, E.x, E.b), "P19-solution", l)
End == E.e = "end" /\ st' = "ended" /\ UNCHANGED <<mat, errs>>
Died == /\ E.e \in {"assert", "crash"} /\ errs' = errs \cup Rule(FALSE, "P19-" \o (IF E.e = "assert" THEN "assertion" ELSE "abnormal-end"), l)
        /\ UNCHANGED <<mat, st>>
Step == l <= Len(Traces[t].ev) /\ (Fact \/ Solve \/ End \/ Died) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1
        /\ Report(t, errs \cup Rule(st = "ended", "P19-trace-ends", l))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, mat, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
