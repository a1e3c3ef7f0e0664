------------------------------- MODULE RegTrace -------------------------------
(* Recorded factorization loops (harness/reg.cpp) against the regularization protocol of Reg. *)
EXTENDS TraceLib, Reg
VARIABLES t, l, errs, o, s, sp, f, dc, ph, nf, pend
vars == <<t, l, errs, o, s, sp, f, dc, ph, nf, pend>>
M == Traces[t].meta
E == Traces[t].ev[l]
Five == 5000000
Tol == 60
NoO == [wmin |-> 0, wmax |-> 0, w0 |-> 0, km |-> 0, kp |-> 0, kpb |-> 0, cmin |-> -20000000, tencp |-> 1000000]
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ o = NoO /\ s = Fresh /\ sp = Fresh /\ f = "" /\ dc = 0 /\ ph = "idle" /\ nf = 0 /\ pend = "none"
New == /\ E.e = "new" /\ s' = Fresh
       /\ o' = [NoO EXCEPT !.wmin = E.wmin, !.wmax = E.wmax, !.w0 = E.w0, !.km = E.km, !.kp = E.kp, !.kpb = E.kpb]
       /\ errs' = errs \cup Rule(E.ok = 1, "P11-initialized", l)
       /\ UNCHANGED <<sp, f, dc, ph, nf, pend>>
\* what the loop must do next: build another matrix or return
Take(r) == /\ s' = r.s /\ sp' = s
           /\ IF r.ok THEN ph' = "build" /\ pend' = "none" ELSE ph' = "return" /\ pend' = "fail"
Call == /\ E.e = "call" /\ dc' = E.dc /\ f' = E.f /\ nf' = 0
        /\ Take(IF E.f = "factorize" THEN Initial(M.dual, o, Five, s, E.dc) ELSE Wrong(M.dual, o, Five, s, E.dc))
        /\ errs' = errs \cup Rule(ph = "idle", "P11-call-returned", l)
        /\ UNCHANGED o
\* a recorded vector [smallest, largest] of regularizations of size v (random variants stay within [0.9, 1] of it)
Size(rec, v) == \/ rec = <<>>
                \/ v = Zero /\ rec = <<Zero, Zero>>
                \/ /\ v # Zero /\ rec[2] <= v + Tol /\ rec[1] >= v - Tol - (IF M.rand THEN 45758 ELSE 0)
Build == /\ E.e = "build"
         /\ errs' = errs \cup Rule(ph = "build", "P11-refactorization-not-called-for", l)
              \cup Rule(Size(E.wx, s.w) /\ Size(E.wd, s.w), "P11-primal-regularization", l)
              \cup Rule(Size(E.cc, s.c) /\ Size(E.cd, s.c), "P11-dual-regularization", l)
         /\ IF E.ok = 1 THEN ph' = "fact" /\ UNCHANGED pend ELSE ph' = "return" /\ pend' = "fail"
         /\ UNCHANGED <<o, s, sp, f, dc, nf>>
\* the inertia-free loop accepts any matrix that is not singular
Fact == /\ E.e = "fact"
        /\ errs' = errs \cup Rule(ph = "fact", "P11-factorization-without-a-matrix", l)
        /\ nf' = nf + 1
        /\ IF Accept(M.dwd, M.nreq, E.n)
           THEN ph' = "return" /\ pend' = "ok" /\ UNCHANGED <<s, sp>>
           ELSE Take(Correct(M.dual, M.nreq, E.n, o, Five, s, dc))
        /\ UNCHANGED <<o, f, dc>>
\* the loop may give up after MaxRefact matrices, and must not go on for ever
Ret == /\ E.e = "ret" /\ ph' = "idle" /\ pend' = "none"
       /\ errs' = errs \cup Rule(E.ok = 1 => pend = "ok", "P11-accepted-a-wrong-factorization", l)
            \cup Rule(E.ok = 0 => pend = "fail" \/ (ph = "build" /\ nf >= MaxRefact), "P11-gave-up-too-early", l)
       \* giving up: the inertia-free loop does not compute the correction that it would not try
       /\ s' = IF ph = "build" /\ f # "factorize" THEN sp ELSE s
       /\ UNCHANGED <<o, sp, f, dc, nf>>
Curv == /\ E.e = "curv"
        /\ LET n == E.n
               H(i, j) == E.H[(i - 1) * n + j]
               xHx == SumSeq([i \in 1 .. n |-> SumSeq([j \in 1 .. n |-> E.x[i] * H(i, j) * E.x[j]])])
               w == xHx + SumSeq([i \in 1 .. n |-> (E.Dx[i] + E.wx[i]) * E.x[i] * E.x[i]])
                        + SumSeq([i \in 1 .. E.m |-> (E.Dd[i] + E.wd[i]) * E.d[i] * E.d[i]])
               q == SumSeq([i \in 1 .. n |-> E.x[i] * E.x[i]]) + SumSeq([i \in 1 .. E.m |-> E.d[i] * E.d[i]])
               lhs == w * E.den rhs == q * E.num
           IN errs' = errs \cup Rule(lhs = rhs \/ (E.ok = 1) = (lhs > rhs), "P11-curvature-test", l)
        /\ UNCHANGED <<o, s, sp, f, dc, ph, nf, pend>>
End == E.e = "end" /\ errs' = errs \cup Rule(ph = "idle", "P11-call-returned", l) /\ ph' = "ended" /\ UNCHANGED <<o, s, sp, f, dc, nf, pend>>
Died == /\ E.e \in {"assert", "crash"} /\ errs' = errs \cup Rule(FALSE, "P11-" \o (IF E.e = "assert" THEN "assertion" ELSE "abnormal-end"), l)
        /\ UNCHANGED <<o, s, sp, f, dc, ph, nf, pend>>
Step == l <= Len(Traces[t].ev) /\ (New \/ Call \/ Build \/ Fact \/ Ret \/ Curv \/ End \/ Died) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1
        /\ Report(t, errs \cup Rule(ph = "ended", "P11-trace-ends", l))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, o, s, sp, f, dc, ph, nf, pend>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
