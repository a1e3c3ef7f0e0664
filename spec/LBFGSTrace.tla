------------------------------ MODULE LBFGSTrace ------------------------------
(* Recorded histories of updates and queries (harness/lbfgs.cpp): every query must be explained by the memory of the specification. *)
EXTENDS TraceLib, LBFGS
VARIABLES t, l, errs, prev, mem, sig, cnt, st
vars == <<t, l, errs, prev, mem, sig, cnt, st>>
M == Traces[t].meta
E == Traces[t].ev[l]
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ prev = <<>> /\ mem = <<>> /\ sig = 0 /\ cnt = 0 /\ st = "on"
\* steps are integers times 2^-kx: with kx = 60 they are below the threshold for vanishing steps
Moves(s) == M.kx < 50 /\ \E i \in 1 .. M.n : s[i] # 0
Upd == /\ E.e = "upd" /\ prev' = <<E>> /\ UNCHANGED <<errs, st>>
       /\ IF prev = <<>> THEN UNCHANGED <<mem, sig, cnt>>
          ELSE LET s == Step(prev[1], E, M.n)
                   y == Diff(prev[1], E, M.n, M.me, M.mi)
                   r == Accept(mem, sig, cnt + 1, M.lmax, M.fixed = 1)
               IN /\ cnt' = cnt + 1
                  /\ IF Moves(s) /\ Curved(s, y) THEN mem' = r.mem /\ sig' = r.sig ELSE UNCHANGED <<mem, sig>>
KindName(k) == CASE k = 0 -> "inverse" [] k = 1 -> "matrix" [] OTHER -> "inverse-quadratic"
Query == /\ E.e = "query" /\ UNCHANGED <<prev, mem, sig, cnt, st>>
         /\ errs' = errs \cup Rule(\E k \in 1 .. Len(E.m) : E.m[k] = <<mem, sig>>, "P10-" \o KindName(E.kind), l)
End == E.e = "end" /\ st' = "ended" /\ UNCHANGED <<prev, mem, sig, cnt, errs>>
Died == /\ E.e \in {"assert", "crash", "mpi", "noinit"} /\ errs' = errs \cup Rule(FALSE, "P10-" \o E.e, l) /\ UNCHANGED <<prev, mem, sig, cnt, st>>
Next1 == l <= Len(Traces[t].ev) /\ (Upd \/ Query \/ End \/ Died) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Report(t, errs \cup Rule(st = "ended", "P10-trace-ends", l))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, prev, mem, sig, cnt, st>>
Next == Next1 \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
