------------------------------- MODULE KronTrace -------------------------------
(* Recorded Kron reductions and complex matrix operations (harness/kron.cpp) *)
EXTENDS TraceLib, Kron
VARIABLES t, l, errs, map, st
vars == <<t, l, errs, map, st>>
E == Traces[t].ev[l]
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ map = <<>> /\ st = "new"
\* map: <<number of eliminated nodes, number of retained nodes, matrix>> of the last successful reduction
Go == /\ E.e = "go" /\ st' = (IF E.ok = 1 /\ E.sing = 0 THEN "reduced" ELSE "failed")
      /\ map' = (IF E.ok = 1 /\ E.sing = 0 THEN <<Len(E.aux), Len(E.non), E.X>> ELSE <<>>)
      /\ LET num == E.ok = 1 /\ E.sing = 0 IN
         errs' = errs \cup Rule(Symmetric(E.Y, E.n) /\ (E.sing # 0 => Kernel(E.Y, E.n, E.aux, E.z)) /\ (num => MapOf(E.Y, E.n, E.non, E.aux, E.X)), "harness-network", l)
           \cup Rule(E.sing = 1 => E.ok = 0, "P23-singular-not-reported", l)
           \cup Rule(E.sing = 0 => E.ok = 1, "P23-fails", l)
           \cup Rule(E.kept = 1, "P23-inputs-modified", l)
           \cup Rule(num => E.dims = 1 /\ MapOf(E.Y, E.n, E.non, E.aux, E.M), "P23-map", l)
           \cup Rule(num => Reduced(E.Y, E.n, E.non, E.aux, E.X, E.R), "P23-reduced", l)
Apply == /\ E.e = "apply" /\ UNCHANGED <<map, st>>
         /\ errs' = errs \cup Rule(st = "reduced" /\ E.ok = 1, "P23-apply-fails", l) \cup Rule(E.kept = 1, "P23-inputs-modified", l)
              \cup Rule(st = "reduced" => Is(E.w, map[1], 1, LAMBDA i, j : Applied(map[3], map[1], map[2], E.v, i)), "P23-apply", l)
Op == /\ E.e = "op" /\ UNCHANGED <<map, st>>
      /\ errs' = errs \cup Rule(E.kept = 1, "P17-inputs-modified", l) \cup Rule(OpRight(E), "P17-" \o E.op, l)
End == E.e = "end" /\ st' = "ended" /\ UNCHANGED <<map, errs>>
Died == /\ E.e \in {"assert", "crash"} /\ errs' = errs \cup Rule(FALSE, (IF Has(Traces[t].meta, "op") THEN "P17-" ELSE "P23-") \o (IF E.e = "assert" THEN "assertion" ELSE "abnormal-end"), l)
        /\ UNCHANGED <<map, st>>
Step == l <= Len(Traces[t].ev) /\ (Go \/ Apply \/ Op \/ End \/ Died) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1
        /\ Report(t, errs \cup Rule(st = "ended", (IF Has(Traces[t].meta, "op") THEN "P17-" ELSE "P23-") \o "trace-ends", l))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, map, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
