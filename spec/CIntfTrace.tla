------------------------------ MODULE CIntfTrace ------------------------------
(* Recorded use of the C and Fortran interfaces (harness/cintf.cpp). Pass 0 does the actions of each object natively, alone; the
   later passes do the actions of all objects together through the other interfaces. ref[o] holds what the native solves of object o
   recorded, in order; the k-th solve of an object in a pass must equal the k-th native one.                                    *)
EXTENDS TraceLib
VARIABLES t, l, errs, ref, made, cnt, cre, over, fin
vars == <<t, l, errs, ref, made, cnt, cre, over, fin>>
M == Traces[t].meta
E == Traces[t].ev[l]
K == M.K
Zero == [o \in 0 .. K - 1 |-> 0]
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ errs = {} /\ ref = [o \in 0 .. K - 1 |-> <<>>] /\ made = [o \in 0 .. K - 1 |-> <<>>] /\ cnt = Zero /\ cre = Zero /\ over = FALSE /\ fin = FALSE
Ob == Has(E, "o") /\ E.o \in 0 .. K - 1
Own == Rule(E.kept = 1, "P22-user-data", l) \cup Rule(E.strange = 0, "P22-sizes", l) \cup Rule(E.lies = 0 \/ over, "P22-stale", l)
NatSolve == /\ E.e = "solve" /\ Ob /\ E.how = "native" /\ ref' = [ref EXCEPT ![E.o] = Append(@, E)] /\ UNCHANGED <<errs, made, cnt, cre, over, fin>>
Solve == /\ E.e = "solve" /\ Ob /\ E.how # "native" /\ cnt' = [cnt EXCEPT ![E.o] = @ + 1] /\ UNCHANGED <<ref, made, cre, over, fin>>
         /\ LET k == cnt[E.o] + 1
            IN errs' = errs \cup Own \cup
                 (IF over \/ k > Len(ref[E.o]) THEN {}
                  ELSE LET R == ref[E.o][k]
                       IN Rule(E.ek = R.ek /\ E.en = R.en, "P22-calls", l) \cup Rule(E.how = "fortran" \/ (E.kinds = R.kinds /\ E.n = R.n), "P22-calls", l)
                          \cup Rule(E.flags = R.flags, "P22-flags", l) \cup Rule(E.args = R.args, "P22-arguments", l)
                          \cup Rule(E.x = R.x, "P22-solution", l) \cup Rule(E.f = R.f, "P22-objective", l)
                          \* the mixed dense-sparse objects of C have no place for status and iterations
                          \cup Rule((E.how = "c" /\ E.mds) \/ (E.st = R.st /\ E.it = R.it), "P22-status", l))
NatMake == E.e = "create" /\ Ob /\ E.how = "native" /\ made' = [made EXCEPT ![E.o] = Append(@, E.calls)] /\ UNCHANGED <<errs, ref, cnt, cre, over, fin>>
Make == /\ E.e = "create" /\ Ob /\ E.how # "native" /\ cre' = [cre EXCEPT ![E.o] = @ + 1] /\ UNCHANGED <<ref, made, cnt, over, fin>>
        /\ errs' = errs \cup Rule(over \/ E.how = "fortran" \/ cre[E.o] + 1 > Len(made[E.o]) \/ E.calls = made[E.o][cre[E.o] + 1], "P22-create-calls", l)
Pass == /\ E.e = "pass" /\ cnt' = Zero /\ cre' = Zero /\ UNCHANGED <<ref, made, over, fin>>
        /\ errs' = errs \cup (IF E.pass = 0 \/ over THEN {} ELSE Rule(\A o \in 0 .. K - 1 : (E.pass = 1 \/ cnt[o] > 0) => cnt[o] = Len(ref[o]), "P22-completes", l))
Ovf == E.e = "ovf" /\ over' = TRUE /\ UNCHANGED <<errs, ref, made, cnt, cre, fin>>
\* a failure of the native solves is judged elsewhere
Died == /\ E.e \in {"assert", "crash"} /\ fin' = TRUE /\ UNCHANGED <<ref, made, cnt, cre, over>>
        /\ errs' = errs \cup Rule(over \/ ~(\E k \in 1 .. l : Traces[t].ev[k].e = "pass"), "P22-completes", l)
End == E.e = "end" /\ fin' = TRUE /\ UNCHANGED <<errs, ref, made, cnt, cre, over>>
Other == ~(E.e \in {"pass", "ovf", "assert", "crash", "end"} \/ (E.e \in {"solve", "create"} /\ Ob)) /\ UNCHANGED <<errs, ref, made, cnt, cre, over, fin>>
Step == l <= Len(Traces[t].ev) /\ (NatSolve \/ Solve \/ NatMake \/ Make \/ Pass \/ Ovf \/ Died \/ End \/ Other) /\ l' = l + 1 /\ UNCHANGED t
Done == /\ l = Len(Traces[t].ev) + 1 /\ Report(t, errs \cup Rule(over \/ fin, "P22-trace-ends", l))
        /\ l' = l + 1 /\ UNCHANGED <<t, errs, ref, made, cnt, cre, over, fin>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
