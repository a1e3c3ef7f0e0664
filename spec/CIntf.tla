-------------------------------- MODULE CIntf --------------------------------
(* The C (and Fortran) interface: problem objects are created, solved, given another starting point and destroyed in any order.
   Every object is accompanied by a native one that sees the same actions, alone. A solve asks the user for quantities at a sequence
   of points that depends on the starting point and on what the object did before; the user is told whether the point is a new one
   and computes only then (it remembers its values). The wrapper hands the request on, returns to the solver what the user computed,
   and leaves objective, solution and status in the object.
   Variants: Drop = quantities whose change flag the wrapper does not pass on; Shared = results are kept in one place for all
   objects; Residue = what an object did survives its destruction.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Objs, Points, Len0, Drop, Shared, Residue
VARIABLES alive, start, past, told, nat, last, place
vars == <<alive, start, past, told, nat, last, place>>
\* what a solver asks for: the k-th request of a solve from point p by an object with past h
Kinds == {"f", "g", "c"}
NP == Cardinality(Points)
Request(p, h, k) == [kind |-> IF k % 3 = 1 THEN "f" ELSE IF k % 3 = 2 THEN "c" ELSE "g", pt |-> (p + h + (k \div 2)) % NP]
\* the user: remembers the last point announced (-1 before)
RECURSIVE Solve(_, _, _, _, _, _)
Solve(p, h, k, prev, cx, drop) ==      \* answers: sequence of <<kind, point asked, flag seen, point of the values returned>>
  IF k > Len0 THEN <<>>
  ELSE LET r == Request(p, h, k)
           new == prev # r.pt \/ prev = NP
           flag == new /\ r.kind \notin drop
           c2 == IF flag \/ cx = NP THEN r.pt ELSE cx
       IN <<<<r.kind, r.pt, flag, c2>>>> \o Solve(p, h, k + 1, r.pt, c2, drop)
None == <<>>
Init == /\ alive = [o \in Objs |-> FALSE] /\ start = [o \in Objs |-> 0] /\ past = [o \in Objs |-> 0]
        /\ told = [o \in Objs |-> None] /\ nat = [o \in Objs |-> None] /\ last = [o \in Objs |-> <<>>] /\ place = <<>>
Create(o) == /\ ~alive[o] /\ alive' = [alive EXCEPT ![o] = TRUE] /\ past' = IF Residue THEN past ELSE [past EXCEPT ![o] = 0]
             /\ told' = [told EXCEPT ![o] = None] /\ nat' = [nat EXCEPT ![o] = None] /\ last' = [last EXCEPT ![o] = <<0>>] /\ UNCHANGED <<start, place>>
Move(o, p) == alive[o] /\ start[o] # p /\ start' = [start EXCEPT ![o] = p] /\ UNCHANGED <<alive, past, told, nat, last, place>>
DoSolve(o) == /\ alive[o] /\ last[o][1] < 2
              /\ LET h == IF Shared THEN (IF place = <<>> THEN past[o] ELSE place[1]) ELSE past[o]
                     ans == Solve(start[o], h, 1, NP, NP, Drop)
                     n == last[o][1]                                         \* number of solves of the object's native twin
                 IN /\ told' = [told EXCEPT ![o] = ans] /\ nat' = [nat EXCEPT ![o] = Solve(start[o], n, 1, NP, NP, {})]
                    /\ past' = [past EXCEPT ![o] = past[o] + 1] /\ place' = <<past[o] + 1>>
                    /\ last' = [last EXCEPT ![o] = <<n + 1>>]
              /\ UNCHANGED <<alive, start>>
Destroy(o) == alive[o] /\ alive' = [alive EXCEPT ![o] = FALSE] /\ told' = [told EXCEPT ![o] = None] /\ nat' = [nat EXCEPT ![o] = None] /\ UNCHANGED <<start, past, last, place>>
Next == \E o \in Objs : Create(o) \/ DoSolve(o) \/ Destroy(o) \/ \E p \in Points : Move(o, p)
Spec == Init /\ [][Next]_vars
\* the object tells its user and returns what the native one does
Same == \A o \in Objs : told[o] = nat[o]
\* every answer belongs to the point it was asked for
Current == \A o \in Objs : \A k \in 1 .. Len(told[o]) : told[o][k][2] = told[o][k][4]
Bound == \A o \in Objs : past[o] <= 4
==============================================================================
