------------------------------- MODULE Present -------------------------------
(* One problem, presented in different ways (P08).

   The user's variables and constraints pass through: removal of fixed variables, classification of the constraints into
   equalities and inequalities (keeping their order), scaling of the constraints.  The internal problem is what the solver
   and, later, the feasibility restoration problem (which reads the bounds of the internal problem and classifies them
   again) work with; results travel back through the inverse maps.  The model enumerates all small problems.  Numbers are
   integers; scale factors divide by 1, 2 or 4 and all data are multiples of 4, so that everything is exact.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT ScaleInfinite    \* TRUE: infinite bounds are multiplied by the scale factors too (a design that is wrong)
Inf == 400                \* bounds of this magnitude or more are infinite
Vals == {0, 8}
NV == 2
NC == 2
Infs == {Inf, 2 * Inf}    \* ways to write infinity
LoB == Vals \cup {-Inf}
UpB == {8, Inf}
Scales == {1, 2}

\* a problem: variables <<lo, up>>, constraints <<lo, up>>, scale factor of each constraint, the solution in user's terms
Bounds == {b \in LoB \X UpB : b[1] <= b[2]}
ConB == Bounds \ {<<-Inf, Inf>>}

VARIABLES vb, cb, sc, perm, inf, mode, xs, st
vars == <<vb, cb, sc, perm, inf, mode, xs, st>>

Finite(v) == v > -Inf /\ v < Inf
Fixed(b) == b[1] = b[2]
IsEq(b) == b[1] = b[2]
Write(v) == IF v >= Inf THEN inf ELSE IF v <= -Inf THEN -inf ELSE v      \* how the user writes a bound
Sel(s, P(_)) == SelectSeq(s, P)
Idx(n) == [i \in 1 .. n |-> i]

\* the user's presentation: constraint k of the presentation is constraint perm[k] of the problem
UV == [i \in 1 .. NV |-> <<Write(vb[i][1]), Write(vb[i][2])>>]
UC == [k \in 1 .. NC |-> <<Write(cb[perm[k]][1]), Write(cb[perm[k]][2])>>]
US == [k \in 1 .. NC |-> sc[perm[k]]]

\* ---- what the solver does with a presentation
Free(uv) == LET F(i) == ~Fixed(uv[i]) IN Sel(Idx(Len(uv)), F)
EqIdx(uc) == LET F(k) == IsEq(uc[k]) IN Sel(Idx(Len(uc)), F)
InIdx(uc) == LET F(k) == ~IsEq(uc[k]) IN Sel(Idx(Len(uc)), F)
ScaleB(v, s) == IF Finite(v) \/ ScaleInfinite THEN v \div s ELSE v
Internal(uv, uc, us) ==
  [x  |-> [j \in 1 .. Len(Free(uv)) |-> uv[Free(uv)[j]]],
   eq |-> [j \in 1 .. Len(EqIdx(uc)) |-> uc[EqIdx(uc)[j]][1] \div us[EqIdx(uc)[j]]],
   ine |-> [j \in 1 .. Len(InIdx(uc)) |-> LET k == InIdx(uc)[j] IN <<ScaleB(uc[k][1], us[k]), ScaleB(uc[k][2], us[k])>>],
   ilo |-> [j \in 1 .. Len(InIdx(uc)) |-> Finite(uc[InIdx(uc)[j]][1])],       \* recorded before scaling
   iup |-> [j \in 1 .. Len(InIdx(uc)) |-> Finite(uc[InIdx(uc)[j]][2])]]
\* the restoration problem classifies the bounds of the internal problem again
Restoration(q) == [ilo |-> [j \in DOMAIN q.ine |-> Finite(q.ine[j][1])], iup |-> [j \in DOMAIN q.ine |-> Finite(q.ine[j][2])]]
\* values that matter: the finite ones
Norm(q) == [q EXCEPT !.x = [j \in DOMAIN q.x |-> [b \in 1 .. 2 |-> IF Finite(q.x[j][b]) THEN q.x[j][b] ELSE 9999]],
                     !.ine = [j \in DOMAIN q.ine |-> [b \in 1 .. 2 |-> IF (IF b = 1 THEN q.ilo ELSE q.iup)[j] THEN q.ine[j][b] ELSE 9999]]]
\* results of the solver mapped back: variables (fixed ones reinserted), multipliers in the user's order
BackX(uv, xi) == [i \in 1 .. Len(uv) |-> IF Fixed(uv[i]) THEN uv[i][1] ELSE xi[CHOOSE j \in 1 .. Len(Free(uv)) : Free(uv)[j] = i]]
BackL(uc, le, li) == [k \in 1 .. Len(uc) |-> IF IsEq(uc[k]) THEN le[CHOOSE j \in 1 .. Len(EqIdx(uc)) : EqIdx(uc)[j] = k] ELSE li[CHOOSE j \in 1 .. Len(InIdx(uc)) : InIdx(uc)[j] = k]]

\* equalities keep their relative order and so do inequalities: the presentations P08 speaks of
Keeps(p) == \A a, b \in 1 .. NC : a < b /\ IsEq(cb[p[a]]) = IsEq(cb[p[b]]) => p[a] < p[b]

Init ==
  /\ vb \in [1 .. NV -> Bounds] /\ cb \in [1 .. NC -> ConB] /\ sc \in [1 .. NC -> Scales]
  /\ perm \in Permutations(1 .. NC) /\ Keeps(perm)
  /\ inf \in Infs /\ mode \in {"one", "two"} /\ st = "user"
  /\ xs \in [1 .. NV -> {4, 8}] /\ \A i \in 1 .. NV : Fixed(vb[i]) => xs[i] = vb[i][1]
Go == st = "user" /\ st' = "internal" /\ UNCHANGED <<vb, cb, sc, perm, inf, mode, xs>>
Spec == Init /\ [][Go]_vars

Q == Internal(UV, UC, US)
\* the plain presentation: original order, first way of writing infinity
Plain == Internal([i \in 1 .. NV |-> vb[i]], [k \in 1 .. NC |-> cb[k]], sc)
SameInternal == Norm(Q) = Norm(Plain)
\* every stage agrees which bounds exist
SamePattern == Restoration(Q).ilo = Q.ilo /\ Restoration(Q).iup = Q.iup
\* constraint bodies in one call or in two calls: the same vectors
Body(k) == 100 * k
TwoCall == <<[j \in 1 .. Len(EqIdx(UC)) |-> Body(perm[EqIdx(UC)[j]])], [j \in 1 .. Len(InIdx(UC)) |-> Body(perm[InIdx(UC)[j]])]>>
OneCall == LET all == [k \in 1 .. NC |-> Body(perm[k])] IN <<[j \in 1 .. Len(EqIdx(UC)) |-> all[EqIdx(UC)[j]]], [j \in 1 .. Len(InIdx(UC)) |-> all[InIdx(UC)[j]]]>>
SameBodies == TwoCall = OneCall
\* results come back where they belong
RoundTrip ==
  /\ BackX(UV, [j \in 1 .. Len(Free(UV)) |-> xs[Free(UV)[j]]]) = [i \in 1 .. NV |-> xs[i]]
  /\ LET le == [j \in 1 .. Len(EqIdx(UC)) |-> perm[EqIdx(UC)[j]]]
         li == [j \in 1 .. Len(InIdx(UC)) |-> perm[InIdx(UC)[j]]] IN BackL(UC, le, li) = [k \in 1 .. NC |-> perm[k]]
=============================================================================
