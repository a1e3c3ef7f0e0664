-------------------------------- MODULE MatMC --------------------------------
(* Laws the matrix semantics must obey, for all pairs of small matrices (including empty ones) and factors. *)
EXTENDS Mat
Vals == {-96, 0, 64}
Shapes == {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>}
Mats(m, n) == {MkM(m, n, LAMBDA i, j : f[(i - 1) * n + j]) : f \in [1 .. m * n -> Vals]}
VARIABLES A, X, done
Init == \E s \in Shapes, k \in 0 .. 2 : A \in Mats(s[1], s[2]) /\ X \in Mats(s[2], k) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<A, X>>
Spec == Init /\ [][Next]_<<A, X, done>>
Out(o, ops, c, ix) == Res(o, ops, c, ix, <<>>, 1).out[1]
Zero(m, n) == MkM(m, n, LAMBDA i, j : 0)
Row(M1, i) == [m |-> 1, n |-> M1.n, v |-> <<M1.v[i]>>]
W0 == MkM(A.m, X.n, LAMBDA i, j : 64 * (i - j))
Shape == IsMat(A) /\ IsMat(X)
\* (A X)^T = X^T A^T
TransposeLaw == Tr(Out("timesMat", <<W0, A, X>>, <<0, SC>>, <<>>)) = Out("timesMat", <<Zero(X.n, A.m), Tr(X), Tr(A)>>, <<0, SC>>, <<>>)
\* the three products agree through transposition, with accumulation
Products == \A b \in {0, 32, 64}, a \in {-64, 0, 128} :
   /\ Out("timesMat", <<W0, A, X>>, <<b, a>>, <<>>) = Out("timesMatTrans", <<W0, A, Tr(X)>>, <<b, a>>, <<>>)
   /\ Out("timesMat", <<W0, A, X>>, <<b, a>>, <<>>) = Out("transTimesMat", <<W0, Tr(A), X>>, <<b, a>>, <<>>)
\* columns of a product are the products with the columns
VecLaw == \A j \in 1 .. X.n : LET x == Row(Tr(X), j) y == Out("timesVec", <<Row(Tr(Zero(A.m, 1)), 1), A, x>>, <<0, SC>>, <<>>) IN
   /\ y.v[1] = [i \in 1 .. A.m |-> Prod(A, X).v[i][j]]
   /\ y = Out("transTimesVec", <<Row(Tr(Zero(A.m, 1)), 1), Tr(A), x>>, <<0, SC>>, <<>>)
BlockLaw == LET H == MkM(A.m + 1, A.n + 2, LAMBDA i, j : 64) C == Out("copyBlock", <<H, A>>, <<>>, <<1, 1>>) IN Out("copyFromBlock", <<A, C>>, <<>>, <<1, 1>>) = A
ShiftLaw == A.m = 2 => Res("shiftRows", <<A>>, <<>>, <<1>>, <<>>, 1).out[1].v[2] = A.v[1]
SymLaw == LET S == Prod(A, Tr(A)) U == Out("upToLow", <<MkM(A.m, A.m, LAMBDA i, j : IF i > j THEN 0 ELSE S.v[i][j])>>, <<>>, <<>>) IN U = S
Laws == Shape /\ TransposeLaw /\ Products /\ VecLaw /\ BlockLaw /\ ShiftLaw /\ SymLaw
=============================================================================
