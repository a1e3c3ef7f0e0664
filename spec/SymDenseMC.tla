------------------------------ MODULE SymDenseMC ------------------------------
(* The certificate against definitions: number of negative eigenvalues of 2x2 matrices by sign changes of the characteristic
   polynomial (Descartes is exact for real spectra), for all small certificates. *)
EXTENDS SymDense
CONSTANT K
VARIABLES l, D
Ints == -K .. K
Init == l \in Ints /\ D \in {<<<<a>>, <<b>>>> : a, b \in Ints} \cup {<<<<a, b, c>>>> : a, b, c \in Ints}
Next == UNCHANGED <<l, D>>
L == <<1, 0, l, 1>>
M(i, j) == LET off == Offsets(D, 1, 1) IN SumTo([k \in 1 .. 2 |-> At(L, 2, i, k) * DLt(L, D, 2, off, k, j)], 2)
A == <<M(1, 1), M(1, 2), M(2, 1), M(2, 2)>>
Tr == A[1] + A[4]
Det == A[1] * A[4] - A[2] * A[3]
Symmetric == A[2] = A[3]
\* eigenvalues are the roots of x^2 - Tr x + Det
NegEig == IF Det < 0 THEN 1 ELSE IF Det > 0 THEN (IF Tr < 0 THEN 2 ELSE 0) ELSE IF Tr < 0 THEN 1 ELSE 0
Inertia == Neg(D) = NegEig
Sing == Singular(D) <=> Det = 0
Cert == Certificate(A, L, D, <<0, 1>>, 2) /\ Certificate(<<A[4], A[3], A[2], A[1]>>, L, D, <<1, 0>>, 2)
Spec == Init /\ [][Next]_<<l, D>>
=============================================================================
