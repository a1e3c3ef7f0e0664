------------------------------- MODULE SymDense -------------------------------
(* What a dense symmetric factorization says (P19), from a certificate: A = P'(L D L')P with L unit lower triangular, P a
   permutation and D block diagonal.  By Sylvester's law A and D have the same inertia.  Matrices are sequences by rows. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
At(A, n, i, j) == A[(i - 1) * n + j]
RECURSIVE Offsets(_, _, _)
\* first row of every block
Offsets(D, k, at) == IF k > Len(D) THEN <<>> ELSE <<at>> \o Offsets(D, k + 1, at + (IF Len(D[k]) = 1 THEN 1 ELSE 2))
BlockNeg(b) == IF Len(b) = 1 THEN (IF b[1] < 0 THEN 1 ELSE 0)
               ELSE LET det == b[1] * b[3] - b[2] * b[2] IN
                    IF det < 0 THEN 1 ELSE IF det > 0 THEN (IF b[1] > 0 THEN 0 ELSE 2) ELSE (IF b[1] + b[3] < 0 THEN 1 ELSE 0)
BlockSing(b) == IF Len(b) = 1 THEN b[1] = 0 ELSE b[1] * b[3] = b[2] * b[2]
Neg(D) == SumTo([k \in 1 .. Len(D) |-> BlockNeg(D[k])], Len(D))
Singular(D) == \E k \in 1 .. Len(D) : BlockSing(D[k])
\* (D L')(i, j)
DLt(L, D, n, off, i, j) ==
  LET k == CHOOSE q \in 1 .. Len(D) : off[q] <= i /\ i < off[q] + (IF Len(D[q]) = 1 THEN 1 ELSE 2)
      o == off[k] b == D[k]
  IN IF Len(b) = 1 THEN b[1] * At(L, n, j, i)
     ELSE IF i = o THEN b[1] * At(L, n, j, o) + b[2] * At(L, n, j, o + 1) ELSE b[2] * At(L, n, j, o) + b[3] * At(L, n, j, o + 1)
Certificate(A, L, D, p, n) ==
  LET off == Offsets(D, 1, 1)
      DL == [i \in 1 .. n |-> [j \in 1 .. n |-> DLt(L, D, n, off, i, j)]]
  IN /\ \A i, j \in 1 .. n : At(L, n, i, j) = (IF i = j THEN 1 ELSE IF j > i THEN 0 ELSE At(L, n, i, j))
     /\ {p[i] : i \in 1 .. n} = 0 .. (n - 1)
     /\ \A i, j \in 1 .. n : At(A, n, p[i] + 1, p[j] + 1) = SumTo([k \in 1 .. n |-> At(L, n, i, k) * DL[k][j]], n)
Solves(A, n, x, b) == \A i \in 1 .. n : SumTo([j \in 1 .. n |-> At(A, n, i, j) * x[j]], n) = b[i]
=============================================================================
