--------------------------------- MODULE Kron ---------------------------------
(* Kron reduction of complex symmetric networks (P23) over Gaussian integers, and complex matrices (P17).  A matrix is a
   sequence by rows of interleaved real and imaginary parts, as recorded from the code. *)
EXTENDS Integers, Sequences, FiniteSets
ZAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
ZMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
ZNeg(a) == <<-a[1], -a[2]>>
Zero == <<0, 0>>
RECURSIVE ZSum(_, _)
ZSum(f, k) == IF k = 0 THEN Zero ELSE ZAdd(f[k], ZSum(f, k - 1))
\* element k (from 1) of a flat sequence, element (i, j) of a matrix with n columns
V(A, k) == <<A[2 * k - 1], A[2 * k]>>
At(A, n, i, j) == V(A, (i - 1) * n + j)
Is(A, m, n, F(_, _)) == Len(A) = 2 * m * n /\ \A i \in 1 .. m, j \in 1 .. n : At(A, n, i, j) = F(i, j)
Symmetric(Y, n) == \A i, j \in 1 .. n : At(Y, n, i, j) = At(Y, n, j, i)
\* node lists are 0-based, as in the code
Block(Y, n, p, q, i, j) == At(Y, n, p[i] + 1, q[j] + 1)
\* the map from voltages of the retained nodes to voltages of the eliminated ones: Ybb M = -Yba (nothing is injected at eliminated nodes)
MapOf(Y, n, non, aux, M) == /\ Len(M) = 2 * Len(aux) * Len(non)
  /\ \A i \in 1 .. Len(aux), j \in 1 .. Len(non) :
       ZSum([k \in 1 .. Len(aux) |-> ZMul(Block(Y, n, aux, aux, i, k), At(M, Len(non), k, j))], Len(aux)) = ZNeg(Block(Y, n, aux, non, i, j))
\* the Schur complement, in the order of the retained nodes
Schur(Y, n, non, aux, M, i, j) ==
  ZAdd(Block(Y, n, non, non, i, j), ZSum([k \in 1 .. Len(aux) |-> ZMul(Block(Y, n, aux, non, k, i), At(M, Len(non), k, j))], Len(aux)))
Reduced(Y, n, non, aux, M, R) == Is(R, Len(non), Len(non), LAMBDA i, j : Schur(Y, n, non, aux, M, i, j))
\* y = A x for vectors of pairs
Applied(A, m, n, x, i) == ZSum([j \in 1 .. n |-> ZMul(At(A, n, i, j), V(x, j))], n)
Kernel(Y, n, aux, z) == /\ \E k \in 1 .. Len(aux) : V(z, k) # Zero
  /\ \A i \in 1 .. Len(aux) : ZSum([k \in 1 .. Len(aux) |-> ZMul(Block(Y, n, aux, aux, i, k), V(z, k))], Len(aux)) = Zero
\* entries of a symmetric matrix given by its upper triangle
Sym(A, n, i, j) == IF i <= j THEN At(A, n, i, j) ELSE At(A, n, j, i)
\* ---------- complex matrices
RECURSIVE MaxSq(_, _)
MaxSq(A, k) == IF k = 0 THEN 0 ELSE LET v == V(A, k) s == v[1] * v[1] + v[2] * v[2] r == MaxSq(A, k - 1) IN IF s > r THEN s ELSE r
Lin(e, y, s) == ZAdd(ZMul(e.be, y), ZMul(e.al, s))
OpRight(e) ==
  LET m == e.m n == e.n op == e.op cols == Len(e.ci) IN
  CASE op = "slice" -> Is(e.out, Len(e.ri), cols, LAMBDA i, j : At(e.A, n, e.ri[i] + 1, e.ci[j] + 1))
    [] op = "slicesym" -> Is(e.out, Len(e.ri), cols, LAMBDA i, j : Sym(e.A, n, e.ri[i] + 1, e.ci[j] + 1))
    [] op = "symtosym" -> Is(e.out, Len(e.ri), cols, LAMBDA i, j : IF i > j THEN Zero ELSE At(e.A, n, e.ri[i] + 1, e.ci[j] + 1))
    [] op \in {"stimes", "dtimes"} -> Is(e.out, m, 1, LAMBDA i, j : Lin(e, V(e.y, i), Applied(e.A, m, n, e.x, i)))
    [] op = "stransmat" -> Is(e.out, n, cols, LAMBDA i, j : Lin(e, At(e.y, cols, i, j), ZSum([k \in 1 .. m |-> ZMul(At(e.A, n, k, i), At(e.x, cols, k, j))], m)))
    [] op \in {"daddsparse", "dadd", "daddupper"} -> Is(e.out, m, n, LAMBDA i, j : ZAdd(At(e.A, n, i, j), ZMul(e.al, At(e.B, n, i, j))))
    [] op = "dneg" -> Is(e.out, m, n, LAMBDA i, j : ZNeg(At(e.A, n, i, j)))
    [] op = "dcopyrows" -> Is(e.out, Len(e.ri), n, LAMBDA i, j : At(e.A, n, e.ri[i] + 1, j))
    [] op = "dcopy" -> e.out = e.A
    [] op \in {"smax", "dmax"} -> e.out = <<MaxSq(e.A, m * n), 0>>
    [] op = "sconst" -> Is(e.out, m, n, LAMBDA i, j : ZMul(At(e.A, n, i, j), V(e.x, 1)))
    [] op = "dconst" -> Is(e.out, m, n, LAMBDA i, j : V(e.x, 1))
=============================================================================
