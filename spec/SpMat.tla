-------------------------------- MODULE SpMat --------------------------------
(* Meaning of the operations of the sparse (triplet), symmetric sparse and mixed dense-sparse matrices. A sparse operand is
   [m, n, v]: v is the sequence of its entries <<row, column, value>> (zero based) in storage order, and it stands for the matrix
   Dn(T). Operations that place entries into given storage positions must leave the other positions alone.                   *)
EXTENDS Mat
Dn(T) == MkM(T.m, T.n, LAMBDA i, j : SumOver(Len(T.v), LAMBDA k : IF T.v[k][1] = i - 1 /\ T.v[k][2] = j - 1 THEN T.v[k][3] ELSE 0))
\* symmetric: the entries of the upper triangle
Sy(T) == LET U == Dn(T) IN MkM(T.m, T.n, LAMBDA i, j : IF i <= j THEN U.v[i][j] ELSE U.v[j][i])
Upper(T) == \A k \in 1 .. Len(T.v) : T.v[k][1] <= T.v[k][2]
\* [X Y]
Beside(X, Y) == MkM(X.m, X.n + Y.n, LAMBDA i, j : IF j <= X.n THEN X.v[i][j] ELSE Y.v[i][j - X.n])
Blocks(X, Y) == MkM(X.m + Y.m, X.n + Y.n, LAMBDA i, j : IF i <= X.m /\ j <= X.n THEN X.v[i][j] ELSE IF i > X.m /\ j > X.n THEN Y.v[i - X.m][j - X.n] ELSE 0)
Pat(T) == [k \in 1 .. Len(T.v) |-> <<T.v[k][1], T.v[k][2]>>]
Count(s, x) == Cardinality({k \in 1 .. Len(s) : s[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : Count(a, a[k]) = Count(b, a[k])
\* entries `new` were put at the storage positions from s (zero based) on, the others are as before
Placed(pre, post, s, new) ==
  /\ post.m = pre.m /\ post.n = pre.n /\ Len(post.v) = Len(pre.v) /\ s + Len(new) <= Len(post.v)
  /\ SameBag(SubSeq(post.v, s + 1, s + Len(new)), new)
  /\ \A k \in 1 .. Len(post.v) : (k <= s \/ k > s + Len(new)) => post.v[k] = pre.v[k]
\* the entries of a list selected by K, in order, each mapped by F(index)
Pick(s, K(_), F(_)) == LET R[k \in 0 .. Len(s)] == IF k = 0 THEN <<>> ELSE IF K(k) THEN Append(R[k - 1], F(k)) ELSE R[k - 1] IN R[Len(s)]
Nth(x, i) == Cardinality({k \in 1 .. i - 1 : x[k] # 0})          \* number of selected before i
Sorted(T) == \A k \in 2 .. Len(T.v) : T.v[k - 1][1] < T.v[k][1] \/ (T.v[k - 1][1] = T.v[k][1] /\ T.v[k - 1][2] <= T.v[k][2])
Strict(T) == Sorted(T) /\ \A k \in 2 .. Len(T.v) : <<T.v[k][1], T.v[k][2]>> # <<T.v[k - 1][1], T.v[k - 1][2]>>
JacFR(C, D) == LET n == C.n  mc == C.m  md == D.m IN
  MkM(mc + md, n + 2 * mc + 2 * md, LAMBDA i, j : IF j <= n THEN (IF i <= mc THEN C.v[i][j] ELSE D.v[i - mc][j])
      ELSE IF i <= mc THEN (IF j = n + i THEN -SC ELSE IF j = n + mc + i THEN SC ELSE 0)
      ELSE (IF j = n + 2 * mc + (i - mc) THEN -SC ELSE IF j = n + 2 * mc + md + (i - mc) THEN SC ELSE 0))
\* the Hessian H extended to size n with a diagonal on its first entries
HessFR(n, H, d) == MkM(n, n, LAMBDA i, j : (IF i <= H.m /\ j <= H.n THEN H.v[i][j] ELSE 0) + (IF i = j /\ i <= Len(d) THEN d[i] ELSE 0))
UT(a, X) == MkM(X.m, X.n, LAMBDA i, j : IF i <= j THEN Mul(a, X.v[i][j]) ELSE 0)
AddAt(W, X, r, c) == MkM(W.m, W.n, LAMBDA i, j : W.v[i][j] + (IF In(i, r, X.m) /\ In(j, c, X.n) THEN X.v[i - r][j - c] ELSE 0))
Weighted(X, d, Y) == MkM(X.m, Y.m, LAMBDA i, j : SumOver(X.n, LAMBDA k : Mul(Div(X.v[i][k], d[k]), Y.v[j][k])))
Scal(a, X) == MkM(X.m, X.n, LAMBDA i, j : Mul(a, X.v[i][j]))
RowMax(X) == Vc(X.m, LAMBDA i : MaxOver(X.n, 0, LAMBDA j : Abs(X.v[i][j])))
Fin(T) == \A k \in 1 .. Len(T.v) : T.v[k][3] \notin Bad
FinD(X) == \A i \in 1 .. X.m, j \in 1 .. X.n : X.v[i][j] \notin Bad
MaxAbsT(T) == LET S == {Abs(T.v[k][3]) : k \in 1 .. Len(T.v)} IN IF S = {} THEN 0 ELSE Max(S)
MapV(T, F(_)) == [T EXCEPT !.v = [k \in 1 .. Len(T.v) |-> <<T.v[k][1], T.v[k][2], F(k)>>]]
\* y := b y + a X x
MV(y, b, a, X, x) == Vc(X.m, LAMBDA i : Mul(b, y.v[1][i]) + Mul(a, Dotp(X.n, LAMBDA k : X.v[i][k], LAMBDA k : x.v[1][k])))
\* ret of the conversion to compressed rows: triplet of every entry, position of rows with an additional diagonal, its triplet, number of those
CsrOk(T, C, ret) ==
  LET nz == Len(C.v)  n == T.n
      Extra(i) == {k \in 1 .. Len(T.v) : T.v[k][1] = i /\ T.v[k][2] = i}
      Two == {i \in 0 .. n - 1 : Cardinality(Extra(i)) = 2}
  IN /\ Len(ret) = nz + 2 * n + 1
     /\ Dn(C) = Dn(T) /\ Sorted(C) /\ \A k \in 2 .. nz : Pat(C)[k] # Pat(C)[k - 1]
     /\ \A p \in 1 .. nz : ret[p] \in 0 .. Len(T.v) - 1 /\ Pat(T)[ret[p] + 1] = Pat(C)[p]
     /\ ret[nz + 2 * n + 1] = Cardinality(Two)
     /\ \A i \in 0 .. n - 1 : IF i \notin Two THEN ret[nz + i + 1] = -1
                              ELSE LET p == ret[nz + i + 1]  x == ret[nz + n + i + 1] IN
                                   /\ p \in 0 .. nz - 1 /\ Pat(C)[p + 1] = <<i, i>>
                                   /\ x + 1 \in Extra(i) /\ x # ret[p + 1]

\* [result, frame, ret]; `same`: operands that have to be unchanged
Out(res, pre, post, changed) == [result |-> res, frame |-> \A k \in 1 .. Len(pre) : k \in changed \/ post[k] = pre[k], ret |-> TRUE]
Rt(ok, pre, post) == [result |-> TRUE, frame |-> \A k \in 1 .. Len(pre) : post[k] = pre[k], ret |-> ok]
\* row pointers that do not describe a list of rows are recorded as an entry in row -1
Broken(s) == \E k \in 1 .. Len(s) : Len(s[k].v) > 0 /\ Len(s[k].v[1]) = 3 /\ \E z \in 1 .. Len(s[k].v) : s[k].v[z] = <<-1, -1, 0>>
SpFollows(o, A, Q, c, ix, ret) ==
  IF Broken(A) \/ Broken(Q) THEN [result |-> FALSE, frame |-> TRUE, ret |-> TRUE] ELSE
  LET X == A[1]  Z == Q[1]
      Y == IF Len(A) >= 2 THEN A[2] ELSE X
      R == IF Len(A) >= 3 THEN A[3] ELSE X
      S == IF Len(A) >= 4 THEN A[4] ELSE X
      r == IF ret = <<>> THEN <<>> ELSE ret[1]
      F(res) == Out(res, A, Q, {1})
  IN CASE o = "sp_set" -> F(Z = MapV(X, LAMBDA k : c[1]))
       [] o = "sp_timesVec" -> F(Z = MV(X, c[1], c[2], Dn(Y), R))
       [] o = "sp_transTimesVec" -> F(Z = MV(X, c[1], c[2], Tr(Dn(Y)), R))
       [] o = "sp_timesMatTrans" -> F(Z = MkM(X.m, X.n, LAMBDA i, j : Mul(c[1], X.v[i][j]) + Mul(c[2], Prod(Dn(Y), Tr(Dn(R))).v[i][j])))
       [] o = "sp_copySubDiag" -> F(Placed(X, Z, ix[3], [k \in 1 .. ix[2] |-> <<ix[1] + k - 1, ix[1] + k - 1, Mul(c[1], Y.v[1][k])>>]))
       [] o = "sp_setSubDiag" -> F(Placed(X, Z, ix[3], [k \in 1 .. ix[2] |-> <<ix[1] + k - 1, ix[1] + k - 1, c[1]>>]))
       [] o = "sp_transAddUT" -> F(Z = AddAt(X, Scal(c[1], Tr(Dn(Y))), ix[1], ix[2]))
       [] o = "sp_maxabs" -> Rt(r = <<MaxAbsT(X)>>, A, Q)
       [] o = "sp_rowmaxabs" -> F(Z = RowMax(Dn(Y)))
       [] o = "sp_scale_row" -> F(Z = MapV(X, LAMBDA k : Mul(Y.v[1][X.v[k][1] + 1], X.v[k][3])))
       [] o = "sp_scale_row_inv" -> F(Z = MapV(X, LAMBDA k : Div(X.v[k][3], Y.v[1][X.v[k][1] + 1])))
       [] o = "sp_isfinite" -> Rt(r = <<B(Fin(X))>>, A, Q)
       [] o = "sp_new_copy" -> Out(Q[2] = X, A, Q, {2})
       [] o = "sp_clone" -> Rt(r = <<X.m, X.n, Len(X.v)>>, A, Q)
       [] o = "sp_dims" -> Rt(r = <<X.m, X.n, Len(X.v)>>, A, Q)
       [] o = "sp_copy_to" -> F(Z = Y)
       [] o = "sp_copy_to_dense" -> F(Z = Dn(Y))
       [] o = "sp_addMDinvMt" -> F(Z = AddAt(X, UT(c[1], Weighted(Dn(Y), R.v[1], Dn(Y))), ix[1], ix[1]))
       [] o = "sp_addMDinvNt" -> F(Z = AddAt(X, Scal(c[1], Weighted(Dn(Y), S.v[1], Dn(R))), ix[1], ix[2]))
       [] o = "sp_copyRows" -> F(Dn(Z) = MkM(X.m, X.n, LAMBDA i, j : Dn(Y).v[ix[i] + 1][j]) /\ Len(Z.v) = Len(X.v))
       [] o = "sp_copyRowsBlock" -> F(Placed(X, Z, ix[4], Pick(Y.v, LAMBDA k : Y.v[k][1] >= ix[1] /\ Y.v[k][1] < ix[1] + ix[2], LAMBDA k : <<Y.v[k][1] - ix[1] + ix[3], Y.v[k][2], Y.v[k][3]>>)))
       [] o = "sp_copyDiagC" -> F(Placed(X, Z, ix[3], [k \in 1 .. ix[4] |-> <<ix[1] + k - 1, ix[2] + k - 1, c[1]>>]))
       [] o = "sp_copyDiagPat" -> F(Placed(X, Z, ix[3], Pick(Y.v[1], LAMBDA k : R.v[1][k] # 0, LAMBDA k : <<ix[1] + Nth(R.v[1], k), ix[2] + Nth(R.v[1], k), Y.v[1][k]>>)))
       [] o = "sp_copySub" -> F(Placed(X, Z, ix[3], Pick(Y.v, LAMBDA k : ix[4] = 0 \/ Y.v[k][1] # Y.v[k][2], LAMBDA k : <<ix[1] + Y.v[k][1], ix[2] + Y.v[k][2], Y.v[k][3]>>)))
       [] o = "sp_copySubTrans" -> F(Placed(X, Z, ix[3], Pick(Y.v, LAMBDA k : ix[4] = 0 \/ Y.v[k][1] # Y.v[k][2], LAMBDA k : <<ix[1] + Y.v[k][2], ix[2] + Y.v[k][1], Y.v[k][3]>>)))
       [] o = "sp_diagRowPat" -> F(Placed(X, Z, ix[3], Pick(Y.v[1], LAMBDA k : Y.v[1][k] # 0, LAMBDA k : <<ix[1] + Nth(Y.v[1], k), ix[2] + k - 1, c[1]>>)))
       [] o = "sp_diagColPat" -> F(Placed(X, Z, ix[3], Pick(Y.v[1], LAMBDA k : Y.v[1][k] # 0, LAMBDA k : <<ix[1] + k - 1, ix[2] + Nth(Y.v[1], k), c[1]>>)))
       [] o = "sp_csr" -> LET f == Out(CsrOk(X, Q[2], r), A, Q, {2}) IN f
       [] o = "sp_sort" -> F(Sorted(Z) /\ Z.m = X.m /\ Z.n = X.n /\ SameBag(Z.v, X.v))
       [] o = "sp_is_diagonal" -> Rt(r = <<B(X.m = X.n /\ \A k \in 1 .. Len(X.v) : X.v[k][1] = X.v[k][2])>>, A, Q)
       [] o = "sp_extract_diag" -> F(Z = Vc(Y.n, LAMBDA i : Dn(Y).v[i][i]))
       [] o = "sp_setJacFR" -> Out(Dn(Z) = JacFR(Dn(R), Dn(S)) /\ Dn(Q[2]) = JacFR(Dn(R), Dn(S)) /\ Sorted(Z) /\ Pat(Z) = Pat(Q[2]), A, Q, {1, 2})
       [] o = "sy_timesVec" -> F(Z = MV(X, c[1], c[2], Sy(Y), R))
       [] o = "sy_addUT" -> F(Z = AddAt(X, UT(c[1], Dn(Y)), ix[1], ix[1]))
       [] o = "sy_startingAt" -> F(Z = Vc(X.n, LAMBDA i : X.v[1][i] + (IF In(i, ix[2], ix[3]) THEN Mul(c[1], Dn(Y).v[i - ix[2] + ix[1]][i - ix[2] + ix[1]]) ELSE 0)))
       [] o = "sy_offdiag" -> Rt(r = <<Cardinality({k \in 1 .. Len(X.v) : X.v[k][1] # X.v[k][2]})>>, A, Q)
       [] o = "sy_setHessFR" -> Out(Dn(Z) = HessFR(X.n, Dn(R), S.v[1]) /\ Dn(Q[2]) = Dn(Z) /\ Upper(Z) /\ Pat(Z) = Pat(Q[2]), A, Q, {1, 2})
       [] o = "md_timesVec" -> F(Z = MV(X, c[1], c[2], Beside(Dn(Y), R), S))
       [] o = "md_transTimesVec" -> F(Z = MV(X, c[1], c[2], Tr(Beside(Dn(Y), R)), S))
       [] o = "md_timesMatTrans" -> LET P == Prod(Beside(Dn(Y), R), Tr(Beside(Dn(S), A[5]))) IN F(Z = MkM(X.m, X.n, LAMBDA i, j : Mul(c[1], X.v[i][j]) + Mul(c[2], P.v[i][j])))
       [] o = "md_transAddUT" -> F(Z = AddAt(X, Scal(c[1], Tr(Beside(Dn(Y), R))), ix[1], ix[2]))
       [] o = "md_maxabs" -> Rt(r = <<Max({MaxAbsT(X), MaxAbs(Y)})>>, A, Q)
       [] o = "md_rowmaxabs" -> F(Z = RowMax(Beside(Dn(Y), R)))
       [] o = "md_scale_row" -> Out(Z = MapV(X, LAMBDA k : Mul(R.v[1][X.v[k][1] + 1], X.v[k][3])) /\ Q[2] = MkM(Y.m, Y.n, LAMBDA i, j : Mul(R.v[1][i], Y.v[i][j])), A, Q, {1, 2})
       [] o = "md_scale_row_inv" -> Out(Z = MapV(X, LAMBDA k : Div(X.v[k][3], R.v[1][X.v[k][1] + 1])) /\ Q[2] = MkM(Y.m, Y.n, LAMBDA i, j : Div(Y.v[i][j], R.v[1][i])), A, Q, {1, 2})
       [] o = "md_isfinite" -> Rt(r = <<B(Fin(X) /\ FinD(Y))>>, A, Q)
       [] o = "md_copyRows" -> Out(Dn(Z) = MkM(X.m, X.n, LAMBDA i, j : Dn(R).v[ix[i] + 1][j]) /\ Q[2] = MkM(Y.m, Y.n, LAMBDA i, j : S.v[ix[i] + 1][j]), A, Q, {1, 2})
       [] o = "md_set" -> Out(Z = MapV(X, LAMBDA k : c[1]) /\ Q[2] = MkM(Y.m, Y.n, LAMBDA i, j : c[1]), A, Q, {1, 2})
       [] o = "md_new_copy" -> Out(Q[3] = X /\ Q[4] = Y, A, Q, {3, 4})
       [] o = "md_dims" -> Rt(r = <<X.m, X.n + Y.n, X.n, Y.n, Len(X.v)>>, A, Q)
       [] o = "md_setJacFR" -> LET J == JacFR(Dn(A[5]), Dn(A[7]))  De == MkM(Y.m, Y.n, LAMBDA i, j : IF i <= A[5].m THEN A[6].v[i][j] ELSE A[8].v[i - A[5].m][j]) IN
                               Out(Dn(Z) = J /\ Dn(Q[3]) = J /\ Q[2] = De /\ Q[4] = De /\ Pat(Z) = Pat(Q[3]), A, Q, {1, 2, 3, 4})
       [] o = "sb_timesVec" -> F(Z = MV(X, c[1], c[2], Blocks(Sy(Y), R), S))
       [] o = "sb_addUT" -> F(Z = AddAt(X, UT(c[1], Blocks(Dn(Y), R)), ix[1], ix[1]))
       [] o = "sb_setHessFR" -> LET H == HessFR(X.n, Dn(A[5]), A[7].v[1])  De == HessFR(Y.n, A[6], A[8].v[1]) IN
                                Out(Dn(Z) = H /\ Dn(Q[3]) = H /\ Upper(Z) /\ Q[2] = De /\ Q[4] = De /\ Pat(Z) = Pat(Q[3]), A, Q, {1, 2, 3, 4})
       \* compressed rows: entries unique and ordered
       [] o = "cs_form" -> F(Z = Y)
       [] o = "cs_formT" -> F(Z.m = Y.n /\ Z.n = Y.m /\ Dn(Z) = Tr(Dn(Y)) /\ Len(Z.v) = Len(Y.v) /\ Strict(Z))
       [] o = "cs_diag" -> F(Z = [m |-> Y.n, n |-> Y.n, v |-> [k \in 1 .. Y.n |-> <<k - 1, k - 1, Y.v[1][k]>>]])
       [] o = "cs_timesMat0" -> F(Dn(Z) = MkM(X.m, X.n, LAMBDA i, j : Mul(c[2], Prod(Dn(Y), Dn(R)).v[i][j])) /\ Strict(Z))
       [] o = "cs_timesMat" -> F(Dn(Z) = MkM(X.m, X.n, LAMBDA i, j : Mul(c[1], Dn(X).v[i][j]) + Mul(c[2], Prod(Dn(Y), Dn(R)).v[i][j])) /\ Pat(Z) = Pat(X))
       [] o = "cs_add" -> F(Dn(Z) = MkM(X.m, X.n, LAMBDA i, j : Mul(c[1], Dn(Y).v[i][j]) + Mul(c[2], Dn(R).v[i][j])) /\ Strict(Z))
       [] o = "cs_scaleRows" -> F(Z = MapV(X, LAMBDA k : Mul(Y.v[1][X.v[k][1] + 1], X.v[k][3])))
       [] o = "cs_scaleCols" -> F(Z = MapV(X, LAMBDA k : Mul(Y.v[1][X.v[k][2] + 1], X.v[k][3])))
       [] o = "cs_addDiag" -> F(Z = MapV(X, LAMBDA k : X.v[k][3] + (IF X.v[k][1] = X.v[k][2] THEN Mul(c[1], Y.v[1][X.v[k][1] + 1]) ELSE 0)))
       [] o = "cs_addDiagC" -> F(Z = MapV(X, LAMBDA k : X.v[k][3] + (IF X.v[k][1] = X.v[k][2] THEN c[1] ELSE 0)))
       [] o = "cs_setDiag" -> F(Z = MapV(X, LAMBDA k : IF X.v[k][1] = X.v[k][2] THEN c[1] ELSE X.v[k][3]))
       [] o = "cs_ordered" -> Rt(r = <<B(Strict(X))>>, A, Q)
       [] o = "cs_copyFrom" -> F(Z = Y)
       [] OTHER -> [result |-> FALSE, frame |-> FALSE, ret |-> FALSE]
===============================================================================
