-------------------------------- MODULE Mat ----------------------------------
(* Meaning of the matrix operations of HiOp on matrices of exact numbers (multiples of 1/64).  A: operands
   [m, n, v] (v: rows; a vector is one row); the first operand is the one written.  c: scalars, ix: zero-based indices.
   Res(o, A, c, ix, own, np) = [out |-> operand number -> new value, free |-> rows of operand 1 left unspecified,
   ret |-> value returned to process 0..np-1].                                                                        *)
EXTENDS Scaled
IsMat(X) == Len(X.v) = X.m /\ \A i \in 1 .. X.m : Len(X.v[i]) = X.n
MkM(m, n, F(_, _)) == [m |-> m, n |-> n, v |-> [i \in 1 .. m |-> [j \in 1 .. n |-> F(i, j)]]]
Vc(n, F(_)) == [m |-> 1, n |-> n, v |-> <<[j \in 1 .. n |-> F(j)]>>]
Dotp(n, F(_), H(_)) == SumOver(n, LAMBDA k : Mul(F(k), H(k)))
Tr(X) == MkM(X.n, X.m, LAMBDA i, j : X.v[j][i])
Prod(X, Y) == MkM(X.m, Y.n, LAMBDA i, j : Dotp(X.n, LAMBDA k : X.v[i][k], LAMBDA k : Y.v[k][j]))
\* beta*W + alpha*X, where a zero beta discards W whatever it holds
Acc(b, W, a, X) == MkM(W.m, W.n, LAMBDA i, j : (IF b = 0 THEN 0 ELSE Mul(b, W.v[i][j])) + Mul(a, X.v[i][j]))
Bad == {NaN, PInf, NInf}
Eye(c, n) == MkM(n, n, LAMBDA i, j : IF i = j THEN c ELSE 0)
In(i, s, l) == i > s /\ i <= s + l
MaxAbs(X) == LET V == {Abs(X.v[i][j]) : i \in 1 .. X.m, j \in 1 .. X.n} IN IF V = {} THEN 0 ELSE Max(V)

O1(x) == [out |-> (1 :> x), free |-> {}, ret |-> <<>>]
Om(n, F(_)) == [out |-> [k \in {} |-> 0], free |-> {}, ret |-> [q \in 1 .. n |-> F(q - 1)]]
Res(o, A, c, ix, own, np) ==
  LET X == A[1]
      Y == IF Len(A) >= 2 THEN A[2] ELSE X
      Z == IF Len(A) >= 3 THEN A[3] ELSE X
      E(F(_, _)) == O1(MkM(X.m, X.n, F))
  IN CASE o = "set" -> E(LAMBDA i, j : c[1])
       [] o = "copy" -> O1(Y)
       [] o = "appendRow" -> O1([m |-> X.m + 1, n |-> X.n, v |-> Append(X.v, Y.v[1])])
       [] o = "dims" -> Om(np, LAMBDA q : <<X.m, X.n, IF np = 1 THEN X.n ELSE Cardinality({j \in 1 .. Len(own) : own[j] = q}), X.m>>)
       [] o = "copyRows" -> E(LAMBDA i, j : IF In(i, ix[2], ix[1]) THEN Y.v[i - ix[2]][j] ELSE X.v[i][j])
       [] o = "copyRowsIdx" -> E(LAMBDA i, j : Y.v[ix[i] + 1][j])
       [] o = "shiftRows" -> LET s == ix[1] IN
            IF s = 0 \/ Abs(s) >= X.m THEN [out |-> (1 :> X), free |-> IF s = 0 THEN {} ELSE 1 .. X.m, ret |-> <<>>]
            ELSE [out |-> (1 :> MkM(X.m, X.n, LAMBDA i, j : IF i - s \in 1 .. X.m THEN X.v[i - s][j] ELSE 0)), free |-> {i \in 1 .. X.m : i - s \notin 1 .. X.m}, ret |-> <<>>]
       [] o = "replaceRow" -> E(LAMBDA i, j : IF i = ix[1] + 1 THEN Y.v[1][j] ELSE X.v[i][j])
       [] o = "getRow" -> [out |-> (2 :> Vc(X.n, LAMBDA j : X.v[ix[1] + 1][j])), free |-> {}, ret |-> <<>>]
       [] o = "timesVec" -> O1(Acc(c[1], X, c[2], Vc(Y.m, LAMBDA i : Dotp(Y.n, LAMBDA k : Y.v[i][k], LAMBDA k : Z.v[1][k]))))
       [] o = "transTimesVec" -> O1(Acc(c[1], X, c[2], Vc(Y.n, LAMBDA j : Dotp(Y.m, LAMBDA k : Y.v[k][j], LAMBDA k : Z.v[1][k]))))
       [] o = "timesMat" -> O1(Acc(c[1], X, c[2], Prod(Y, Z)))
       [] o = "transTimesMat" -> O1(Acc(c[1], X, c[2], Prod(Tr(Y), Z)))
       [] o = "timesMatTrans" -> O1(Acc(c[1], X, c[2], Prod(Y, Tr(Z))))
       [] o = "addMatrix" -> O1(Acc(SC, X, c[1], Y))
       [] o = "maxabs" -> Om(np, LAMBDA q : <<MaxAbs(X)>>)
       [] o = "rowmaxabs" -> O1(Vc(Y.m, LAMBDA i : MaxOver(Y.n, 0, LAMBDA j : Abs(Y.v[i][j]))))
       [] o = "scale_row" -> E(LAMBDA i, j : Mul(Y.v[1][i], X.v[i][j]))
       [] o = "scale_row_inv" -> E(LAMBDA i, j : Div(X.v[i][j], Y.v[1][i]))
       [] o = "isfinite" -> Om(np, LAMBDA q : <<B(\A i \in 1 .. X.m, j \in 1 .. X.n : X.v[i][j] \notin Bad)>>)
       [] o = "isfinite_local" -> Om(np, LAMBDA q : <<B(\A i \in 1 .. X.m, j \in 1 .. X.n : own[j] = q => X.v[i][j] \notin Bad)>>)
       [] o = "copyBlock" -> E(LAMBDA i, j : IF In(i, ix[1], Y.m) /\ In(j, ix[2], Y.n) THEN Y.v[i - ix[1]][j - ix[2]] ELSE X.v[i][j])
       [] o = "copyFromBlock" -> E(LAMBDA i, j : Y.v[i + ix[1]][j + ix[2]])
       [] o = "setHessFR" -> E(LAMBDA i, j : Y.v[i][j] + (IF i = j THEN Z.v[1][i] ELSE 0))
       [] o = "setJacFR" -> LET n == Y.n mc == Y.m md == Z.m IN
            E(LAMBDA i, j : IF j <= n THEN (IF i <= mc THEN Y.v[i][j] ELSE Z.v[i - mc][j])
                            ELSE IF i <= mc THEN (IF j = n + i THEN -SC ELSE IF j = n + mc + i THEN SC ELSE 0)
                            ELSE (IF j = n + 2 * mc + (i - mc) THEN -SC ELSE IF j = n + 2 * mc + md + (i - mc) THEN SC ELSE 0))
       [] o = "lowToUp" -> E(LAMBDA i, j : IF j > i THEN X.v[j][i] ELSE X.v[i][j])
       [] o = "upToLow" -> E(LAMBDA i, j : IF j < i THEN X.v[j][i] ELSE X.v[i][j])
       [] o = "addDiag" -> E(LAMBDA i, j : X.v[i][j] + (IF i = j THEN Mul(c[1], Y.v[1][i]) ELSE 0))
       [] o = "addDiagC" -> E(LAMBDA i, j : X.v[i][j] + (IF i = j THEN c[1] ELSE 0))
       [] o = "addSubDiag" -> E(LAMBDA i, j : X.v[i][j] + (IF i = j /\ In(i, ix[1], ix[3]) THEN Mul(c[1], Y.v[1][i - ix[1] + ix[2]]) ELSE 0))
       [] o = "addSubDiagC" -> E(LAMBDA i, j : X.v[i][j] + (IF i = j /\ In(i, ix[1], ix[2]) THEN c[1] ELSE 0))
       [] o = "transAddUT" -> E(LAMBDA i, j : X.v[i][j] + (IF In(i, ix[1], Y.n) /\ In(j, ix[2], Y.m) THEN Mul(c[1], Y.v[j - ix[2]][i - ix[1]]) ELSE 0))
       [] o = "addUT" -> E(LAMBDA i, j : X.v[i][j] + (IF i <= j /\ In(i, ix[1], Y.m) /\ In(j, ix[1], Y.m) THEN Mul(c[1], Y.v[i - ix[1]][j - ix[1]]) ELSE 0))
       [] OTHER -> [out |-> (1 :> <<>>), free |-> {}, ret |-> <<>>]
\* does `post` follow from `pre`?
Follows(o, pre, post, c, ix, own, np, ret) ==
  LET x == Res(o, pre, c, ix, own, np)
      ok(k) == IF k \in DOMAIN x.out
               THEN IF x.free = {} THEN post[k] = x.out[k]
                    ELSE post[k].m = x.out[k].m /\ \A i \in (1 .. post[k].m) \ x.free : post[k].v[i] = x.out[k].v[i]
               ELSE TRUE
  IN [result |-> \A k \in 1 .. Len(pre) : ok(k),
      frame |-> \A k \in 1 .. Len(pre) : k \notin DOMAIN x.out => post[k] = pre[k],
      ret |-> x.ret = <<>> \/ ret = x.ret]
=============================================================================
