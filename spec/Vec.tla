-------------------------------- MODULE Vec ----------------------------------
(* The vector operations of HiOp on sequences of exact numbers (multiples of 1/64).
   R: register name -> sequence; a: operand registers (the first is the one the method is called on, or the written
   one); c: scalar arguments; ix: index arguments (zero based).  own[i] is the process that owns entry i, np the number
   of processes.  Elementwise operations do not depend on `own`: the distributed result is the sequential one.         *)
EXTENDS Scaled

\* min/max position rules of the interior projection
ProjLo(l, u, k1, k2, two) == LET p == Mul(k1, Hi(SC, Abs(l))) IN IF two THEN l + Lo(p, Mul(k2, u - l)) ELSE l + p
ProjUp(l, u, k1, k2, two) == LET p == Mul(k1, Hi(SC, Abs(u))) IN IF two THEN u - Lo(p, Mul(k2, u - l)) ELSE u - p
Project(x, l, il, u, iu, k1, k2) ==
  IF il # 0 /\ iu # 0 THEN IF x < ProjLo(l, u, k1, k2, TRUE) THEN ProjLo(l, u, k1, k2, TRUE)
                           ELSE IF x > ProjUp(l, u, k1, k2, TRUE) THEN ProjUp(l, u, k1, k2, TRUE) ELSE x
  ELSE IF il # 0 THEN Hi(x, ProjLo(l, u, k1, k2, FALSE))
  ELSE IF iu # 0 THEN Lo(x, ProjUp(l, u, k1, k2, FALSE)) ELSE x
\* largest step in (0,1] keeping x + alpha d >= (1-tau) x
Frac(x, d, tau) == IF d >= 0 THEN SC ELSE Lo(SC, Div(Mul(tau, x), -d))
\* multipliers kept within a factor kappa of mu/x
Adjust(z, x, mu, ka) == LET m == Div(mu, x) IN Hi(Div(m, ka), Lo(z, Mul(ka, m)))
Sqrt(v) == CHOOSE r \in 0 .. 2048 : r * r = v * SC
One == SC
RECURSIVE Compress(_, _)
Compress(x, p) == IF x = <<>> THEN <<>> ELSE (IF p[1] = 1 THEN <<x[1]>> ELSE <<>>) \o Compress(Tail(x), Tail(p))
\* positions (one based) of `from ..` where pattern p is one
RECURSIVE OnesFrom(_, _)
OnesFrom(p, i) == IF i > Len(p) THEN <<>> ELSE (IF p[i] = 1 THEN <<i>> ELSE <<>>) \o OnesFrom(p, i + 1)
Pos(x, q) == CHOOSE i \in 1 .. Len(x) : x[i] = q
PosIn(s, v) == {i \in 1 .. Len(s) : s[i] = v}

W(r, s) == [ch |-> (r :> s), ret |-> <<>>]
NoCh == [n \in {} |-> <<>>]
G(np, v) == [ch |-> NoCh, ret |-> [q \in 1 .. np |-> v]]           \* the same value on every process
LR(np, F(_)) == [ch |-> NoCh, ret |-> [q \in 1 .. np |-> F(q - 1)]]  \* a value per process

Op(o, R, a, c, ix, own, np) ==
  LET x == IF Len(a) >= 1 THEN R[a[1]] ELSE <<>>
      y == IF Len(a) >= 2 THEN R[a[2]] ELSE <<>>
      z == IF Len(a) >= 3 THEN R[a[3]] ELSE <<>>
      w == IF Len(a) >= 4 THEN R[a[4]] ELSE <<>>
      v5 == IF Len(a) >= 5 THEN R[a[5]] ELSE <<>>
      n == Len(x)
      E(F(_)) == W(a[1], [i \in 1 .. n |-> F(i)])
      Mine(q, F(_), d) == SumOver(n, LAMBDA i : IF own[i] = q THEN F(i) ELSE d)
      on(p, i) == p[i] = One
  IN CASE o = "setToZero" -> E(LAMBDA i : 0)
       [] o = "setToConstant" -> E(LAMBDA i : c[1])
       [] o = "random" -> [ch |-> (a[1] :> [i \in 1 .. n |-> 0]), ret |-> [q \in 1 .. np |-> 1]]
       [] o = "setToConstant_w" -> E(LAMBDA i : IF on(y, i) THEN c[1] ELSE 0)
       [] o = "copyFrom" -> W(a[1], y)
       [] o = "copy_from_w_pattern" -> E(LAMBDA i : IF on(z, i) THEN y[i] ELSE x[i])
       [] o = "twonorm" -> G(np, SumOver(n, LAMBDA i : Mul(x[i], x[i])))
       [] o = "infnorm" -> G(np, MaxOver(n, 0, LAMBDA i : Abs(x[i])))
       [] o = "infnorm_local" -> LR(np, LAMBDA q : MaxOver(n, 0, LAMBDA i : IF own[i] = q THEN Abs(x[i]) ELSE 0))
       [] o = "onenorm" -> G(np, SumOver(n, LAMBDA i : Abs(x[i])))
       [] o = "onenorm_local" -> LR(np, LAMBDA q : Mine(q, LAMBDA i : Abs(x[i]), 0))
       [] o = "componentMult" -> E(LAMBDA i : Mul(x[i], y[i]))
       [] o = "componentDiv" -> E(LAMBDA i : Div(x[i], y[i]))
       [] o = "componentDiv_w" -> E(LAMBDA i : IF z[i] # 0 THEN Div(x[i], y[i]) ELSE 0)
       [] o = "component_min_c" -> E(LAMBDA i : Lo(x[i], c[1]))
       [] o = "component_min" -> E(LAMBDA i : Lo(x[i], y[i]))
       [] o = "component_max_c" -> E(LAMBDA i : Hi(x[i], c[1]))
       [] o = "component_max" -> E(LAMBDA i : Hi(x[i], y[i]))
       [] o = "component_abs" -> E(LAMBDA i : Abs(x[i]))
       [] o = "component_sgn" -> E(LAMBDA i : IF x[i] > 0 THEN SC ELSE IF x[i] < 0 THEN -SC ELSE 0)
       [] o = "component_sqrt" -> E(LAMBDA i : Sqrt(x[i]))
       [] o = "scale" -> E(LAMBDA i : Mul(c[1], x[i]))
       [] o = "axpy" -> E(LAMBDA i : x[i] + Mul(c[1], y[i]))
       [] o = "axpy_w_pattern" -> E(LAMBDA i : IF on(z, i) THEN x[i] + Mul(c[1], y[i]) ELSE x[i])
       [] o = "axzpy" -> E(LAMBDA i : x[i] + Mul(c[1], Mul(y[i], z[i])))
       [] o = "axdzpy" -> E(LAMBDA i : x[i] + Mul(c[1], Div(y[i], z[i])))
       [] o = "axdzpy_w_pattern" -> E(LAMBDA i : IF on(w, i) THEN x[i] + Mul(c[1], Div(y[i], z[i])) ELSE x[i])
       [] o = "addConstant" -> E(LAMBDA i : x[i] + c[1])
       [] o = "addConstant_w" -> E(LAMBDA i : IF on(y, i) THEN x[i] + c[1] ELSE x[i])
       [] o = "dot" -> G(np, SumOver(n, LAMBDA i : Mul(x[i], y[i])))
       [] o = "negate" -> E(LAMBDA i : -x[i])
       [] o = "invert" -> E(LAMBDA i : Div(SC, x[i]))
       [] o = "logBarrier_local" -> LR(np, LAMBDA q : Mine(q, LAMBDA i : IF on(y, i) THEN (CHOOSE k \in -6 .. 6 : (IF k >= 0 THEN 2 ^ k * SC = x[i] ELSE 2 ^ (-k) * x[i] = SC)) ELSE 0, 0))
       [] o = "addLogBarrierGrad" -> E(LAMBDA i : IF on(z, i) THEN x[i] + Div(c[1], y[i]) ELSE x[i])
       [] o = "sum_local" -> LR(np, LAMBDA q : Mine(q, LAMBDA i : x[i], 0))
       [] o = "linearDampingTerm_local" -> LR(np, LAMBDA q : Mul(c[2], Mul(c[1], Mine(q, LAMBDA i : IF on(y, i) /\ z[i] = 0 THEN x[i] ELSE 0, 0))))
       [] o = "addLinearDampingTerm" -> E(LAMBDA i : Mul(c[1], x[i]) + (IF on(y, i) /\ ~on(z, i) THEN c[2] ELSE IF on(z, i) /\ ~on(y, i) THEN -c[2] ELSE 0))
       [] o = "allPositive" -> G(np, B(\A i \in 1 .. n : x[i] > 0))
       [] o = "allPositive_w" -> G(np, B(\A i \in 1 .. n : y[i] # 0 => x[i] > 0))
       [] o = "min" -> G(np, MinOver(n, DMax, LAMBDA i : x[i]))
       [] o = "min_w_pattern" -> G(np, MinOver(n, DMax, LAMBDA i : IF on(y, i) THEN x[i] ELSE DMax))
       [] o = "projectIntoBounds_local" -> [ch |-> (a[1] :> [i \in 1 .. n |-> Project(x[i], y[i], z[i], w[i], v5[i], c[1], c[2])]), ret |-> [q \in 1 .. np |-> 1]]
       [] o = "projectBad" -> [ch |-> (a[1] :> [i \in 1 .. n |-> 0]), ret |-> [q \in 1 .. np |-> B(\A i \in 1 .. n : (own[i] = q - 1 /\ z[i] # 0 /\ v5[i] # 0) => y[i] <= w[i])]]
       [] o = "fractionToTheBdry_local" -> LR(np, LAMBDA q : MinOver(n, SC, LAMBDA i : IF own[i] = q THEN Frac(x[i], y[i], c[1]) ELSE SC))
       [] o = "fractionToTheBdry_w_pattern_local" -> LR(np, LAMBDA q : MinOver(n, SC, LAMBDA i : IF own[i] = q /\ z[i] # 0 THEN Frac(x[i], y[i], c[1]) ELSE SC))
       [] o = "selectPattern" -> E(LAMBDA i : IF y[i] = 0 THEN 0 ELSE x[i])
       [] o = "matchesPattern" -> G(np, B(\A i \in 1 .. n : y[i] = 0 => x[i] = 0))
       [] o = "adjustDuals_plh" -> E(LAMBDA i : IF on(z, i) THEN Adjust(x[i], y[i], c[1], c[2]) ELSE x[i])
       [] o = "is_zero" -> G(np, B(\A i \in 1 .. n : x[i] = 0))
       [] o = "isnan_local" -> LR(np, LAMBDA q : B(\E i \in 1 .. n : own[i] = q /\ x[i] = NaN))
       [] o = "isinf_local" -> LR(np, LAMBDA q : B(\E i \in 1 .. n : own[i] = q /\ x[i] \in {PInf, NInf}))
       [] o = "isfinite_local" -> LR(np, LAMBDA q : B(\A i \in 1 .. n : own[i] = q => x[i] \notin {NaN, PInf, NInf}))
       [] o = "numOfElemsLessThan" -> G(np, Cardinality({i \in 1 .. n : x[i] < c[1]}))
       [] o = "numOfElemsAbsLessThan" -> G(np, Cardinality({i \in 1 .. n : Abs(x[i]) < c[1]}))
       [] o = "is_equal" -> G(np, B(x = y))
       [] o = "get_size" -> G(np, n)
       [] o = "get_local_size" -> LR(np, LAMBDA q : Cardinality({i \in 1 .. n : own[i] = q}))
       [] o = "axpy_ix" -> W(a[1], [i \in 1 .. n |-> x[i] + SumOver(Len(ix), LAMBDA k : IF ix[k] = i - 1 THEN Mul(c[1], y[k]) ELSE 0)])
       [] o = "copy_from_indexes" -> E(LAMBDA i : y[ix[i] + 1])
       [] o = "copyFromStarting" -> E(LAMBDA i : IF i > ix[1] /\ i <= ix[1] + ix[2] THEN y[i - ix[1]] ELSE x[i])
       [] o = "copy_from_starting_at" -> E(LAMBDA i : IF i <= ix[2] THEN y[ix[1] + i] ELSE x[i])
       [] o = "startingAtCopyFromStartingAt" -> E(LAMBDA i : IF i > ix[1] THEN y[ix[2] + i - ix[1]] ELSE x[i])
       [] o = "copyToStarting_from" -> E(LAMBDA i : y[ix[1] + i])
       [] o = "copyToStarting_into" -> E(LAMBDA i : IF i > ix[1] /\ i <= ix[1] + Len(y) THEN y[i - ix[1]] ELSE x[i])
       [] o = "copyToStartingAt_w_pattern" -> LET s == Compress(y, Tail(ix)) IN E(LAMBDA i : IF i > ix[1] /\ i <= ix[1] + Len(s) THEN s[i - ix[1]] ELSE x[i])
       [] o = "copy_from_two_vec" -> E(LAMBDA i : LET k == CHOOSE k \in 1 .. Len(ix) : ix[k] = i - 1 IN IF k <= Len(y) THEN y[k] ELSE z[k - Len(y)])
       [] o = "copy_to_two_vec" -> [ch |-> (a[2] :> [k \in 1 .. Len(y) |-> x[ix[k] + 1]]) @@ (a[3] :> [k \in 1 .. Len(z) |-> x[ix[Len(y) + k] + 1]]), ret |-> <<>>]
       [] o = "startingAtCopyToStartingAt" -> LET m == IF ix[3] < 0 THEN Lo(Len(y) - ix[1], n - ix[2]) ELSE ix[3] IN E(LAMBDA i : IF i > ix[2] /\ i <= ix[2] + m THEN y[ix[1] + i - ix[2]] ELSE x[i])
       [] o = "startingAtCopyToStartingAt_w" -> LET m == IF ix[3] < 0 THEN Lo(Len(y) - ix[1], n - ix[2]) ELSE ix[3]
                                                   t == OnesFrom(SubSeq(ix, 4, Len(ix)), ix[2] + 1)
                                               IN E(LAMBDA i : IF \E k \in 1 .. Len(t) : k <= m /\ t[k] = i THEN y[ix[1] + (CHOOSE k \in 1 .. Len(t) : t[k] = i)] ELSE x[i])
       [] o = "linspace" -> [ch |-> NoCh, ret |-> <<>>]
       [] o = "set_array_from_to" -> [ch |-> NoCh, ret |-> <<>>]
       [] OTHER -> [ch |-> NoCh, ret |-> <<-1>>]

\* integer array operations carry their results in ix
IxOk(o, ix) ==
  CASE o = "linspace" -> \A i \in 3 .. Len(ix) : ix[i] = ix[1] + (i - 3) * ix[2]
    [] o = "set_array_from_to" -> LET n == ix[1] IN \A i \in 1 .. n : ix[5 + 2 * n + i] = (IF i > ix[2] /\ i <= ix[3] THEN (IF ix[4] < 0 THEN ix[5] ELSE ix[5 + n + ix[4] + i - ix[2]]) ELSE ix[5 + i])
    [] OTHER -> TRUE
=============================================================================
