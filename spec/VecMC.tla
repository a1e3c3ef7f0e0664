-------------------------------- MODULE VecMC --------------------------------
(* The operations of Vec have the properties the solver relies on, for all small vectors and all ways of
   distributing them.                                                                                       *)
EXTENDS Vec
CONSTANT N
Vals == {-128, -16, 0, 96}
Taus == {32, 48}
VARIABLES x, y, p, q, own
vars == <<x, y, p, q, own>>
Vs(V) == UNION {[1 .. n -> V] : n \in 0 .. N}
Init == /\ x \in Vs(Vals) /\ y \in [1 .. Len(x) -> Vals] /\ p \in [1 .. Len(x) -> {0, SC}] /\ q \in [1 .. Len(x) -> {0, SC}]
        /\ own \in [1 .. Len(x) -> 0 .. 1]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
n == Len(x)
R == ("x" :> x) @@ ("y" :> y) @@ ("p" :> p) @@ ("q" :> q) @@ ("z" :> [i \in 1 .. n |-> 0])
Res(o, a, c) == Op(o, R, a, c, <<>>, own, 2)
Run(S, o, a, c) == LET r == Op(o, S, a, c, <<>>, own, 2) IN r.ch @@ S
Val(o, a, c) == Res(o, a, c).ret
\* reductions over processes agree with the sequential value
Distribution ==
  /\ LET s == Val("sum_local", <<"x">>, <<>>) IN s[1] + s[2] = SumOver(n, LAMBDA i : x[i])
  /\ LET s == Val("onenorm_local", <<"x">>, <<>>) IN s[1] + s[2] = Val("onenorm", <<"x">>, <<>>)[1]
  /\ LET s == Val("infnorm_local", <<"x">>, <<>>) IN Hi(s[1], s[2]) = Val("infnorm", <<"x">>, <<>>)[1]
  /\ \A o \in {"infnorm", "onenorm", "min", "allPositive", "is_zero"} : Val(o, <<"x">>, <<>>)[1] = Val(o, <<"x">>, <<>>)[2]
Norms == /\ Val("infnorm", <<"x">>, <<>>)[1] <= Val("onenorm", <<"x">>, <<>>)[1]
         /\ (Val("onenorm", <<"x">>, <<>>)[1] = 0) = (Val("is_zero", <<"x">>, <<>>)[1] = 1)
         /\ Val("dot", <<"x", "x">>, <<>>) = Val("twonorm", <<"x">>, <<>>)
Patterns == /\ Op("matchesPattern", Run(R, "selectPattern", <<"x", "p">>, <<>>), <<"x", "p">>, <<>>, <<>>, own, 2).ret[1] = 1
            /\ LET S2 == Run(Run(R, "axpy_w_pattern", <<"x", "y", "p">>, <<2 * SC>>), "axpy_w_pattern", <<"x", "y", "p">>, <<-2 * SC>>) IN S2["x"] = x
            /\ Run(R, "negate", <<"x">>, <<>>)["x"] = Run(R, "scale", <<"x">>, <<-SC>>)["x"]
            /\ Run(R, "axzpy", <<"x", "y", "p">>, <<SC>>)["x"] = Run(R, "axpy_w_pattern", <<"x", "y", "p">>, <<SC>>)["x"]
            /\ Run(Run(R, "component_min", <<"x", "y">>, <<>>), "component_max", <<"x", "y">>, <<>>)["x"] = y
\* the boundary rule: x + a d >= (1-tau) x for the returned step, and no larger step in (0,1] has this property
Boundary == \A tau \in Taus :
   LET X == [i \in 1 .. n |-> IF x[i] <= 0 THEN SC ELSE x[i]]
       D == [i \in 1 .. n |-> IF y[i] < 0 THEN -SC ELSE y[i]]
       al == LET v == Op("fractionToTheBdry_local", R @@ ("X" :> X) @@ ("D" :> D), <<"X", "D">>, <<tau>>, <<>>, own, 2).ret IN Lo(v[1], v[2])
   IN /\ al > 0 /\ al <= SC
      /\ \A i \in 1 .. n : X[i] + Mul(al, D[i]) >= X[i] - Mul(tau, X[i])
      /\ al < SC => \E i \in 1 .. n : X[i] + Mul(al, D[i]) = X[i] - Mul(tau, X[i])
\* the projection lands strictly inside, moves nothing that is well inside, and is idempotent
Inside(v, l, u, il, iu) == (il # 0 => v > l) /\ (iu # 0 => v < u)
Projection == \A k1 \in {SC \div 4, SC \div 16} : \A k2 \in {SC \div 4, SC \div 8} :
   LET lo == [i \in 1 .. n |-> y[i]]
       up == [i \in 1 .. n |-> y[i] + 2 * SC]
       S1 == R @@ ("lo" :> lo) @@ ("up" :> up)
       S2 == Run(S1, "projectIntoBounds_local", <<"x", "lo", "p", "up", "q">>, <<k1, k2>>)
       S3 == Run(S2, "projectIntoBounds_local", <<"x", "lo", "p", "up", "q">>, <<k1, k2>>)
   IN /\ \A i \in 1 .. n : Inside(S2["x"][i], lo[i], up[i], p[i], q[i])
      /\ S3["x"] = S2["x"]
      /\ \A i \in 1 .. n : (p[i] = 0 /\ q[i] = 0) => S2["x"][i] = x[i]
Duals == \A ka \in {2 * SC, 4 * SC} :
   LET X == [i \in 1 .. n |-> IF y[i] > 0 THEN 2 * SC ELSE SC]
       Z == [i \in 1 .. n |-> Abs(x[i]) + SC \div 4]
       S2 == Run(R @@ ("X" :> X) @@ ("Z" :> Z), "adjustDuals_plh", <<"Z", "X", "p">>, <<SC, ka>>)
   IN \A i \in 1 .. n : p[i] = SC => /\ Mul(S2["Z"][i], X[i]) <= ka /\ Mul(Mul(S2["Z"][i], X[i]), ka) >= SC
                                      /\ (Mul(Z[i], X[i]) <= ka /\ Mul(Mul(Z[i], X[i]), ka) >= SC) => S2["Z"][i] = Z[i]
\* splitting into two vectors by a map and merging again is the identity
SplitMerge == n = 2 => \A perm \in {<<0, 1>>, <<1, 0>>} :
   LET S1 == R @@ ("a" :> <<0>>) @@ ("b" :> <<0>>)
       S2 == Op("copy_to_two_vec", S1, <<"x", "a", "b">>, <<>>, perm, own, 1).ch @@ S1
       S3 == Op("copy_from_two_vec", S2, <<"z", "a", "b">>, <<>>, perm, own, 1).ch @@ S2
   IN S3["z"] = x
=============================================================================
