------------------------------- MODULE Scaled --------------------------------
(* Exact arithmetic on multiples of 1/64, as used by the linear algebra specifications. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
SC == 64
NaN == 2000000001
PInf == 2000000002
NInf == 2000000003
DMax == 2000000004
Special == {NaN, PInf, NInf, DMax}
Abs(a) == IF a < 0 THEN -a ELSE a
Mul(a, b) == (a * b) \div SC
Div(a, b) == IF b < 0 THEN ((-a) * SC) \div (-b) ELSE (a * SC) \div b
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
SumOver(n, F(_)) == Sum([i \in 1 .. n |-> F(i)])
MaxOver(n, d, F(_)) == LET V == {F(i) : i \in 1 .. n} IN IF V = {} THEN d ELSE Max(V \cup {d})
MinOver(n, d, F(_)) == LET V == {F(i) : i \in 1 .. n} IN IF V = {} THEN d ELSE Min(V \cup {d})
B(c) == IF c THEN 1 ELSE 0
=============================================================================
