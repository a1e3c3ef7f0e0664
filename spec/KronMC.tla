-------------------------------- MODULE KronMC --------------------------------
(* Reduction as elimination of one node at a time, for all small networks with unit pivots: the map and the Schur complement defined
   by Kron.tla agree with node-by-node elimination in either order, the reduced network injects the same currents as the full one,
   and the reduced matrix stays symmetric. *)
EXTENDS Kron
CONSTANT K
VARIABLES d, o1, o2, o3, p1, p2, f
Ints == {<<a, b>> : a \in {0, K}, b \in {0, 1}}
Units == {<<1, 0>>, <<-1, 0>>, <<0, 1>>}
Inv(u) == <<u[1], -u[2]>>
Init == d \in Ints /\ o1 \in Ints /\ o2 \in Ints /\ o3 \in Ints /\ p1 \in Units /\ p2 \in Units /\ f \in Ints
\* nodes: 1 retained, 2 and 3 eliminated; Ybb = [p1 f p1; . p2 + f f p1] so that it has unit pivots and determinant p1 p2
B12 == ZMul(f, p1)
B22 == ZAdd(p2, ZMul(f, B12))
Flat(s) == [k \in 1 .. 2 * Len(s) |-> s[(k + 1) \div 2][2 - (k % 2)]]
Y == Flat(<<d, o1, o2, o1, p1, B12, o2, B12, B22>>)
Dinv == ZMul(Inv(p1), Inv(p2))
\* Cramer
M1 == ZNeg(ZMul(Dinv, ZAdd(ZMul(B22, o1), ZNeg(ZMul(B12, o2)))))
M2 == ZNeg(ZMul(Dinv, ZAdd(ZMul(p1, o2), ZNeg(ZMul(B12, o1)))))
M == Flat(<<M1, M2>>)
IsMap == MapOf(Y, 3, <<0>>, <<1, 2>>, M)
S == Schur(Y, 3, <<0>>, <<1, 2>>, M, 1, 1)
\* eliminate node 2 first, then node 3
d1 == ZAdd(d, ZNeg(ZMul(Inv(p1), ZMul(o1, o1))))
e1 == ZAdd(o2, ZNeg(ZMul(Inv(p1), ZMul(o1, B12))))
g1 == ZAdd(B22, ZNeg(ZMul(Inv(p1), ZMul(B12, B12))))
Stepwise == g1 = p2 /\ S = ZAdd(d1, ZNeg(ZMul(Inv(p2), ZMul(e1, e1))))
\* a network with two retained nodes 1 and 4 (voltage o3 at node 1): same injected currents
Current == LET v == <<o3, ZMul(M1, o3), ZMul(M2, o3)>> IN
  /\ ZSum([j \in 1 .. 3 |-> ZMul(At(Y, 3, 1, j), v[j])], 3) = ZMul(S, o3)
  /\ \A i \in 2 .. 3 : ZSum([j \in 1 .. 3 |-> ZMul(At(Y, 3, i, j), v[j])], 3) = Zero
\* one eliminated node, two retained: symmetric
Two == LET N == Flat(<<ZNeg(ZMul(Inv(p1), o1)), ZNeg(ZMul(Inv(p1), B12))>>) IN
  /\ MapOf(Y, 3, <<0, 2>>, <<1>>, N)
  /\ Schur(Y, 3, <<0, 2>>, <<1>>, N, 1, 2) = e1 /\ Schur(Y, 3, <<0, 2>>, <<1>>, N, 2, 1) = e1
  /\ Schur(Y, 3, <<0, 2>>, <<1>>, N, 1, 1) = d1 /\ Schur(Y, 3, <<0, 2>>, <<1>>, N, 2, 2) = p2
NoKernel == \A z \in {<<1, 0, 0, 0>>, <<0, 1, 1, 0>>, <<1, 0, -1, 0>>} : ~Kernel(Y, 3, <<1, 2>>, z)
Inv1 == Symmetric(Y, 3) /\ IsMap /\ Stepwise /\ Current /\ Two /\ NoKernel
Spec == Init /\ [][UNCHANGED <<d, o1, o2, o3, p1, p2, f>>]_<<d, o1, o2, o3, p1, p2, f>>
=============================================================================
