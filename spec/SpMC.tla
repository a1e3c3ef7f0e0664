-------------------------------- MODULE SpMC --------------------------------
(* Laws the meaning of sparse operations must obey: every list of up to MaxNz entries (any order, repeated positions) of every
   shape up to 2 x 2.                                                                                                        *)
EXTENDS SpMat
CONSTANT MaxNz
Vals == {-96, 64}
VARIABLES T, done
Lists(m, n) == UNION {[1 .. k -> {<<i, j, x>> : i \in 0 .. m - 1, j \in 0 .. n - 1, x \in Vals}] : k \in 0 .. MaxNz}
Init == \E m \in 0 .. 2, n \in 0 .. 2 : \E v \in Lists(m, n) : T = [m |-> m, n |-> n, v |-> v] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED T
Spec == Init /\ [][Next]_<<T, done>>
Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
Flip(X) == [m |-> X.n, n |-> X.m, v |-> [k \in 1 .. Len(X.v) |-> <<X.v[k][2], X.v[k][1], X.v[k][3]>>]]
Ones(n) == Vc(n, LAMBDA i : 64 * i)
Ok(o, A, Q, c, ix, r) == LET f == SpFollows(o, A, Q, c, ix, r) IN f.result /\ f.frame /\ f.ret
\* the storage order and the transposed list mean the same matrix
Order == Dn([T EXCEPT !.v = Rev(T.v)]) = Dn(T) /\ Dn(Flip(T)) = Tr(Dn(T))
\* products with a vector are the dense ones, and nothing else is accepted
Prods == \A b \in {0, 64}, a \in {-64, 0, 128} :
   LET y == Ones(T.m)  z == MV(y, b, a, Dn(T), Ones(T.n)) IN
   /\ z = Res("timesVec", <<y, Dn(T), Ones(T.n)>>, <<b, a>>, <<>>, <<>>, 1).out[1]
   /\ Ok("sp_timesVec", <<y, T, Ones(T.n)>>, <<z, T, Ones(T.n)>>, <<b, a>>, <<>>, <<>>)
   /\ T.m > 0 => ~Ok("sp_timesVec", <<y, T, Ones(T.n)>>, <<[z EXCEPT !.v = <<[z.v[1] EXCEPT ![1] = @ + 1]>>], T, Ones(T.n)>>, <<b, a>>, <<>>, <<>>)
Symm == T.m = T.n /\ Upper(T) => Sy(T) = Tr(Sy(T)) /\ \A i \in 1 .. T.m, j \in 1 .. T.n : i <= j => Sy(T).v[i][j] = Dn(T).v[i][j]
\* a product with a transpose is symmetric
Gram == LET W == Weighted(Dn(T), [k \in 1 .. T.n |-> 64 * k], Dn(T)) IN W = Tr(W)
\* sorting: some order is accepted, and only lists with the same entries
Sorting == /\ \E p \in [1 .. Len(T.v) -> 1 .. Len(T.v)] : Ok("sp_sort", <<T>>, <<[T EXCEPT !.v = [k \in 1 .. Len(T.v) |-> T.v[p[k]]]]>>, <<>>, <<>>, <<>>)
           /\ Len(T.v) > 0 => ~Ok("sp_sort", <<T>>, <<[T EXCEPT !.v = Tail(T.v)]>>, <<>>, <<>>, <<>>)
\* entries placed at a position of the storage leave the others alone
Place == \A s \in 0 .. Len(T.v) - 1 : LET n1 == <<<<0, 0, 5>>>> P == [T EXCEPT !.v[s + 1] = n1[1]] IN
   Placed(T, P, s, n1) /\ (Len(T.v) > 1 => ~Placed(T, [P EXCEPT !.v[IF s = 0 THEN 2 ELSE s] = <<0, 0, 9>>], s, n1))
\* the transposition of compressed rows is unique
CsrT == Strict(T) => Cardinality({v \in [1 .. Len(T.v) -> {Flip(T).v[k] : k \in 1 .. Len(T.v)}] : Ok("cs_formT", <<T, T>>, <<[m |-> T.n, n |-> T.m, v |-> v], T>>, <<>>, <<>>, <<>>)}) = 1
Laws == Order /\ Prods /\ Symm /\ Gram /\ Sorting /\ Place /\ CsrT
=============================================================================
