--------------------------------- MODULE LBFGS ---------------------------------
(* The memory of the limited-memory quasi-Newton matrix (P10): which pairs are stored, in which order, and which update set the
   scaling.  A pair is accepted when the step does not vanish and the curvature s'y exceeds sqrt(eps) |s| |y|. *)
EXTENDS Integers, Sequences, FiniteSets
\* mem: identifiers of the stored updates, oldest first; sig: the update that set the scaling (0: the initial value)
Store(mem, id, max) == LET a == Append(mem, id) IN IF Len(a) > max THEN Tail(a) ELSE a
Accept(mem, sig, id, max, fixed) == [mem |-> IF max = 0 THEN <<>> ELSE Store(mem, id, max), sig |-> IF fixed THEN 0 ELSE id]
RECURSIVE DotTo(_, _, _)
DotTo(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + DotTo(a, b, k - 1)
Dot(a, b) == DotTo(a, b, Len(a))
Min(a, b) == IF a < b THEN a ELSE b
\* (s'y)^2 2^52 > |s|^2 |y|^2, arranged to stay within 32 bits (exact away from equality)
Curved(s, y) == LET c == Dot(s, y) A == Dot(s, s) B == Dot(y, y) IN
  c > 0 /\ (c >= 16 \/ A < 32768 \/ B < 32768 \/ (A \div 32768) * (B \div 32768) < c * c * 4194304)
\* y = grad f(x+) - grad f(x) + (J(x+) - J(x))' lambda+, with J by rows
RECURSIVE JtY(_, _, _, _, _)
JtY(J, y, n, i, k) == IF k = 0 THEN 0 ELSE J[(k - 1) * n + i] * y[k] + JtY(J, y, n, i, k - 1)
Step(a, b, n) == [i \in 1 .. n |-> b.x[i] - a.x[i]]
Diff(a, b, n, me, mi) == [i \in 1 .. n |-> b.g[i] - a.g[i] + JtY(b.jc, b.yc, n, i, me) - JtY(a.jc, b.yc, n, i, me)
                                                       + JtY(b.jd, b.yd, n, i, mi) - JtY(a.jd, b.yd, n, i, mi)]
=============================================================================
