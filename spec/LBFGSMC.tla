-------------------------------- MODULE LBFGSMC --------------------------------
(* All histories of accepted and rejected updates: the memory is exactly the last Max accepted updates in order, the scaling comes from
   the last accepted one, and rejected updates change nothing. *)
EXTENDS LBFGS
CONSTANTS Max, Len0
VARIABLES hist, mem, sig
Init == hist = <<>> /\ mem = <<>> /\ sig = 0
Update(ok) == /\ Len(hist) < Len0 /\ hist' = Append(hist, ok)
              /\ LET r == Accept(mem, sig, Len(hist) + 1, Max, FALSE) IN IF ok THEN mem' = r.mem /\ sig' = r.sig ELSE UNCHANGED <<mem, sig>>
Next == Update(TRUE) \/ Update(FALSE)
Spec == Init /\ [][Next]_<<hist, mem, sig>>
Acc == {i \in 1 .. Len(hist) : hist[i]}
Newest == {i \in Acc : Cardinality({j \in Acc : j > i}) < Max}
Exact == {mem[k] : k \in 1 .. Len(mem)} = Newest /\ Len(mem) = Cardinality(Newest)
Ordered == \A j, k \in 1 .. Len(mem) : j < k => mem[j] < mem[k]
Scale == IF Acc = {} THEN sig = 0 ELSE sig \in Acc /\ \A i \in Acc : i <= sig
Newer == Len(mem) > 0 => mem[Len(mem)] = sig
=============================================================================
