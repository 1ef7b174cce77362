------------------------------- MODULE RmqMC -------------------------------
(* For all short arrays and all rows of answers: a row is accepted iff every answer is an argmin. *)
EXTENDS Rmq
CONSTANTS MaxN, MaxV
VARIABLE a
Init == a = <<>>
Next == Len(a) < MaxN /\ \E v \in 0..MaxV : a' = Append(a, v)
Spec == Init /\ [][Next]_a
Rows(n) == UNION { [1..m -> -2..n] : m \in 1..n }
Inv == Len(a) > 0 =>
         \A r \in Rows(Len(a)) :
           /\ \A i \in 0..(Len(a) - Len(r)) :
                RowRight(a, i, r) = (\A k \in 1..Len(r) : IsArgMin(a, i, i + k - 1, r[k]))
           /\ \A j \in (Len(r) - 1)..(Len(a) - 1) :
                RowLeft(a, j, r) = (\A k \in 1..Len(r) : IsArgMin(a, j - k + 1, j, r[k]))
=============================================================================
