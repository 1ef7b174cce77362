------------------------------ MODULE SortedMC ------------------------------
(* Exhaustive agreement of the bisecting operators with their definitions: all sorted sequences of
   up to MaxN words over an alphabet that crosses limb boundaries, all queries. *)
EXTENDS Sorted
CONSTANT MaxN
VARIABLE s
W == << << 0, 0, 0 >>, << 0, 0, 1 >>, << 0, 0, 16777215 >>, << 0, 1, 0 >>, << 0, 16777215, 16777215 >>,
        << 1, 0, 0 >>, << 65535, 16777215, 16777214 >>, << 65535, 16777215, 16777215 >> >>
Init == s = <<>>
Next == Len(s) < MaxN /\ \E i \in 1..Len(W) : (Len(s) > 0 => ULeq(s[Len(s)], W[i])) /\ s' = Append(s, W[i])
Spec == Init /\ [][Next]_s
Inv == /\ USorted(s)
       /\ \A i \in 1..Len(W) :
            /\ Pred(s, W[i]) = PredDef(s, W[i]) /\ Succ(s, W[i]) = SuccDef(s, W[i])
            /\ CountBelow(s, W[i]) = RankDef(s, W[i])
       /\ \A i \in 0..Len(s) : i > 0 /\ i < Len(s) => UAdd(Delta(s, i), s[i]) = s[i + 1]
=============================================================================
