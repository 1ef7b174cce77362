------------------------------ MODULE BpImplMC ------------------------------
EXTENDS BpImpl
CONSTANT MaxN
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxN /\ \E x \in 0..1 : b' = Append(b, x)
Spec == Init /\ [][Next]_b

Inv == b # <<>> =>
  LET m == TLCEval(MmTree(b))
      E == TLCEval([j \in 0..Len(b) |-> SeqSum(SubSeq(b, 1, j))])
  IN \A i \in 0..(Len(b) - 1) : \A rel \in -(Len(b) + 1)..(Len(b) + 1) :
       LET F == { j \in (i + 1)..(Len(b) - 1) : E[j + 1] = E[i + 1] + rel }
           B == { j \in 0..(i - 1) : E[j] = E[i] + rel }
       IN /\ FwdImpl(b, m, i, rel) = IF F = {} THEN None ELSE Min(F)
          /\ BwdImpl(b, m, i, rel) = IF B = {} THEN None ELSE Max(B)
=============================================================================
