------------------------------ MODULE RmqBigMC ------------------------------
(* all arrays of up to MaxPieces pieces: the piecewise answer is the answer of Rmq.tla on the listed array *)
EXTENDS RmqBig
R == INSTANCE Rmq
CONSTANTS MaxPieces, MaxLen, MaxVal
VARIABLES ps
Piece == { p \in (1..MaxLen) \X (0..MaxVal) \X {-1, 0, 1} : p[2] + (p[1] - 1) * p[3] >= 0 }
Init == ps \in [1..1 -> Piece]
Next == Len(ps) < MaxPieces /\ \E p \in Piece : ps' = Append(ps, p)
Spec == Init /\ [][Next]_ps
Arr == LET st == Starts(ps) IN [i \in 1..Size(ps) |-> ValAt(ps, st, i - 1)]
Listed == FoldLeft(LAMBDA a, p : a \o [x \in 1..p[1] |-> p[2] + (x - 1) * p[3]], << >>, ps)
SizeOk == Starts(ps)[Len(ps) + 1] = Size(ps) /\ Size(ps) = Len(Listed) /\ Arr = Listed
MinOk == LET st == Starts(ps) n == Size(ps) IN
  \A i \in 0..(n - 1) : \A j \in i..(n - 1) :
     /\ \E r \in i..j : IsMin(ps, st, i, j, r)
     /\ \A r \in (-2)..n : IsMin(ps, st, i, j, r) <=> R!IsArgMin(Listed, i, j, r)
=============================================================================
