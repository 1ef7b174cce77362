-------------------------------- MODULE Big --------------------------------
(* Bit strings of more than 2^32 bits, with positions and counts as 64-bit words (U64).
   R is a sequence of disjoint, increasing intervals << from, to >> (to exclusive) of one bits,
   F the set of positions whose bit was changed since.  BigMC relates the operators to the
   plain definition on short strings. *)
EXTENDS U64
BOne == U64Small(1)
RunsOKB(R, n) ==
  /\ \A i \in 1..Len(R) : U64OK(R[i][1]) /\ U64OK(R[i][2]) /\ ULess(R[i][1], R[i][2]) /\ ULeq(R[i][2], n)
  /\ \A i \in 1..(Len(R) - 1) : ULess(R[i][2], R[i + 1][1])
InRuns(R, p) == \E i \in 1..Len(R) : ULeq(R[i][1], p) /\ ULess(p, R[i][2])
BitB(R, F, p) == B2I(InRuns(R, p) # (p \in F))
UMin(a, b) == IF ULess(a, b) THEN a ELSE b
RankRunsB(R, p) == FoldLeft(LAMBDA a, r : IF ULess(r[1], p) THEN UAdd(a, USub(UMin(r[2], p), r[1])) ELSE a, U64Zero, R)
(* ones before p; p at most the length *)
Rank1B(R, F, p) ==
  LET below == { f \in F : ULess(f, p) }
      off == { f \in below : InRuns(R, f) }
  IN USub(UAdd(RankRunsB(R, p), U64Small(Cardinality(below \ off))), U64Small(Cardinality(off)))
RankB(R, F, z, p) == IF z THEN USub(p, Rank1B(R, F, p)) ELSE Rank1B(R, F, p)
(* r is the position of the k-th (from 0) bit equal to (IF z THEN 0 ELSE 1) *)
IsSelB(R, F, n, z, k, r) ==
  U64OK(r) /\ ULess(r, n) /\ BitB(R, F, r) = B2I(~z) /\ RankB(R, F, z, r) = k
Toggle(F, p) == IF p \in F THEN F \ { p } ELSE F \union { p }
ToggleAll(F, S) == (F \ S) \union (S \ F)
PlusB(p, i) == UAdd(p, U64Small(i))
(* the bits p .. p+len-1 as a word *)
ReadB(R, F, p, len) == UOfBits([i \in 1..len |-> BitB(R, F, PlusB(p, i - 1))])
=============================================================================
