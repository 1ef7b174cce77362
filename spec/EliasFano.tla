------------------------------ MODULE EliasFano ------------------------------
(* Elias-Fano vector and sparse rank/select vector as abstract objects.
   EF: an immutable sorted sequence of words.  Sparse: an immutable set of positions, given as a
   strictly increasing sequence of words, and a length (a word) above all of them.              *)
EXTENDS Sorted
CONSTANT Content(_)                 \* the sequence behind a reference (traces refer to the event)
VARIABLES ref, len                  \* current structure; len is used by the sparse vector only

S == Content(ref)
Query == UNCHANGED << ref, len >>

BuildEF(r) == (USorted(Content(r))) = TRUE /\ ref' = r /\ len' = U64Zero
BuildSparse(r, n) ==
  /\ (UStrict(Content(r))) = TRUE
  /\ LET c == Content(r) IN Len(c) > 0 => ULess(c[Len(c)], n)
  /\ ref' = r /\ len' = n

(* sparse vector *)
SpGet(x) == IF ULeq(len, x) THEN None ELSE B2I(Pred(S, x) = x)
SpRank1(x) == CountBelow(S, x)
SpRank0(x) == LET m == IF ULess(x, len) THEN x ELSE len IN USub(m, U64Small(CountBelow(S, m)))
SpSelect(i) == IF i >= Len(S) THEN len ELSE S[i + 1]
=============================================================================
