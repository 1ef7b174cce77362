------------------------------- MODULE RunsMC -------------------------------
(* Exhaustive check, for every bit string of length at most N, that the run operators mean what
   Runs.tla says, and that rank and select are determined by the run encodings. *)
EXTENDS Runs
CONSTANT N
VARIABLES n, S
Init == n \in 0..N /\ S \in SUBSET (0..(n - 1))
Next == UNCHANGED << n, S >>
Spec == Init /\ [][Next]_<< n, S >>

r == RunsOfSet(S)
RankDef(p) == Cardinality({ q \in S : q < p })
SelectDef(k) == CHOOSE p \in S : RankDef(p) = k

Canonical  == RunsOK(r, n) /\ RunsSet(r) = S
Complement == RunsComplement(r, n) = RunsOfSet((0..(n - 1)) \ S)
Total      == RunsTotal(r) = Cardinality(S)
Bits       == \A p \in 0..(n - 1) : RunsBit(r, p) = B2I(p \in S)
Ranks      == \A p \in 0..(n + 2) : RunsRank(r, p) = RankDef(p)
Clips      == \A a \in 0..n : \A b \in a..n : RunsClip(r, a, b) = RunsOfSet({ x \in S : a <= x /\ x < b })
Expands    == RunsExpand(r) = SetToSortSeq(S, LAMBDA a, b : a < b)
(* the steps of rank are the ones, and select enumerates the ones: the encodings used in traces *)
Steps      == { p \in 0..(n - 1) : RankDef(p + 1) = RankDef(p) + 1 } = S
Selects    == [k \in 1..Cardinality(S) |-> SelectDef(k - 1)] = RunsExpand(r)
RankOfSelect    == \A k \in 0..(Cardinality(S) - 1) : RankDef(SelectDef(k)) = k
=============================================================================
