------------------------------ MODULE WavBigMC ------------------------------
(* WavBig.tla against Wavelet.tla on the materialised sequence, for every sequence of at most P runs
   of at most L words from 0..M. *)
EXTENDS WavBig
W == INSTANCE Wavelet
CONSTANTS P, L, M
VARIABLE rs
Init == rs \in UNION { [1..k -> (1..L) \X (0..M)] : k \in 1..P }
Next == UNCHANGED rs
Spec == Init /\ [][Next]_rs
V == FoldLeft(LAMBDA a, p : a \o [i \in 1..p[1] |-> p[2]], <<>>, rs)
Inv ==
  LET v == V
      st == Starts(rs)
      n == Len(v)
      A == -1..(n + 1)
  IN /\ Size(st) = n
     /\ \A i \in 0..(n + 1) : AtW(rs, st, i) = W!Get(v, i)
     /\ \A i, j \in 0..(n + 1) :
          LET bad == W!BadRange(v, i, j)
              s == IF bad THEN <<>> ELSE W!SortedRange(v, i, j)
          IN /\ \A c \in 0..M : \A r \in A :
                  /\ IsRankRange(rs, st, i, j, c, r) = W!RankRange(v, i, j, c, r)
                  /\ IsPred(rs, st, i, j, c, r) = (r = IF bad THEN None ELSE W!PredIn(s, c))
                  /\ IsSucc(rs, st, i, j, c, r) = (r = IF bad THEN None ELSE W!SuccIn(s, c))
             /\ \A q \in 0..n : \A r \in -1..(M + 1) : IsQuantile(rs, st, i, j, q, r) = (r = W!Quantile(v, i, j, q))
     /\ \A o \in 0..n : \A c \in 0..M :
          LET p == W!Occurrences(v, o, c)
          IN \A q \in 0..n : \A r \in A : IsSelect(rs, st, o, q, c, r) = (r = IF q < Len(p) THEN p[q + 1] ELSE None)
=============================================================================
