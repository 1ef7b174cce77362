------------------------------- MODULE WavBig -------------------------------
(* Queries on sequences of millions of words.  The sequence is given by runs << length, word >>
   (a word is its index in a strictly increasing dictionary, as in Wavelet.tla) and is never
   materialised.  Each answer is judged by counting.  Agrees with Wavelet.tla (WavBigMC). *)
EXTENDS Base
Starts(rs) == FoldLeft(LAMBDA a, p : Append(a, a[Len(a)] + p[1]), << 0 >>, rs)
Size(st) == st[Len(st)]
AtW(rs, st, i) == IF i >= Size(st) THEN None ELSE rs[LastLeq(SubSeq(st, 1, Len(rs)), i)][2]
(* positions i..j-1 whose word lies in lo..hi; 0 <= i <= j <= Size *)
Many(rs, st, i, j, lo, hi) ==
  IF i >= j THEN 0
  ELSE LET ks == SubSeq(st, 1, Len(rs))
           f == LastLeq(ks, i)
           t == LastLeq(ks, j - 1)
       IN FoldLeft(LAMBDA a, k : IF lo <= rs[k][2] /\ rs[k][2] <= hi THEN a + (Min2(j, st[k + 1]) - Max2(i, st[k])) ELSE a,
                   0, [x \in 1..(t - f + 1) |-> f + x - 1])
IsRankRange(rs, st, i, j, c, r) ==
  LET n == Size(st)
  IN IF i > j \/ i > n \/ j > n THEN r = None
     ELSE IF i = n THEN r \in { None, 0 }
     ELSE r = Many(rs, st, i, j, c, c)
(* r is the position of occurrence number q (from 0) of c at or after o <= Size *)
IsSelect(rs, st, o, q, c, r) ==
  IF Many(rs, st, o, Size(st), c, c) <= q THEN r = None
  ELSE r >= o /\ r < Size(st) /\ AtW(rs, st, r) = c /\ Many(rs, st, o, r, c, c) = q
Bad(st, i, j) == i >= j \/ j > Size(st)
IsQuantile(rs, st, i, j, q, r) ==
  IF Bad(st, i, j) \/ q >= j - i THEN r = None
  ELSE r >= 0 /\ Many(rs, st, i, j, 0, r - 1) <= q /\ q < Many(rs, st, i, j, 0, r)
IsPred(rs, st, i, j, c, r) ==
  IF Bad(st, i, j) \/ Many(rs, st, i, j, 0, c) = 0 THEN r = None
  ELSE 0 <= r /\ r <= c /\ Many(rs, st, i, j, r, r) > 0 /\ Many(rs, st, i, j, r + 1, c) = 0
IsSucc(rs, st, i, j, c, r) ==
  IF Bad(st, i, j) \/ Many(rs, st, i, j, c, Cap) = 0 THEN r = None
  ELSE r >= c /\ Many(rs, st, i, j, r, r) > 0 /\ Many(rs, st, i, j, c, r - 1) = 0
=============================================================================
