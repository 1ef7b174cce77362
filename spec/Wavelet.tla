------------------------------ MODULE Wavelet ------------------------------
(* The wavelet matrix as an abstract object: an immutable sequence v of k-bit words.  Words are
   represented by their index in a strictly increasing dictionary, so the order of words is the
   order of the indices; the dictionary also contains words that do not occur.
   Results: dictionary indices, positions and counts as integers, None = -1.                  *)
EXTENDS Base

(* strict lexicographic order of equally long chunk sequences, most significant chunk first *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] = b[i] THEN LexLess(a, b, i + 1) ELSE a[i] < b[i]
DictOK(d) == \A i \in 1..(Len(d) - 1) : Len(d[i]) = Len(d[i + 1]) /\ LexLess(d[i], d[i + 1], 1)

(* ---- access *)
Get(v, i) == IF i < Len(v) THEN v[i + 1] ELSE None

(* ---- rank: occurrences of c in positions i..j-1 *)
CountIn(v, i, j, c) == FoldLeft(LAMBDA a, k : a + B2I(v[k] = c), 0, [k \in 1..(j - i) |-> i + k])
(* An inverted range or one that leaves the sequence has no answer; for the empty range at the
   very end both None and 0 are acceptable. *)
RankRange(v, i, j, c, r) ==
  LET n == Len(v)
  IN IF i > j \/ i > n \/ j > n THEN r = None
     ELSE IF i = n THEN r \in { None, 0 }
     ELSE r = CountIn(v, i, j, c)
(* the whole row rank(o..o), rank(o..o+1), ..., rank(o..n), for o < n, as an induction *)
RankRow(v, o, c, r) ==
  /\ o < Len(v) /\ Len(r) = Len(v) - o + 1
  /\ r[1] = 0
  /\ \A k \in 1..(Len(v) - o) : r[k + 1] = r[k] + B2I(v[o + k] = c)

(* ---- select: the positions of c at or after o, in order *)
Occurrences(v, o, c) == SelectSeq([k \in 1..(Len(v) - o) |-> o + k - 1], LAMBDA p : v[p + 1] = c)
(* answers to ranks 0, 1, 2, ...: the occurrences, then None *)
SelectRow(v, o, c, r) ==
  LET p == Occurrences(v, o, c)
  IN /\ Len(r) > Len(p)
     /\ \A k \in 1..Len(r) : r[k] = IF k <= Len(p) THEN p[k] ELSE None

(* ---- order statistics of positions i..j-1 *)
SortedRange(v, i, j) == SortSeq(SubSeq(v, i + 1, j), LAMBDA x, y : x < y)
(* s is that sequence: it is sorted, and p is a bijection between its positions and i..j-1 along
   which the values agree *)
IsSortOf(v, i, j, s, p) ==
  /\ Len(s) = j - i /\ Len(p) = j - i
  /\ \A t \in 1..(j - i) : p[t] \in i..(j - 1) /\ s[t] = v[p[t] + 1]
  /\ \A t \in 1..(j - i - 1) : s[t] <= s[t + 1]
  /\ Cardinality({ p[t] : t \in 1..(j - i) }) = j - i
BadRange(v, i, j) == i >= j \/ j > Len(v)                 \* empty, inverted or out of bounds
Quantile(v, i, j, q) == IF BadRange(v, i, j) \/ q >= j - i THEN None ELSE SortedRange(v, i, j)[q + 1]
Median(v, i, j) == Quantile(v, i, j, (j - 1 - i) \div 2)

(* ---- predecessor and successor of c among positions i..j-1, from the sorted range s *)
PredIn(s, c) == LET k == LastLeq(s, c) IN IF k = 0 THEN None ELSE s[k]
SuccIn(s, c) == LET k == LastLeq(s, c - 1) IN IF k = Len(s) THEN None ELSE s[k + 1]
=============================================================================
