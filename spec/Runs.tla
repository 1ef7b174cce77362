-------------------------------- MODULE Runs --------------------------------
(* Run encodings of bit strings and of step functions.

   A set of positions (the ones of a bit string) is a flat sequence
   << s1, l1, s2, l2, ... >> of maximal intervals s_i .. s_i + l_i - 1.  The same format
   encodes an integer sequence as its maximal runs of consecutive values, so the sequence
   select(0), select(1), ... of a bit string is encoded by exactly the runs of its ones, and a
   rank function is encoded by its value at 0 and the runs of the positions at which it steps
   by one.  RunsMC.tla checks these correspondences exhaustively for short strings.          *)
EXTENDS Base

RunCount(r) == Len(r) \div 2
RunEnd(r, i) == r[2 * i - 1] + r[2 * i]          \* one past the end of the i-th run

(* r is a canonical encoding of a subset of 0..n-1 *)
RunsOK(r, n) ==
  /\ Len(r) % 2 = 0
  /\ \A i \in 1..RunCount(r) : r[2 * i] >= 1 /\ r[2 * i - 1] >= 0
  /\ \A i \in 1..(RunCount(r) - 1) : r[2 * i + 1] > RunEnd(r, i)
  /\ Len(r) > 0 => RunEnd(r, RunCount(r)) <= n

RunsTotal(r) == SumSeq([i \in 1..RunCount(r) |-> r[2 * i]])

(* the complement within 0..n-1 *)
RunsComplement(r, n) ==
  IF Len(r) = 0 THEN IF n = 0 THEN <<>> ELSE << 0, n >>
  ELSE LET k == RunCount(r)
           lead == B2I(r[1] > 0)
           tail == B2I(RunEnd(r, k) < n)
           m == (k - 1) + lead + tail
           from(j) == IF j - lead = 0 THEN 0 ELSE RunEnd(r, j - lead)
           to(j) == IF j - lead = k THEN n ELSE r[2 * (j - lead) + 1]
       IN [x \in 1..(2 * m) |->
             LET j == (x + 1) \div 2
             IN IF x % 2 = 1 THEN from(j) ELSE to(j) - from(j)]

(* index of the last run that starts at or before p (0 if none), by bisection *)
RECURSIVE RunIdxIn(_, _, _, _)
RunIdxIn(r, p, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF r[2 * m - 1] <= p THEN RunIdxIn(r, p, m, hi) ELSE RunIdxIn(r, p, lo, m)
RunIdx(r, p) == RunIdxIn(r, p, 0, RunCount(r) + 1)

RunsBit(r, p) == LET i == RunIdx(r, p) IN B2I(i > 0 /\ p < RunEnd(r, i))

(* number of members below p *)
RunsRank(r, p) ==
  SumSeq([i \in 1..RunCount(r) |-> Max2(0, Min2(r[2 * i], p - r[2 * i - 1]))])

(* the members within a..b-1, as runs *)
RunsClip(r, a, b) ==
  LET lo == LET i == RunIdx(r, a) IN IF i > 0 /\ RunEnd(r, i) > a THEN i ELSE i + 1
      hi == RunIdx(r, b - 1)
  IN IF b <= a \/ hi < lo THEN <<>>
     ELSE [x \in 1..(2 * (hi - lo + 1)) |->
             LET j == lo + (x - 1) \div 2
                 s == Max2(r[2 * j - 1], a)
             IN IF x % 2 = 1 THEN s ELSE Min2(RunEnd(r, j), b) - s]

(* the members as an increasing sequence; only for small sets *)
RECURSIVE RunsExpandFrom(_, _)
RunsExpandFrom(r, i) ==
  IF i > RunCount(r) THEN <<>>
  ELSE [x \in 1..r[2 * i] |-> r[2 * i - 1] + x - 1] \o RunsExpandFrom(r, i + 1)
RunsExpand(r) == RunsExpandFrom(r, 1)

(* --- definitions by the meaning of the encoding, used to check the operators above --- *)
RunsSet(r) == UNION { r[2 * i - 1]..(RunEnd(r, i) - 1) : i \in 1..RunCount(r) }
RECURSIVE RunsOfSet(_)
RunsOfSet(S) ==
  IF S = {} THEN <<>>
  ELSE LET s == Min(S)
           e == Min({ x \in s..(Max(S) + 1) : x \notin S })
       IN << s, e - s >> \o RunsOfSet({ x \in S : x >= e })
=============================================================================
