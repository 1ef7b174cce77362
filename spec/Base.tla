-------------------------------- MODULE Base --------------------------------
(* Shared vocabulary of all specifications of vers-vecs.

   Observable results are integers: an index or count as itself (values above 2^30
   are logged as 2^30), None as -1, a panic of the implementation as -2, a value that
   has no place in the value dictionary of an episode as -3.  Booleans as results are 0/1.
   64-bit words are tuples <<hi16, mid24, lo24>>; see U64.tla.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

None    == -1
Panic   == -2
Cap     == 1073741824     \* 2^30

B2I(b) == IF b THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* Pointwise agreement of two sequences, as one boolean. *)
SameSeq(f, g) == Len(f) = Len(g) /\ \A i \in 1..Len(f) : f[i] = g[i]

SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

NonDecreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
StrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

(* Index of the last element of the sorted sequence s that is <= x, 0 if there is none. *)
RECURSIVE LastLeqIn(_, _, _, _)
LastLeqIn(s, x, lo, hi) ==      \* invariant: s[lo] <= x (or lo = 0), s[hi] > x (or hi = Len+1)
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF s[m] <= x THEN LastLeqIn(s, x, m, hi) ELSE LastLeqIn(s, x, lo, m)
LastLeq(s, x) == LastLeqIn(s, x, 0, Len(s) + 1)

(* Powers of two that fit TLC's 32-bit integers. *)
Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
           131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216 >>
=============================================================================
