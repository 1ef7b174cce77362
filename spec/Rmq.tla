-------------------------------- MODULE Rmq --------------------------------
(* Range minimum: an immutable array a (0-based; values are indices into a dictionary of words,
   which is strictly increasing, so comparing indices compares values).
   A query for a non-empty range i..j may return any index of the range that attains its minimum. *)
EXTENDS Sorted
Val(a, i) == a[i + 1]
IsArgMin(a, i, j, r) == r \in i..j /\ \A k \in i..j : Val(a, r) <= Val(a, k)

(* The answers r[1], r[2], ... to the queries (i,i), (i,i+1), ...: correct iff every answer lies
   in its range and its value is the running minimum.  RmqMC checks that this is IsArgMin. *)
RowRight(a, i, r) ==
  LET f(acc, k) ==
        IF acc = None THEN None
        ELSE LET m == Min2(acc, Val(a, i + k - 1))
             IN IF r[k] \in i..(i + k - 1) /\ Val(a, r[k]) = m THEN m ELSE None
  IN FoldLeft(f, Cap, [k \in 1..Len(r) |-> k]) # None
(* the answers to (j,j), (j-1,j), ... *)
RowLeft(a, j, r) ==
  LET f(acc, k) ==
        IF acc = None THEN None
        ELSE LET m == Min2(acc, Val(a, j - k + 1))
             IN IF r[k] \in (j - k + 1)..j /\ Val(a, r[k]) = m THEN m ELSE None
  IN FoldLeft(f, Cap, [k \in 1..Len(r) |-> k]) # None

(* Rust range expressions.  A bound is << kind, position >>: 0 unbounded, 1 included, 2 excluded
   (positions above 2^30 are logged as 2^30, which is past every array).  The range is clamped to
   the array; for a range that is empty to begin with only totality is required.              *)
First(b) == CASE b[1] = 0 -> 0 [] b[1] = 1 -> b[2] [] b[1] = 2 -> b[2] + 1
LastOf(b, n) == CASE b[1] = 0 -> n - 1 [] b[1] = 1 -> b[2] [] b[1] = 2 -> b[2] - 1
Clamp(x, n) == Max2(0, Min2(x, n - 1))
RangeQuery(a, s, e, r) ==
  LET n == Len(a)
      lo == First(s)
      hi == LastOf(e, n)
  IN IF lo > hi THEN r \in 0..(n - 1)
     ELSE IsArgMin(a, Clamp(lo, n), Clamp(hi, n), r)
=============================================================================
