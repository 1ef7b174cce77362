------------------------------- MODULE RsVec -------------------------------
(* The rank/select vector as an abstract object: an immutable bit string.  The only transition
   that changes the state is building it from a bit vector; every query is a transition that
   leaves the state alone and is enabled only with the result the bit string defines.        *)
EXTENDS Runs
VARIABLE vec                       \* [n |-> length, ones |-> runs of the one bits]

NoVec == [n |-> 0, ones |-> <<>>]

Marked(z) == IF z THEN RunsComplement(vec.ones, vec.n) ELSE vec.ones
Count(z) == LET o == RunsTotal(vec.ones) IN IF z THEN vec.n - o ELSE o

Build(n, ones) == (RunsOK(ones, n)) = TRUE /\ vec' = [n |-> n, ones |-> ones]

Query == UNCHANGED vec

(* rank(0) and the set of steps of the whole rank function on 0..n *)
RankFunction(z, at0, steps) == at0 = 0 /\ steps = Marked(z) /\ Query
(* rank at single positions; at and past the end it is the total *)
RankAt(z, p, r) == r = (IF p >= vec.n THEN Count(z)
                        ELSE LET o == RunsRank(vec.ones, p) IN IF z THEN p - o ELSE o)
(* the whole select function, as the runs of its values *)
SelectFunction(z, vals) == vals = Marked(z) /\ Query
(* select of ranks that do not exist *)
SelectPast(z, k, r) == k >= Count(z) /\ r = vec.n

GetFunction(ones) == ones = vec.ones /\ Query
GetAt(p, r) == r = (IF p >= vec.n THEN None ELSE RunsBit(vec.ones, p))

(* get_bits(pos, len): None unless the range lies in the vector and has at most 64 bits.  A
   range of zero bits has no content; the operation may answer None or the empty value.
   The value is given as the runs of the positions (absolute) of its set bits.             *)
GetBits(pos, len, some, runs) ==
  IF len > 64 \/ pos > vec.n \/ len > vec.n - pos THEN some = None
  ELSE IF len = 0 THEN some = None \/ (some = 0 /\ runs = <<>>)
  ELSE some = 0 /\ runs = RunsClip(vec.ones, pos, pos + len)
=============================================================================
