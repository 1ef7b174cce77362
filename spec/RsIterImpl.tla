----------------------------- MODULE RsIterImpl -----------------------------
(* The design of the double-ended select iterators: ranks of both ends, and per end the super-block
   and block of the previous answer, reused when the directory shows that the next answer lies
   there.  State machine over all bit strings up to MaxWords words and all interleavings of next,
   next_back, nth and nth_back; every answer must be the next one of the ideal double-ended
   sequence of positions (Iter.tla), however the caches were left behind by skips from both ends. *)
EXTENDS RsVecImpl
CONSTANTS MaxWords, MaxSkip, Zero
VARIABLES data, len, x,                             \* the vector and its directory
          rank, back, sup, supB, blk, blkB,         \* the iterator; back = -1 is None
          lo, hi, out                               \* ideal: remaining ranks lo..hi-1; out = last answer ok

vars == << data, len, x, rank, back, sup, supB, blk, blkB, lo, hi, out >>
Word == [1..W -> 0..1]
RECURSIVE DirOf(_, _, _)
DirOf(d, i, n) == IF i = 0 THEN EmptyDir
                  ELSE ConsumeWord(DirOf(d, i - 1, n), i - 1, d[i], Max2(0, i * W - n))
Total(xx, n) == IF Zero THEN xx.rank0 ELSE n - xx.rank0
Init == \E m \in 0..MaxWords : \E d \in [1..m -> Word] : \E n \in (IF m = 0 THEN {0} ELSE ((m - 1) * W + 1)..(m * W)) :
          LET xx == Finish(DirOf(d, m, n)) IN
          /\ data = d /\ len = n /\ x = xx
          /\ rank = 0 /\ back = Total(xx, n) - 1
          /\ sup = 0 /\ blk = 0 /\ supB = Max2(0, Len(xx.supers) - 1) /\ blkB = Max2(0, Len(xx.blocks) - 1)
          /\ lo = 0 /\ hi = Total(xx, n) /\ out = TRUE

(* the position with rank r by definition *)
PosOf(r) == LET b == IF Zero THEN 0 ELSE 1
            IN CHOOSE p \in 0..(len - 1) : BitOf(data, p) = b /\ Cardinality({ q \in 0..(p - 1) : BitOf(data, q) = b }) = r
Remaining == Max2(0, back + 1 - rank)
Search(r) == LET s == Sample(x, Zero, r \div Q) IN Scan(x, Zero, r, Bisect(x, Zero, r, s, Sample(x, Zero, (r \div Q) + 1)))

(* one step from the front, after the ends have been moved to (r, bk) *)
StepFront(r, bk) ==
  IF r >= Total(x, len) \/ bk = -1 \/ r > bk
  THEN /\ out' = (lo' >= hi') /\ rank' = r /\ back' = bk /\ UNCHANGED << sup, blk >>
  ELSE LET hitS == Len(x.supers) > sup + 1 /\ SuperCount(x, Zero, sup + 1) > r
           s == IF hitS THEN sup ELSE Search(r)
           r1 == r - SuperCount(x, Zero, s)
           hitB == /\ hitS
                   /\ (blk % NB = NB - 1 \/ (Len(x.blocks) > blk + 1 /\ BlockCount(x, Zero, blk + 1) > r1))
                   /\ blk # 0
           b == IF hitB THEN blk ELSE FindBlock(x, Zero, r1, s)
       IN /\ sup' = s /\ blk' = b /\ rank' = r + 1 /\ back' = bk
          /\ out' = (lo' <= hi' /\ FindWord(data, Zero, r1 - BlockCount(x, Zero, b), b, 0) = PosOf(r) /\ r = lo' - 1)
StepBackward(r, bk) ==
  IF bk = -1 \/ bk < r
  THEN /\ out' = (lo' >= hi') /\ rank' = r /\ back' = bk /\ UNCHANGED << supB, blkB >>
  ELSE LET hitS == SuperCount(x, Zero, supB) < bk
           s == IF hitS THEN supB ELSE Search(bk)
           r1 == bk - SuperCount(x, Zero, s)
           hitB == hitS /\ BlockCount(x, Zero, blkB) <= r1 /\ blkB # 0
           b == IF hitB THEN blkB ELSE FindBlock(x, Zero, r1, s)
       IN /\ supB' = s /\ blkB' = b /\ back' = bk - 1 /\ rank' = r
          /\ out' = (FindWord(data, Zero, r1 - BlockCount(x, Zero, b), b, 0) = PosOf(bk) /\ bk = hi')

(* ideal effect of nth(k): skip k, take one; past the end everything is consumed *)
FrontN(k) ==
  /\ lo' = Min2(hi, lo + k + 1) /\ UNCHANGED hi
  /\ IF Remaining >= k
     THEN /\ StepFront(rank + k, back)
     ELSE /\ rank' = rank + Remaining /\ back' = back /\ out' = (lo + k >= hi) /\ UNCHANGED << sup, blk >>
  /\ UNCHANGED << data, len, x, supB, blkB >>
Sub(bk, k) == IF bk >= k THEN bk - k ELSE -1
BackN(k) ==
  /\ hi' = Max2(lo, hi - k - 1) /\ UNCHANGED lo
  /\ IF Remaining >= k
     THEN StepBackward(rank, Sub(back, k))
     ELSE /\ rank' = rank /\ back' = Sub(back, Remaining) /\ out' = (hi - k <= lo) /\ UNCHANGED << supB, blkB >>
  /\ UNCHANGED << data, len, x, sup, blk >>
Next == \E k \in 0..MaxSkip : FrontN(k) \/ BackN(k)
Spec == Init /\ [][Next]_vars

Answers == out
Exact == Remaining = hi - lo
=============================================================================
