------------------------------- MODULE EFImpl -------------------------------
(* The design of the Elias-Fano index.

   A sorted sequence is stored relative to its first element.  Each value splits into an upper
   part and L lower bits; upper holds a zero per upper value (and a closing zero) and after the
   zero of an upper value a one per element with that part; lower holds the low parts in order.
   Predecessor, successor and rank find the group of the query's upper part with select0, walk it
   linearly for TH elements and then bisect its rest.  The crate has TH = 4 and computes L from
   the length and the universe; EFImplMC checks the design for every L.                       *)
EXTENDS Base
CONSTANT TH

(* ---- construction ---- *)
EFBuild(a, L) ==
  LET z == a[1]
      P == Pow2[L + 1]
      up(i) == (a[i] - z) \div P
      n == Len(a)
      m == 2 + n + (a[n] - z) \div P
      marks == { up(i) + i : i \in 1..n }          \* 0-based positions of the ones: upper + (i-1) + 1
  IN [upper |-> [p \in 0..(m - 1) |-> B2I(p \in marks)],
      lower |-> [i \in 0..(n - 1) |-> (a[i + 1] - z) % P],
      zero |-> z, max |-> a[n], len |-> n, L |-> L, P |-> P]

OnesOf(x) == { p \in DOMAIN x.upper : x.upper[p] = 1 }
ZerosOf(x) == { p \in DOMAIN x.upper : x.upper[p] = 0 }
Nth(S, k) == CHOOSE p \in S : Cardinality({ q \in S : q < p }) = k
Sel1(x, k) == Nth(OnesOf(x), k)
Sel0(x, k) == IF k < Cardinality(ZerosOf(x)) THEN Nth(ZerosOf(x), k) ELSE Cardinality(DOMAIN x.upper)

EFGet(x, i) == (Sel1(x, i) - i - 1) * x.P + x.lower[i] + x.zero

(* ---- the search in a group ---- *)
(* index: count elements below the query, or find the neighbouring element
   up: walk upwards from the first element of the group, or downwards from the last            *)
NotEnough(index, up, c, q) ==
  IF index THEN IF up THEN c < q ELSE c > q ELSE IF up THEN c <= q ELSE c >= q

RECURSIVE StepBack(_, _, _, _)
StepBack(x, c, dir, low) == IF x.lower[c - dir] = low THEN StepBack(x, c - dir, dir, low) ELSE c

(* bisection of lo..hi; cand is the best lower part seen so far *)
RECURSIVE GroupBisect(_, _, _, _, _, _, _, _)
GroupBisect(x, index, up, low, base, lo, hi, cand) ==
  IF lo >= hi - 1 THEN [found |-> FALSE, lo |-> lo, hi |-> hi, cand |-> cand, res |-> 0]
  ELSE LET m == lo + ((hi - lo) \div 2)
           c == x.lower[m]
           dir == IF up THEN 1 ELSE -1
       IN IF c > low THEN GroupBisect(x, index, up, low, base, lo, m, IF up THEN cand ELSE c)
          ELSE IF c = low
               THEN [found |-> TRUE, lo |-> lo, hi |-> hi, cand |-> cand,
                     res |-> IF index THEN StepBack(x, m, dir, low) ELSE base + c + x.zero]
          ELSE GroupBisect(x, index, up, low, base, m, hi, IF up THEN c ELSE cand)

RECURSIVE GroupWalk(_, _, _, _, _, _, _, _, _, _)
GroupWalk(x, index, up, su, sl, qu, low, base, cur, cand) ==
  LET dir == IF up THEN 1 ELSE -1
      done(c, k) == IF index THEN sl + c ELSE base + k + x.zero
  IN IF x.upper[su + cur + dir] = 0 THEN done(cur, cand)
     ELSE LET nx == x.lower[sl + cur]
          IN IF (up /\ nx > low) \/ (~ up /\ nx < low) THEN done(cur, cand)
             ELSE IF nx = low THEN done(cur, nx)
             ELSE LET cur2 == cur + dir
                  IN IF cur2 # dir * TH
                     THEN GroupWalk(x, index, up, su, sl, qu, low, base, cur2, nx)
                     ELSE LET end == IF up THEN Sel0(x, qu + 1) - qu - 2 ELSE Sel0(x, qu) - qu
                              at == sl + cur2 - dir
                              b == GroupBisect(x, index, up, low, base,
                                               IF up THEN at ELSE end, IF up THEN end ELSE at, nx)
                              fb == IF up THEN b.lo ELSE b.hi
                              inside == IF up THEN fb < end ELSE fb > end
                          IN IF b.found THEN b.res
                             ELSE IF inside /\ NotEnough(index, up, x.lower[fb + dir], low)
                                  THEN IF index THEN fb + dir + 1
                                       ELSE base + x.lower[fb + dir] + x.zero
                             ELSE IF index THEN fb + dir
                             ELSE base + b.cand + x.zero

Search(x, index, up, su, sl, q, qu, low, base) ==
  LET dir == IF up THEN 1 ELSE -1
  IN IF x.upper[su + dir] = 1 /\ NotEnough(index, up, base + x.lower[sl], q)
     THEN GroupWalk(x, index, up, su, sl, qu, low, base, dir, x.lower[sl])
     ELSE IF index THEN sl ELSE EFGet(x, sl - dir)

PredImpl(x, v) ==
  IF v < x.zero THEN None
  ELSE IF v > x.max THEN EFGet(x, x.len - 1)
  ELSE LET q == v - x.zero
           qu == q \div x.P
           su == Sel0(x, qu)
       IN Search(x, FALSE, TRUE, su, su - qu, q, qu, q % x.P, qu * x.P)
SuccImpl(x, v) ==
  IF v > x.max THEN None
  ELSE IF v < x.zero THEN EFGet(x, 0)
  ELSE LET q == v - x.zero
           qu == q \div x.P
           su == Sel0(x, qu + 1)
       IN Search(x, FALSE, FALSE, su, su - qu - 2, q, qu, q % x.P, qu * x.P)
EFRankImpl(x, v) ==
  IF v > x.max THEN x.len
  ELSE IF v < x.zero THEN 0
  ELSE LET q == v - x.zero
           qu == q \div x.P
           su == Sel0(x, qu)
       IN Search(x, TRUE, TRUE, su, su - qu, q, qu, q % x.P, qu * x.P)
DeltaImpl(x, i) ==
  LET u == Sel1(x, i)
  IN IF x.upper[u - 1] = 1 THEN x.lower[i] - x.lower[i - 1]
     ELSE LET v == (u - i - 1) * x.P + x.lower[i]
          IN IF i = 0 THEN v + x.zero
             ELSE v - ((Sel1(x, i - 1) - (i - 1) - 1) * x.P + x.lower[i - 1])
=============================================================================
