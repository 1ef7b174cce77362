---------------------------- MODULE WaveletImpl ----------------------------
(* The design of the wavelet matrix: one bit vector per bit of the symbols, most significant
   first; each level orders the elements stably by the bit of the level above.  Two ways to build
   it (stable partition; counting of prefixes with bit-reversed borders) and the level-by-level
   navigation of all queries.  WaveletImplMC checks them against the sequence itself.         *)
EXTENDS Base
CONSTANT K                                     \* bits per element, >= 1

Bit(v, j) == (v \div Pow2[j + 1]) % 2            \* bit j of v, 0 is the least significant
LevelBit(v, l) == Bit(v, K - 1 - l)              \* the bit the level l looks at, l in 0..K-1

(* ---- building by stable partition ---- *)
RECURSIVE PartLevels(_, _)
PartLevels(s, l) ==
  IF l = K THEN <<>>
  ELSE << [i \in 1..Len(s) |-> LevelBit(s[i], l)] >>
       \o PartLevels(SelectSeq(s, LAMBDA v : LevelBit(v, l) = 0)
                     \o SelectSeq(s, LAMBDA v : LevelBit(v, l) = 1), l + 1)
ByPartition(s) == PartLevels(s, 0)

(* ---- building by counting: level l >= 1 places each element at the border of its l-bit prefix;
        the nodes of a level are laid out in the order of the reversed prefixes ---- *)
RECURSIVE RevBits(_, _)
RevBits(h, w) == IF w = 0 THEN 0 ELSE (h % 2) * Pow2[w] + RevBits(h \div 2, w - 1)
Prefix(v, l) == v \div Pow2[K - l + 1]
Histogram(s, l) == [h \in 0..(Pow2[l + 1] - 1) |-> Cardinality({ i \in 1..Len(s) : Prefix(s[i], l) = h })]
RECURSIVE BorderOf(_, _, _)
BorderOf(hist, l, h) ==                          \* border of the h-th node in layout order
  IF h = 0 THEN 0 ELSE LET p == RevBits(h - 1, l) IN BorderOf(hist, l, h - 1) + hist[p]
CountLevel(s, l) ==
  LET hist == Histogram(s, l)
      place(i) == BorderOf(hist, l, RevBits(Prefix(s[i], l), l))
                  + Cardinality({ j \in 1..(i - 1) : Prefix(s[j], l) = Prefix(s[i], l) })
  IN [p \in 1..Len(s) |-> LevelBit(s[CHOOSE i \in 1..Len(s) : place(i) = p - 1], l)]
ByCounting(s) == [l \in 1..K |-> IF l = 1 THEN [i \in 1..Len(s) |-> LevelBit(s[i], 0)]
                                 ELSE CountLevel(s, l - 1)]

(* ---- navigation; m is the sequence of levels, positions are 0-based ---- *)
R0(m, l, p) == Cardinality({ i \in 1..Min2(p, Len(m[l + 1])) : m[l + 1][i] = 0 })
Z(m, l) == R0(m, l, Len(m[l + 1]))
R1(m, l, p) == Min2(p, Len(m[l + 1])) - R0(m, l, p)
Sel(m, l, b, k) ==
  LET S == { i \in 1..Len(m[l + 1]) : m[l + 1][i] = b }
  IN IF k >= Cardinality(S) THEN Len(m[l + 1])
     ELSE (CHOOSE i \in S : Cardinality({ j \in S : j < i }) = k) - 1
Down(m, l, b, p) == IF b = 0 THEN R0(m, l, p) ELSE Z(m, l) + R1(m, l, p)

RECURSIVE ValueFrom(_, _, _)
ValueFrom(m, l, p) ==
  IF l = K THEN 0
  ELSE LET b == m[l + 1][p + 1] IN b * Pow2[K - l] + ValueFrom(m, l + 1, Down(m, l, b, p))
ValueAt(m, p) == ValueFrom(m, 0, p)

RECURSIVE DownTo(_, _, _, _)
DownTo(m, l, v, p) == IF l = K THEN p ELSE DownTo(m, l + 1, v, Down(m, l, LevelBit(v, l), p))
RankRange(m, a, b, v) == DownTo(m, 0, v, b) - DownTo(m, 0, v, a)

RECURSIVE UpFrom(_, _, _, _)
UpFrom(m, l, v, p) ==
  IF l < 0 THEN p
  ELSE UpFrom(m, l - 1, v, IF LevelBit(v, l) = 0 THEN Sel(m, l, 0, p) ELSE Sel(m, l, 1, p - Z(m, l)))
SelectFrom(m, off, k, v) == UpFrom(m, K - 1, v, DownTo(m, 0, v, off) + k)

RECURSIVE QuantileFrom(_, _, _, _, _, _)
QuantileFrom(m, l, a, b, k, acc) ==
  IF l = K THEN acc
  ELSE LET za == R0(m, l, a)
           zb == R0(m, l, b)
       IN IF k < zb - za THEN QuantileFrom(m, l + 1, za, zb, k, 2 * acc)
          ELSE QuantileFrom(m, l + 1, Z(m, l) + (a - za), Z(m, l) + (b - zb), k - (zb - za), 2 * acc + 1)
Quantile(m, a, b, k) == QuantileFrom(m, 0, a, b, k, 0)

(* predecessor: follow the query's bits; remember the last place with a non-empty smaller branch *)
NoBranch == [lev |-> -1, a |-> 0, b |-> 0, acc |-> 0]
RECURSIVE PredWalk(_, _, _, _, _, _, _)
PredWalk(m, l, a, b, v, acc, br) ==
  IF l = K THEN acc
  ELSE LET za == R0(m, l, a)
           zb == R0(m, l, b)
       IN IF LevelBit(v, l) = 0
          THEN IF zb = za
               THEN IF br.lev < 0 THEN None
                    ELSE QuantileFrom(m, br.lev + 1, br.a, br.b, br.b - br.a - 1, 2 * br.acc)
               ELSE PredWalk(m, l + 1, za, zb, v, 2 * acc, br)
          ELSE IF zb - za = b - a THEN QuantileFrom(m, l, a, b, b - a - 1, acc)
               ELSE PredWalk(m, l + 1, Z(m, l) + (a - za), Z(m, l) + (b - zb), v, 2 * acc + 1,
                             IF zb > za THEN [lev |-> l, a |-> za, b |-> zb, acc |-> acc] ELSE br)
PredIn(m, a, b, v) == PredWalk(m, 0, a, b, v, 0, NoBranch)

RECURSIVE SuccWalk(_, _, _, _, _, _, _)
SuccWalk(m, l, a, b, v, acc, br) ==
  IF l = K THEN acc
  ELSE LET za == R0(m, l, a)
           zb == R0(m, l, b)
           oa == Z(m, l) + (a - za)
           ob == Z(m, l) + (b - zb)
       IN IF LevelBit(v, l) = 0
          THEN IF zb = za THEN QuantileFrom(m, l, a, b, 0, acc)
               ELSE SuccWalk(m, l + 1, za, zb, v, 2 * acc,
                             IF ob > oa THEN [lev |-> l, a |-> oa, b |-> ob, acc |-> acc] ELSE br)
          ELSE IF zb - za = b - a
               THEN IF br.lev < 0 THEN None ELSE QuantileFrom(m, br.lev + 1, br.a, br.b, 0, 2 * br.acc + 1)
               ELSE SuccWalk(m, l + 1, oa, ob, v, 2 * acc + 1, br)
SuccIn(m, a, b, v) == SuccWalk(m, 0, a, b, v, 0, NoBranch)
=============================================================================
