------------------------------ MODULE RmqImpl ------------------------------
(* The designs of the two range minimum structures.  Indices are 0-based, a is a function on
   0..n-1.  The block size BS of the fast structure is a parameter (128 in the crate).        *)
EXTENDS Base
CONSTANT BS

N(a) == Cardinality(DOMAIN a)
RECURSIVE CeilLog2(_)
CeilLog2(x) == IF x <= 1 THEN 0 ELSE 1 + CeilLog2((x + 1) \div 2)
RECURSIVE FloorLog2(_)
FloorLog2(x) == IF x <= 1 THEN 0 ELSE 1 + FloorLog2(x \div 2)

(* ---- sparse table: t[k][j] is the argmin of j .. j + 2^k - 1, where that range exists; entries
        of ranges that stick out are whatever the recurrence leaves there ---- *)
RECURSIVE TableRow(_, _)
TableRow(a, k) ==
  IF k = 0 THEN [j \in 0..(N(a) - 1) |-> j]
  ELSE LET p == TLCEval(TableRow(a, k - 1))
           off == Pow2[k]
       IN [j \in 0..(N(a) - 1) |->
             IF j + off < N(a) THEN IF a[p[j]] < a[p[j + off]] THEN p[j] ELSE p[j + off]
             ELSE j]
Table(a) == [k \in 0..CeilLog2(N(a)) |-> TableRow(a, k)]
Better(a, x, y) == IF a[y] < a[x] THEN y ELSE x
TableMin(a, t, i, j) ==
  LET k == FloorLog2(j - i)
      d == IF j = i THEN 0 ELSE Pow2[k + 1] - 1
  IN Better(a, t[IF j = i THEN 0 ELSE k][i], t[IF j = i THEN 0 ELSE k][j - d])

(* ---- blocks: the strict prefix minima and the strict suffix minima of every block (the code
        keeps the complements as bit sets), the position of the block minimum, and a sparse table
        over the block minima ---- *)
BlockOf(a, b) == { i \in DOMAIN a : i \div BS = b }
PrefixMinima(a, b) == { i \in BlockOf(a, b) : \A j \in BlockOf(a, b) : j < i => a[i] < a[j] }
SuffixMinima(a, b) == { i \in BlockOf(a, b) : \A j \in BlockOf(a, b) : j > i => a[i] < a[j] }
BlockMin(a, b) == CHOOSE i \in BlockOf(a, b) : /\ \A j \in BlockOf(a, b) : a[i] <= a[j]
                                               /\ \A j \in BlockOf(a, b) : j < i => a[i] < a[j]
NB(a) == (N(a) + BS - 1) \div BS
FastDir(a) ==
  LET m == TLCEval([b \in 0..(NB(a) - 1) |-> BlockMin(a, b)])
      vals == TLCEval([b \in 0..(NB(a) - 1) |-> a[m[b]]])
  IN [pre |-> [b \in 0..(NB(a) - 1) |-> PrefixMinima(a, b)],
      suf |-> [b \in 0..(NB(a) - 1) |-> SuffixMinima(a, b)],
      min |-> m, vals |-> vals, table |-> Table(vals)]
FirstMinIn(a, i, j) == CHOOSE x \in i..j : /\ \A y \in i..j : a[x] <= a[y]
                                           /\ \A y \in i..(x - 1) : a[x] < a[y]
FastMin(a, d, i, j) ==
  LET bi == i \div BS
      bj == j \div BS
      below(S, x) == { y \in S : y <= x }
      above(S, x) == { y \in S : y >= x }
  IN IF bi = bj
     THEN IF Cardinality(below(d.pre[bi], j)) > Cardinality(below(d.pre[bi], i))
          THEN Max(below(d.pre[bi], j)) ELSE FirstMinIn(a, i, j)
     ELSE LET x == Min(above(d.suf[bi], i))       \* the farthest-left strict suffix minimum from i on
              y == Max(below(d.pre[bj], j))
              xy == Better(a, x, y)
          IN IF bi + 1 < bj
             THEN Better(a, xy, d.min[TableMin(d.vals, d.table, bi + 1, bj - 1)])
             ELSE xy
=============================================================================
