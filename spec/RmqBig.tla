------------------------------- MODULE RmqBig -------------------------------
(* Range minima of arrays with millions of elements.  The array is a sequence of pieces
   << length, first value, step >>, each an arithmetic progression; it is never materialised.
   Agrees with Rmq.tla (RmqBigMC). *)
EXTENDS Base
(* first index of each piece, and the array's length as last entry *)
Starts(ps) == FoldLeft(LAMBDA a, p : Append(a, a[Len(a)] + p[1]), << 0 >>, ps)
Size(ps) == SumSeq([k \in 1..Len(ps) |-> ps[k][1]])
ValAt(ps, st, i) == LET k == LastLeq(SubSeq(st, 1, Len(ps)), i) IN ps[k][2] + (i - st[k]) * ps[k][3]
(* minimum of the values at i..j: the extremes of a progression are at the ends of its part in the range *)
MinIn(ps, st, i, j) ==
  LET ks == SubSeq(st, 1, Len(ps))
      lo == LastLeq(ks, i)
      hi == LastLeq(ks, j)
      At(k, x) == ps[k][2] + (x - st[k]) * ps[k][3]
  IN FoldLeft(LAMBDA m, k : Min2(m, Min2(At(k, Max2(i, st[k])), At(k, Min2(j, st[k + 1] - 1)))),
              At(lo, i), [x \in 1..(hi - lo + 1) |-> lo + x - 1])
(* r answers the query for the range i..j *)
IsMin(ps, st, i, j, r) == i <= r /\ r <= j /\ ValAt(ps, st, r) = MinIn(ps, st, i, j)
=============================================================================
