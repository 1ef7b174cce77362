----------------------------- MODULE RmqImplMC -----------------------------
EXTENDS RmqImpl
CONSTANTS MaxN, MaxV
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxN /\ \E v \in 0..MaxV : s' = Append(s, v)
Spec == Init /\ [][Next]_s
Inv == s # <<>> =>
  LET a == TLCEval([i \in 0..(Len(s) - 1) |-> s[i + 1]])
      t == TLCEval(Table(a))
      d == TLCEval(FastDir(a))
      argmin(x, i, j) == x \in i..j /\ \A y \in i..j : a[x] <= a[y]
  IN \A i \in 0..(Len(s) - 1) : \A j \in i..(Len(s) - 1) :
       argmin(TableMin(a, t, i, j), i, j) /\ argmin(FastMin(a, d, i, j), i, j)
=============================================================================
