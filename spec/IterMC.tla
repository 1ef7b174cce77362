------------------------------- MODULE IterMC -------------------------------
(* Design properties of the protocol itself, exhaustively for short sources: every element is
   yielded at most once, from the side it was asked from, in order; skipped elements are never
   yielded later; the length is exact; exhaustion is final.  `seen` is the history of yields.  *)
EXTENDS Base
CONSTANT MaxN
VARIABLES it, front, back, gone
vars == << it, front, back, gone >>
E_(s, k) == 10 * s + k
Z_(s) == s
S_(s) == s = 3
I == INSTANCE Iter WITH Elem <- E_, Size <- Z_, Sorted <- S_
Init == \E n \in 0..MaxN : it = I!Open(n) /\ front = <<>> /\ back = <<>> /\ gone = {}
Do(op, n) ==
  LET r == I!Res(it, op, n)
      jt == I!Step(it, op, n)
      all(x) == { E_(x.src, k) : k \in x.lo..(x.hi - 1) }
  IN /\ it' = jt
     /\ front' = IF op \in {0, 2} /\ r # None THEN front \o << r >> ELSE front
     /\ back' = IF op \in {1, 3} /\ r # None THEN back \o << r >> ELSE back
     /\ gone' = gone \cup ((all(it) \ all(jt)) \ { r })
Next == \E op \in 0..10, n \in 0..(MaxN + 1) : (op \in {2, 3} \/ n = 0) /\ Do(op, n)
Spec == Init /\ [][Next]_vars
Inv == /\ it.lo <= it.hi /\ it.lo >= 0 /\ it.hi <= it.src
       /\ StrictlyIncreasing(front)
       /\ StrictlyIncreasing([k \in 1..Len(back) |-> -back[k]])
       /\ \A i \in 1..Len(front), j \in 1..Len(back) : front[i] < back[j]
       \* yielded, skipped and remaining elements partition the source
       /\ LET y == { front[i] : i \in 1..Len(front) } \cup { back[i] : i \in 1..Len(back) }
              r == { E_(it.src, k) : k \in it.lo..(it.hi - 1) }
          IN /\ y \cap gone = {} /\ y \cap r = {} /\ gone \cap r = {}
             /\ y \cup gone \cup r = { E_(it.src, k) : k \in 0..(it.src - 1) }
       /\ (I!Left(it) = 0) => \A op \in {0, 1, 2, 3, 8, 9, 10} : I!Res(it, op, 0) = None
=============================================================================
