------------------------------ MODULE IterGen ------------------------------
(* All call sequences of length Depth over a source of up to MaxN elements, printed as JSON
   <<n, op, arg, op, arg, ...>> for replay into the code.  Sequences whose last calls come after
   exhaustion are kept: exhausted iterators must stay exhausted. *)
EXTENDS Base, Json
CONSTANTS MaxN, Depth
VARIABLES it, h
vars == << it, h >>
E_(s, k) == k
Z_(s) == s
S_(s) == s = 3
I == INSTANCE Iter WITH Elem <- E_, Size <- Z_, Sorted <- S_
Args(op) == IF op \in {2, 3} THEN {0, 1, 2, MaxN, Cap} ELSE {0}
Init == \E n \in 0..MaxN : it = I!Open(n) /\ h = << n >>
Next == /\ Len(h) < 2 * Depth + 1
        /\ \E op \in 0..4 : \E n \in Args(op) :
             /\ it' = I!Step(it, op, n)
             /\ h' = h \o << op, n >>
Spec == Init /\ [][Next]_vars
Emit == (Len(h) = 2 * Depth + 1) => PrintT(ToJson(h))
=============================================================================
