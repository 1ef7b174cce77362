------------------------------- MODULE WorkMC -------------------------------
(* The searches whose length depends on the structure, one step at a time: how far they go.
   "select": between two samples taken every Q bits, bisection down to T super-blocks and a linear
   scan; any distribution of bits over the super-blocks.  "tree": up from a leaf of the level-order
   tree, over to a sibling, and down, whatever the excesses say.
   Closing = "last" and Probe = "exact" is the design; "same" and "over" are variants that give the
   same answers, which TLC has to refute (WorkMCSame, WorkMCOver: not part of a check).          *)
EXTENDS Base
CONSTANTS M, Q, T, MaxLeaves, Closing, Probe
VARIABLES kind, cnt, r, lo, up, phase, steps
vars == << kind, cnt, r, lo, up, phase, steps >>
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg((n + 1) \div 2)
RECURSIVE Before(_, _)
Before(c, s) == IF s = 0 THEN 0 ELSE c[s] + Before(c, s - 1)       \* bits before super-block s
Total(c) == Before(c, Len(c))
(* the super-block with the k-th bit *)
Holding(c, k) == CHOOSE s \in 0..(Len(c) - 1) : Before(c, s) <= k /\ k < Before(c, s + 1)
Sample(c, j) == IF j = 0 THEN 0
                ELSE IF j * Q < Total(c) THEN Holding(c, j * Q)
                ELSE IF Closing = "last" THEN Len(c) - 1 ELSE IF j = 1 THEN 0 ELSE Holding(c, (j - 1) * Q)
SInit == /\ kind = "select"
         /\ \E len \in 1..M : cnt \in [1..len -> 0..Q]
         /\ r \in 0..(Total(cnt) - 1)
         /\ lo = Sample(cnt, r \div Q) /\ up = Sample(cnt, (r \div Q) + 1) /\ phase = "bisect" /\ steps = 0
Guess(m) == Before(cnt, m) + (IF Probe = "over" THEN Q ELSE 0)
Bisect == /\ kind = "select" /\ phase = "bisect" /\ up - lo > T
          /\ LET m == lo + ((up - lo) \div 2)
             IN IF Guess(m) <= r THEN lo' = m /\ up' = up ELSE lo' = lo /\ up' = m
          /\ steps' = steps + 1 /\ UNCHANGED << kind, cnt, r, phase >>
ToScan == kind = "select" /\ phase = "bisect" /\ up - lo <= T /\ phase' = "scan" /\ UNCHANGED << kind, cnt, r, lo, up, steps >>
Scan == /\ kind = "select" /\ phase = "scan" /\ lo + 1 < Len(cnt) /\ Before(cnt, lo + 1) <= r
        /\ lo' = lo + 1 /\ steps' = steps + 1 /\ UNCHANGED << kind, cnt, r, up, phase >>
(* tree: cnt = <<leaves>>, lo the node, up the number of nodes *)
Inner(k) == Max2(1, (2^Lg(k)) - 1)
TInit == /\ kind = "tree" /\ \E k \in 1..MaxLeaves : cnt = << k >>
         /\ up = cnt[1] + Inner(cnt[1]) /\ \E i \in 0..(cnt[1] - 1) : lo = Inner(cnt[1]) + i
         /\ r = 0 /\ phase = "climb" /\ steps = 0
Move(n, p) == kind = "tree" /\ lo' = n /\ phase' = p /\ steps' = steps + 1 /\ UNCHANGED << kind, cnt, r, up >>
Climb == kind = "tree" /\ phase = "climb" /\ lo > 0 /\ Move((lo - 1) \div 2, "climb")
Over == /\ kind = "tree" /\ phase = "climb" /\ lo > 0
        /\ LET s == IF lo % 2 = 1 THEN lo + 1 ELSE lo - 1 IN s < up /\ Move(s, "down")
Down == /\ kind = "tree" /\ phase = "down"
        /\ \E c \in {(2 * lo) + 1, (2 * lo) + 2} : c < up /\ Move(c, "down")
Init == SInit \/ TInit
Next == Bisect \/ ToScan \/ Scan \/ Climb \/ Over \/ Down
Spec == Init /\ [][Next]_vars
Short == IF kind = "select" THEN steps <= Lg(Len(cnt)) + T + 1 ELSE steps <= (2 * Lg(cnt[1])) + 2
(* and the search is right *)
Found == kind = "select" /\ phase = "scan" /\ ~ ENABLED Scan => lo = Holding(cnt, r)
=============================================================================
