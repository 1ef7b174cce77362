-------------------------------- MODULE Iter --------------------------------
(* The double-ended, exact-size, fused iterator protocol as a state machine.

   An iterator over the source src (a fixed sequence, 0-based, Elem(src, k) for k < Size(src)) has
   consumed everything before lo and everything from hi on; lo..hi-1 remain.  A call is a pair
   <<operation, argument>>; Res is the result the protocol defines and Step the state after it.
   Results are integers: elements as themselves, None for "no element".                        *)
EXTENDS Base
CONSTANTS Elem(_, _), Size(_), Sorted(_)    \* Sorted: the source is known to be non-decreasing

Ops == 0..11
Next_ == 0  Back_ == 1  Nth_ == 2  NthBack_ == 3
Length == 4 HintLo == 5 HintHi == 6 Count == 7 Final == 8 Minimum == 9 Maximum == 10 Fork == 11

Open(s) == [src |-> s, lo |-> 0, hi |-> Size(s)]
Left(it) == it.hi - it.lo

Res(it, op, n) ==
  LET m == Left(it)
      at(k) == Elem(it.src, k)
  IN CASE op = Next_    -> IF m > 0 THEN at(it.lo) ELSE None
       [] op = Back_    -> IF m > 0 THEN at(it.hi - 1) ELSE None
       [] op = Nth_     -> IF n < m THEN at(it.lo + n) ELSE None
       [] op = NthBack_ -> IF n < m THEN at(it.hi - 1 - n) ELSE None
       [] op \in { Length, HintLo, HintHi, Count } -> m
       [] op = Final    -> IF m > 0 THEN at(it.hi - 1) ELSE None
       [] op = Fork     -> None       \* go on with a copy
       [] op = Minimum  -> IF m = 0 THEN None ELSE IF Sorted(it.src) THEN at(it.lo) ELSE Min({ at(k) : k \in it.lo..(it.hi - 1) })
       [] op = Maximum  -> IF m = 0 THEN None ELSE IF Sorted(it.src) THEN at(it.hi - 1) ELSE Max({ at(k) : k \in it.lo..(it.hi - 1) })

(* count, last, min and max consume the iterator; callers apply them to a copy *)
Step(it, op, n) ==
  LET m == Left(it)
  IN CASE op = Next_    -> IF m > 0 THEN [it EXCEPT !.lo = it.lo + 1] ELSE it
       [] op = Back_    -> IF m > 0 THEN [it EXCEPT !.hi = it.hi - 1] ELSE it
       [] op = Nth_     -> [it EXCEPT !.lo = IF n < m THEN it.lo + n + 1 ELSE it.hi]
       [] op = NthBack_ -> [it EXCEPT !.hi = IF n < m THEN it.hi - n - 1 ELSE it.lo]
       [] OTHER -> it

(* what is left, in order *)
Rest(it) == [k \in 1..Left(it) |-> Elem(it.src, it.lo + k - 1)]
RestBack(it) == [k \in 1..Left(it) |-> Elem(it.src, it.hi - k)]
Exhausted(it) == [it EXCEPT !.lo = it.hi]

(* A script << op, argument, result, op, argument, result, ... >>: run it, checking every result.
   Bad is the state after a wrong result. *)
Bad == [src |-> -1, lo |-> 0, hi |-> 0]
RunScript(it0, sc) ==
  FoldLeft(LAMBDA it, i :
             IF it = Bad THEN Bad
             ELSE IF Res(it, sc[3 * i - 2], sc[3 * i - 1]) = sc[3 * i]
                  THEN Step(it, sc[3 * i - 2], sc[3 * i - 1]) ELSE Bad,
           it0, [k \in 1..(Len(sc) \div 3) |-> k])
=============================================================================
