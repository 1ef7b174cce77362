------------------------------- MODULE HeapMC -------------------------------
(* A bit vector on a growable array of limbs with spare capacity, whatever the growth policy of the
   array: its sizes, reservations and extensions obey Heap.tla. *)
EXTENDS Heap
CONSTANTS W,               \* bits per limb
          MaxLen, MaxOps   \* bits, operations
VARIABLES len, cap, ops    \* bits stored, limbs of the array
vars == << held, bits, room, len, cap, ops >>
Ceil(n) == (n + W - 1) \div W
Caps(n) == { c \in n..(2 * Ceil(MaxLen)) : c <= Max2(2 * n, 2) }
Chunk(c) == IF c = 0 THEN << >> ELSE << 8 * c >>
Init == HInit /\ len = 0 /\ cap = 0 /\ ops = 0
Tick == ops < MaxOps /\ ops' = ops + 1
(* with_capacity: one limb more than needed at most *)
Reserve == /\ Tick /\ len = 0 /\ cap = 0
           /\ \E c \in 0..MaxLen : /\ HReserve(c, << 8 * ((c \div W) + 1) >>, << >>)
                                   /\ cap' = (c \div W) + 1
           /\ UNCHANGED len
(* one bit: room, or reallocation to some larger capacity *)
Push == /\ Tick /\ len < MaxLen /\ len' = len + 1
        /\ IF Ceil(len + 1) <= cap THEN HAppend(1, << >>, << >>) /\ cap' = cap
           ELSE \E c \in Caps(Ceil(len + 1)) : HAppend(1, << 8 * c >>, Chunk(cap)) /\ cap' = c
(* n bits: what is missing is reserved first *)
Extend == /\ Tick
          /\ \E n \in 0..(MaxLen - len) :
                /\ len' = len + n
                /\ IF Ceil(len + n) <= cap THEN HExtend(n, << >>, << >>) /\ cap' = cap
                   ELSE \E c \in Caps(Ceil(len + n)) : HExtend(n, << 8 * c >>, Chunk(cap)) /\ cap' = c
Pop == len > 0 /\ Tick /\ len' = len - 1 /\ HMutate(<< >>, << >>) /\ UNCHANGED cap
Measure == HMeasure(8 * Ceil(len), Chunk(Ceil(len)), << >>) /\ UNCHANGED << len, cap, ops >>
Drop == HDrop(<< >>, Chunk(cap)) /\ len' = 0 /\ cap' = 0 /\ UNCHANGED ops
Next == Reserve \/ Push \/ Extend \/ Pop \/ Measure \/ Drop
Spec == Init /\ [][Next]_vars
HeldIsCap == held = 8 * cap
(* the report is always possible: it never exceeds what is held, and drop always balances *)
Reportable == ENABLED Measure /\ ENABLED Drop
(* and so is growing: no reservation is ever broken *)
Growable == (ops < MaxOps /\ len < MaxLen) => ENABLED Push /\ ENABLED Extend
=============================================================================
