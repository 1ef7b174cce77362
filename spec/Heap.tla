-------------------------------- MODULE Heap --------------------------------
(* Memory use of one data structure.  The heap is a ledger of the bytes that the structure holds.
   Building and mutating the structure allocates and frees; a copy holds exactly what it uses (it has
   no spare capacity), and the size the structure reports is what such a copy holds.  Dropping
   the structure returns everything.  A growable bit vector may have been given room in advance:
   as long as it is only appended to and fits, it allocates nothing, and appending another vector
   never allocates more than once. *)
EXTENDS Base
VARIABLES held,            \* bytes the structure holds
          bits, room       \* bits appended since room was reserved for them
hvars == << held, bits, room >>
HInit == held = 0 /\ bits = 0 /\ room = 0
Net(a, f) == SumSeq(a) - SumSeq(f)
(* an operation that allocated the chunks a and freed the chunks f *)
HBook(a, f) == held' = held + Net(a, f) /\ held' >= 0
HMutate(a, f) == HBook(a, f) /\ bits' = 0 /\ room' = 0
(* an empty vector with room for c bits *)
HReserve(c, a, f) == HBook(a, f) /\ bits' = 0 /\ room' = c
(* n more bits *)
HAppend(n, a, f) == /\ HBook(a, f)
                    /\ bits' = bits + n
                    /\ room' = room
                    /\ (bits + n <= room => a = << >> /\ f = << >>)
(* n more bits from another vector, in one go *)
HExtend(n, a, f) == HAppend(n, a, f) /\ Len(a) <= 1 /\ Len(f) <= 1
(* the structure reported h; the copy made of it allocated a and freed f on the way *)
HMeasure(h, a, f) == /\ UNCHANGED hvars
                     /\ h = Net(a, f)
                     /\ h <= held
(* another accountant's numbers: what is used (the reported size h), and what is held including spare room *)
HSizes(h, used, all) == UNCHANGED hvars /\ used = h /\ all = held
HDrop(a, f) == held' = held + Net(a, f) /\ held' = 0 /\ bits' = 0 /\ room' = 0
=============================================================================
