------------------------------- MODULE BpImpl -------------------------------
(* The design of the excess searches of the parenthesis tree.

   The string is cut into blocks of BS parentheses; the leaves of a binary tree, stored in an
   array in level order, hold the total, minimal and maximal prefix excess of the blocks, inner
   nodes those of the concatenation of their children.  A search scans the block of its start
   (single parentheses up to a multiple of LB, then LB parentheses at a time by a table, then the
   rest), climbs and descends the tree to the block with the answer, and scans that block.
   In the crate BS = 512 (a type parameter) and LB = 8 or 16.  BpImplMC checks for every string
   up to a bound, every start and every excess that the result is the nearest position with that
   excess - also for strings that are not balanced.                                           *)
EXTENDS Base
CONSTANTS BS, LB

Step(x) == IF x = 1 THEN 1 ELSE -1
DivCeil(a, c) == (a + c - 1) \div c
RECURSIVE NextPow2(_)
NextPow2(x) == IF x <= 1 THEN 1 ELSE 2 * NextPow2(DivCeil(x, 2))
RECURSIVE SeqSum(_)
SeqSum(s) == IF s = <<>> THEN 0 ELSE Step(s[1]) + SeqSum(Tail(s))
PrefixSums(s) == [i \in 1..Len(s) |-> SeqSum(SubSeq(s, 1, i))]
Node(s) == LET p == PrefixSums(s) IN
  [t |-> SeqSum(s), lo |-> Min({ p[i] : i \in 1..Len(s) }), hi |-> Max({ p[i] : i \in 1..Len(s) })]
NoNode == [t |-> 0, lo |-> 0, hi |-> 0]

(* ---- the tree: nodes are numbered from 0 ---- *)
Leaves0(b) == DivCeil(Len(b), BS)
Internal(b) == Max2(1, NextPow2(Leaves0(b)) - 1)
Block(b, k) == SubSeq(b, k * BS + 1, Min2((k + 1) * BS, Len(b)))
RECURSIVE TreeNode(_, _)
TreeNode(b, i) ==
  LET size == Internal(b) + Leaves0(b)
  IN IF i >= Internal(b) THEN Node(Block(b, i - Internal(b)))
     ELSE IF 2 * i + 1 >= size THEN NoNode            \* nothing below: stays at its default
     ELSE IF 2 * i + 2 >= size THEN TreeNode(b, 2 * i + 1)
     ELSE LET l == TreeNode(b, 2 * i + 1)
              r == TreeNode(b, 2 * i + 2)
          IN [t |-> l.t + r.t, lo |-> Min2(l.lo, l.t + r.lo), hi |-> Max2(l.hi, l.t + r.hi)]
MmTree(b) == IF b = <<>> THEN <<>> ELSE [i \in 0..(Internal(b) + Leaves0(b) - 1) |-> TreeNode(b, i)]
Size(m) == Cardinality(DOMAIN m)
FirstLeaf(m) == IF Size(m) = 2 THEN 1 ELSE NextPow2(DivCeil(Size(m), 2)) - 1

NoBlock == [blk |-> -1, rel |-> 0]
Within(nd, rel) == nd.lo <= rel /\ rel <= nd.hi
RECURSIVE FwdDown(_, _, _)
FwdDown(m, i, rel) ==
  IF i >= FirstLeaf(m) THEN [blk |-> i - FirstLeaf(m), rel |-> rel]
  ELSE IF Within(m[2 * i + 1], rel) THEN FwdDown(m, 2 * i + 1, rel)
  ELSE LET r == rel - m[2 * i + 1].t
       IN IF 2 * i + 2 < Size(m) /\ Within(m[2 * i + 2], r) THEN FwdDown(m, 2 * i + 2, r)
          ELSE [blk |-> Panic, rel |-> 0]                        \* unreachable!()
RECURSIVE FwdUp(_, _, _)
FwdUp(m, i, rel) ==
  IF i % 2 = 0 THEN IF (i - 1) \div 2 = 0 THEN NoBlock ELSE FwdUp(m, (i - 1) \div 2, rel)
  ELSE IF i + 1 >= Size(m) THEN NoBlock
  ELSE IF Within(m[i + 1], rel) THEN FwdDown(m, i + 1, rel)
  ELSE IF (i - 1) \div 2 = 0 THEN NoBlock
  ELSE FwdUp(m, (i - 1) \div 2, rel - m[i + 1].t)
FwdBlock(m, k, rel) == IF k + FirstLeaf(m) >= Size(m) THEN NoBlock ELSE FwdUp(m, k + FirstLeaf(m), rel)

(* backwards, the start of a node counts as a place of its own *)
WithinB(nd, rel) == rel + nd.t = 0 \/ Within(nd, rel + nd.t)
RECURSIVE BwdDown(_, _, _)
BwdDown(m, i, rel) ==
  IF i >= FirstLeaf(m) THEN [blk |-> i - FirstLeaf(m), rel |-> rel]
  ELSE IF 2 * i + 2 >= Size(m) THEN [blk |-> Panic, rel |-> 0]
  ELSE IF WithinB(m[2 * i + 2], rel) THEN BwdDown(m, 2 * i + 2, rel)
  ELSE LET r == rel + m[2 * i + 2].t
       IN IF WithinB(m[2 * i + 1], r) THEN BwdDown(m, 2 * i + 1, r) ELSE [blk |-> Panic, rel |-> 0]
RECURSIVE BwdUp(_, _, _)
BwdUp(m, i, rel) ==
  IF i % 2 = 1 THEN IF (i - 1) \div 2 = 0 THEN NoBlock ELSE BwdUp(m, (i - 1) \div 2, rel)
  ELSE IF WithinB(m[i - 1], rel) THEN BwdDown(m, i - 1, rel)
  ELSE IF (i - 1) \div 2 = 0 THEN NoBlock
  ELSE BwdUp(m, (i - 1) \div 2, rel + m[i - 1].t)
BwdBlock(m, k, rel) == IF k + FirstLeaf(m) >= Size(m) THEN NoBlock ELSE BwdUp(m, k + FirstLeaf(m), rel)

(* ---- the scan of a block ---- *)
(* result: pos (or None) and the excess that is left *)
RECURSIVE BitsFwd(_, _, _, _)
BitsFwd(b, i, to, rel) ==
  IF i >= to THEN [pos |-> None, rel |-> rel]
  ELSE LET r == rel - Step(b[i + 1])
       IN IF r = 0 THEN [pos |-> i, rel |-> 0] ELSE BitsFwd(b, i + 1, to, r)
RECURSIVE ChunksFwd(_, _, _, _)
ChunksFwd(b, i, to, rel) ==
  IF i >= to THEN [pos |-> None, rel |-> rel]
  ELSE LET c == SubSeq(b, i + 1, i + LB)
           nd == Node(c)
       IN IF Within(nd, rel)
          THEN [pos |-> i + Min({ j \in 1..LB : PrefixSums(c)[j] = rel }) - 1, rel |-> rel]
          ELSE ChunksFwd(b, i + LB, to, rel - nd.t)
ScanFwd(b, start, k, rel) ==
  LET bound == Min2((k + 1) * BS, Len(b))
      l1 == Min2(DivCeil(start + 1, LB) * LB, bound)
      l2 == Max2(l1, (bound \div LB) * LB)
      r1 == BitsFwd(b, start + 1, l1, rel)
      r2 == IF r1.pos # None THEN r1 ELSE ChunksFwd(b, l1, l2, r1.rel)
  IN IF r2.pos # None THEN r2 ELSE BitsFwd(b, l2, bound, r2.rel)

RECURSIVE BitsBwd(_, _, _, _)
BitsBwd(b, i, to, rel) ==                    \* positions i-1 down to `to`
  IF i <= to THEN [pos |-> None, rel |-> rel]
  ELSE LET r == rel + Step(b[i])
       IN IF r = 0 THEN [pos |-> i - 1, rel |-> 0] ELSE BitsBwd(b, i - 1, to, r)
RECURSIVE ChunksBwd(_, _, _, _)
ChunksBwd(b, i, to, rel) ==
  IF i <= to THEN [pos |-> None, rel |-> rel]
  ELSE LET c == SubSeq(b, i - LB + 1, i)
           nd == Node(c)
           Q == { j \in 1..LB : SeqSum(SubSeq(c, j, LB)) = - rel }
       IN IF WithinB(nd, rel) THEN [pos |-> IF Q = {} THEN Panic ELSE i - LB + Max(Q) - 1, rel |-> rel]
          ELSE ChunksBwd(b, i - LB, to, rel + nd.t)
ScanBwd(b, start, k, rel) ==
  LET bound == Min2(k * BS, Len(b))
      l1 == Max2(((start - 1) \div LB) * LB, bound)
      l2 == Min2(l1, DivCeil(bound, LB) * LB)
      r1 == BitsBwd(b, start, l1, rel)
      r2 == IF r1.pos # None THEN r1 ELSE ChunksBwd(b, l1, l2, r1.rel)
  IN IF r2.pos # None THEN r2 ELSE BitsBwd(b, l2, bound, r2.rel)

FwdImpl(b, m, i, rel) ==
  IF i >= Len(b) - 1 \/ rel > Len(b) \/ -rel > Len(b) THEN None
  ELSE LET k == (i + 1) \div BS
           r == ScanFwd(b, i, k, rel)
       IN IF r.pos # None THEN r.pos
          ELSE LET f == FwdBlock(m, k, r.rel)
               IN IF f.blk < 0 THEN f.blk ELSE ScanFwd(b, f.blk * BS - 1, f.blk, f.rel).pos
BwdImpl(b, m, i, rel) ==
  IF i >= Len(b) \/ i = 0 \/ rel > Len(b) \/ -rel > Len(b) THEN None
  ELSE LET k == (i - 1) \div BS
           r == ScanBwd(b, i, k, rel)
       IN IF r.pos # None THEN r.pos
          ELSE LET f == BwdBlock(m, k, r.rel)
               IN IF f.blk < 0 THEN f.blk ELSE ScanBwd(b, (f.blk + 1) * BS, f.blk, f.rel).pos
=============================================================================
