----------------------------- MODULE RsVecImpl -----------------------------
(* The design of the rank/select directory, with its sizes as parameters.

   A word has W bits, a block WB words, a super-block NB blocks (a power of two), the select
   samples are taken every Q bits of a kind, and the search between two samples is a bisection
   down to a distance of T super-blocks followed by a linear scan.  In the crate W = 64, WB = 8,
   NB = 16, Q = 8192, T = 8.  Storage may hold junk behind the end of the vector in its last word.
   The module states what the directory contains as a state machine that consumes the words one
   by one (the fold of from_bit_vec), and how rank, select and the select iterator's block search
   use it; RsVecImplMC checks for every bit string up to a bound, every junk and every argument
   that the results are those of the abstract vector of RsVec.tla.                            *)
EXTENDS Runs
CONSTANTS W, WB, NB, Q, T

BlockBits == W * WB
SuperBits == BlockBits * NB

(* ---- storage: a sequence of words, each a sequence of W bits; bit p of the vector ---- *)
BitOf(d, p) == d[(p \div W) + 1][(p % W) + 1]
Zeros(w) == Cardinality({ i \in 1..Len(w) : w[i] = 0 })
Ones(w) == Cardinality({ i \in 1..Len(w) : w[i] = 1 })
(* zeros of a word above its first k bits *)
ZerosAbove(w, k) == Cardinality({ i \in (k + 1)..Len(w) : w[i] = 0 })

(* ---- construction ---- *)
EmptyDir == [blocks |-> <<>>, supers |-> <<>>, sel |-> << [i0 |-> 0, i1 |-> 0] >>,
             total |-> 0, cur |-> 0, last0 |-> 0, last1 |-> 0]

(* one word: idx is its index, pad the number of its bits behind the end of the vector *)
ConsumeWord(dir, idx, w, pad) ==
  LET newblock == idx % WB = 0
      newsuper == idx % (WB * NB) = 0
      total == IF newsuper THEN dir.total + dir.cur ELSE dir.total
      cur   == IF newsuper THEN 0 ELSE dir.cur
      supers == IF newsuper THEN Append(dir.supers, total) ELSE dir.supers
      blocks == IF newblock THEN Append(dir.blocks, cur) ELSE dir.blocks
      new == Zeros(w) - ZerosAbove(w, W - pad)
      all0 == total + cur + new
      step0 == all0 \div Q > (total + cur) \div Q
      here == Len(supers) - 1
      sel0 == IF ~ step0 THEN dir.sel
              ELSE IF all0 \div Q = Len(dir.sel) THEN Append(dir.sel, [i0 |-> here, i1 |-> 0])
              ELSE [dir.sel EXCEPT ![(all0 \div Q) + 1].i0 = here]
      all1 == (idx + 1) * W - all0
      step1 == all1 \div Q > (idx * W - total - cur) \div Q
      sel1 == IF ~ step1 THEN sel0
              ELSE IF all1 \div Q = Len(sel0) THEN Append(sel0, [i0 |-> 0, i1 |-> here])
              ELSE [sel0 EXCEPT ![(all1 \div Q) + 1].i1 = here]
  IN [blocks |-> blocks, supers |-> supers, sel |-> sel1, total |-> total, cur |-> cur + new,
      last0 |-> dir.last0 + B2I(step0), last1 |-> dir.last1 + B2I(step1)]

(* the closing samples: the last super-block *)
Finish(dir) ==
  LET last == Max2(0, Len(dir.supers) - 1)
      s0 == IF dir.last0 = Len(dir.sel) - 1
            THEN Append(dir.sel, [i0 |-> last, i1 |-> 0])
            ELSE [dir.sel EXCEPT ![dir.last0 + 2].i0 = last]
      s1 == IF dir.last1 = Len(s0) - 1
            THEN Append(s0, [i0 |-> 0, i1 |-> last])
            ELSE [s0 EXCEPT ![dir.last1 + 2].i1 = last]
  IN [blocks |-> dir.blocks, supers |-> dir.supers, sel |-> s1,
      rank0 |-> dir.total + dir.cur]

(* ---- queries; d is the storage, x the finished directory, n the length ---- *)
CountIn(w, z) == IF z THEN Zeros(w) ELSE Ones(w)
RankImpl(d, x, n, z, p) ==
  IF p >= n THEN IF z THEN x.rank0 ELSE n - x.rank0
  ELSE LET i == p \div W
           b == p \div BlockBits
           s == p \div SuperBits
           sup == IF z THEN x.supers[s + 1] ELSE s * SuperBits - x.supers[s + 1]
           blk == IF z THEN x.blocks[b + 1] ELSE (b % NB) * BlockBits - x.blocks[b + 1]
           words == SumSeq([k \in 1..(i - b * WB) |-> CountIn(d[b * WB + k], z)])
           part == CountIn(SubSeq(d[i + 1], 1, p % W), z)
       IN sup + blk + words + part

(* bits of the kind before super-block s / before block b within its super-block *)
SuperCount(x, z, s) == IF z THEN x.supers[s + 1] ELSE s * SuperBits - x.supers[s + 1]
BlockCount(x, z, b) == IF z THEN x.blocks[b + 1] ELSE (b % NB) * BlockBits - x.blocks[b + 1]
Sample(x, z, k) == IF z THEN x.sel[k + 1].i0 ELSE x.sel[k + 1].i1

RECURSIVE Bisect(_, _, _, _, _)
Bisect(x, z, r, lo, up) ==
  IF up - lo <= T THEN lo
  ELSE LET m == lo + ((up - lo) \div 2)
       IN IF SuperCount(x, z, m) <= r THEN Bisect(x, z, r, m, up) ELSE Bisect(x, z, r, lo, m)
RECURSIVE Scan(_, _, _, _)
Scan(x, z, r, s) ==
  IF Len(x.supers) > s + 1 /\ SuperCount(x, z, s + 1) <= r THEN Scan(x, z, r, s + 1) ELSE s

FindSuper(x, z, r) ==
  LET s == Sample(x, z, r \div Q)
  IN IF Len(x.supers) > s + 1 /\ SuperCount(x, z, s + 1) <= r
     THEN Scan(x, z, r, Bisect(x, z, r, s, Sample(x, z, (r \div Q) + 1)))
     ELSE s

(* the unrolled bisection over the NB blocks of a super-block; the last super-block may be short *)
RECURSIVE FindBlockFrom(_, _, _, _, _)
FindBlockFrom(x, z, r, b, step) ==
  IF step = 0 THEN b
  ELSE LET c == b + step
       IN FindBlockFrom(x, z, r, IF Len(x.blocks) > c /\ r >= BlockCount(x, z, c) THEN c ELSE b, step \div 2)
FindBlock(x, z, r, s) == FindBlockFrom(x, z, r, s * NB, NB \div 2)

(* the data-parallel variant: used only when the super-block's blocks all exist and more follow *)
FindBlockWide(x, z, r, s) ==
  LET b == s * NB
  IN IF Len(x.blocks) > b + NB
     THEN b + Cardinality({ j \in 0..(NB - 1) : BlockCount(x, z, b + j) <= r }) - 1
     ELSE FindBlock(x, z, r, s)

(* position of the r-th bit of the kind in word w *)
InWord(w, z, r) == CHOOSE i \in 0..(W - 1) : /\ w[i + 1] = (IF z THEN 0 ELSE 1)
                                             /\ CountIn(SubSeq(w, 1, i), z) = r
RECURSIVE FindWord(_, _, _, _, _)
FindWord(d, z, r, b, k) ==
  LET w == d[b * WB + k + 1]
  IN IF k < WB - 1 /\ CountIn(w, z) <= r THEN FindWord(d, z, r - CountIn(w, z), b, k + 1)
     ELSE b * BlockBits + k * W + InWord(w, z, r)

SelectImpl(d, x, n, z, r, wide) ==
  IF r >= (IF z THEN x.rank0 ELSE n - x.rank0) THEN n
  ELSE LET s == FindSuper(x, z, r)
           r1 == r - SuperCount(x, z, s)
           b == IF wide THEN FindBlockWide(x, z, r1, s) ELSE FindBlock(x, z, r1, s)
       IN FindWord(d, z, r1 - BlockCount(x, z, b), b, 0)

=============================================================================
