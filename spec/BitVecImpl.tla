----------------------------- MODULE BitVecImpl -----------------------------
(* The storage design of the mutable bit vector: limbs of W bits (64 in the crate) and a length;
   bits of the last limb behind the length are junk.  The mutations as the code performs them on
   limbs, next to the ideal sequence `bits` of BitVec.tla.  Every behaviour must keep the two in
   step: the limbs read back as the ideal sequence, there are exactly as many limbs as needed,
   and no observation (equality, hash, counting, ranges) depends on junk.                      *)
EXTENDS Base
CONSTANTS W, MaxLen
VARIABLES data, len,        \* the implementation: sequence of limbs (each a sequence of W bits)
          bits, tidy        \* the specification: see BitVec.tla

Limb == [1..W -> 0..1]
ZeroLimb == [i \in 1..W |-> 0]
(* word shifts: bit i of x << s is bit i - s of x *)
Shl(x, s) == [i \in 1..W |-> IF i - s >= 1 THEN x[i - s] ELSE 0]
Shr(x, s) == [i \in 1..W |-> IF i + s <= W THEN x[i + s] ELSE 0]
Or(x, y) == [i \in 1..W |-> IF x[i] = 1 \/ y[i] = 1 THEN 1 ELSE 0]
Keep(x, k) == [i \in 1..W |-> IF i <= k THEN x[i] ELSE 0]         \* x & ((1 << k) - 1)
Limbs(n) == (n + W - 1) \div W
Read(d, n) == [k \in 1..n |-> d[((k - 1) \div W) + 1][((k - 1) % W) + 1]]

(* ---- limb operations on a vector [d, n] ---- *)
AppendBitI(v, b) ==
  LET d == IF v.n % W = 0 THEN Append(v.d, ZeroLimb) ELSE v.d
      l == (v.n \div W) + 1
  IN [d |-> [d EXCEPT ![l][(v.n % W) + 1] = b], n |-> v.n + 1]
AppendBitsI(v, x, k, clean) ==
  IF k = 0 THEN v
  ELSE IF v.n % W = 0 THEN [d |-> Append(v.d, x), n |-> v.n + k]
  ELSE LET l == (v.n \div W) + 1
           s == v.n % W
           old == IF clean THEN Keep(v.d[l], s) ELSE v.d[l]
           d == [v.d EXCEPT ![l] = Or(old, Shl(x, s))]
       IN [d |-> IF s + k > W THEN Append(d, Shr(x, W - s)) ELSE d, n |-> v.n + k]
RECURSIVE AppendLimbsI(_, _, _, _, _)
AppendLimbsI(v, d, i, j, clean) ==       \* whole limbs i..j of d
  IF i > j THEN v ELSE AppendLimbsI(AppendBitsI(v, d[i], W, clean), d, i + 1, j, clean)
ExtendI(v, o) ==
  LET full == o.n \div W
      w == AppendLimbsI(v, o.d, 1, full, TRUE)
  IN IF o.n % W > 0 THEN AppendBitsI(w, o.d[full + 1], o.n % W, TRUE) ELSE w
DropI(v, k) ==
  IF k > v.n THEN [d |-> <<>>, n |-> 0]
  ELSE [d |-> SubSeq(v.d, 1, Min2(Len(v.d), Limbs(v.n - k))), n |-> v.n - k]
(* the second half of a split *)
SplitTailI(v, at) ==
  LET rest == v.n - at
      first == at \div W
      last == v.n \div W
      lead == at % W
      e == [d |-> <<>>, n |-> 0]
  IN IF rest = 0 THEN e
     ELSE IF first = last THEN AppendBitsI(e, Shr(v.d[first + 1], lead), rest, FALSE)
     ELSE LET h == IF lead > 0 THEN AppendBitsI(e, Shr(v.d[first + 1], lead), W - lead, FALSE) ELSE e
              m == AppendLimbsI(h, v.d, (IF lead > 0 THEN first + 1 ELSE first) + 1, last, FALSE)
          IN IF v.n % W > 0 THEN AppendBitsI(m, v.d[last + 1], v.n % W, FALSE) ELSE m
MaskI(v, o, tt) ==       \* limb by limb, junk included; tt is a truth table
  [d |-> [l \in 1..Len(v.d) |-> [i \in 1..W |-> (tt \div Pow2[2 * v.d[l][i] + o.d[l][i] + 1]) % 2]], n |-> v.n]

(* ---- observations of the implementation ---- *)
EqI(v, o) == IF v.n # o.n THEN FALSE ELSE IF v.n = 0 THEN TRUE
             ELSE /\ \A l \in 1..(Len(v.d) - 1) : v.d[l] = o.d[l]
                  /\ LET k == W - ((W - (v.n % W)) % W)
                     IN Keep(v.d[Len(v.d)], k) = Keep(o.d[Len(v.d)], k)
HashI(v) == IF v.n = 0 THEN << 0 >>
            ELSE << v.n >> \o SubSeq(v.d, 1, Len(v.d) - 1)
                 \o << Keep(v.d[Len(v.d)], W - ((W - (v.n % W)) % W)) >>
OnesI(v) == SumSeq([l \in 1..(v.n \div W) |-> SumSeq(v.d[l])])
            + (IF v.n % W # 0 THEN SumSeq(Keep(v.d[Len(v.d)], v.n % W)) ELSE 0)
GetBitsI(v, p, k) ==
  LET l == (p \div W) + 1
      s == p % W
      x == Shr(v.d[l], s)
  IN Keep(IF s + k <= W THEN x ELSE Or(x, Shl(v.d[l + 1], W - s)), k)

V == [d |-> data, n |-> len]
Set2(v, b, t) == /\ data' = v.d /\ len' = v.n /\ bits' = b
                 /\ tidy' = (t \/ v.n % W = 0)
(* another vector: any content, any junk *)
Others(n) == { [d |-> d, n |-> n] : d \in [1..Limbs(n) -> Limb] }

Init == data = <<>> /\ len = 0 /\ bits = <<>> /\ tidy = TRUE
AppendB == len < MaxLen /\ \E b \in 0..1 : Set2(AppendBitI(V, b), Append(bits, b), tidy)
AppendChecked == \E k \in 0..W : len + k <= MaxLen /\ \E x \in Limb :
  Set2(AppendBitsI(V, x, k, TRUE), bits \o SubSeq(x, 1, k), IF k = 0 THEN tidy ELSE x = Keep(x, k))
AppendUnchecked == tidy /\ \E k \in 0..W : len + k <= MaxLen /\ \E x \in Limb :
  Set2(AppendBitsI(V, x, k, FALSE), bits \o SubSeq(x, 1, k), IF k = 0 THEN tidy ELSE x = Keep(x, k))
ExtendBy == \E n \in 0..(MaxLen - len) : \E o \in Others(n) : Set2(ExtendI(V, o), bits \o Read(o.d, n), FALSE)
Drop == \E k \in 0..(len + 1) : Set2(DropI(V, k), SubSeq(bits, 1, len - Min2(k, len)), k = 0 /\ tidy)
SetBit == \E p \in 0..(len - 1) : \E b \in 0..1 :
  Set2([V EXCEPT !.d[(p \div W) + 1][(p % W) + 1] = b], [bits EXCEPT ![p + 1] = b], tidy)
(* an unchecked set or flip behind the end, in the last limb; further away it panics *)
WriteBehind == \E p \in len..((W * Len(data)) - 1) : \E b \in 0..1 :
  Set2([V EXCEPT !.d[(p \div W) + 1][(p % W) + 1] = b], bits, FALSE)
SplitFirst == \E at \in 0..len : Set2(DropI(V, len - at), SubSeq(bits, 1, at), FALSE)
SplitSecond == \E at \in 0..len : Set2(SplitTailI(V, at), SubSeq(bits, at + 1, len), FALSE)
Mask == \E tt \in {7, 8, 6, 14, 9} : \E o \in Others(len) :
  Set2(MaskI(V, o, tt), [k \in 1..len |-> (tt \div Pow2[2 * bits[k] + Read(o.d, len)[k] + 1]) % 2], FALSE)
Next == AppendB \/ AppendChecked \/ AppendUnchecked \/ ExtendBy \/ Drop \/ SetBit \/ WriteBehind
        \/ SplitFirst \/ SplitSecond \/ Mask
Spec == Init /\ [][Next]_<< data, len, bits, tidy >>

(* ---- what must hold ---- *)
Refines == len = Len(bits) /\ Read(data, len) = bits
Shape == Len(data) = Limbs(len)
(* `tidy` in the specification promises clean storage *)
TidyIsClean == tidy => len % W = 0 \/ data[Len(data)] = Keep(data[Len(data)], len % W)
Counting == OnesI(V) = SumSeq(bits)
Ranges == \A p \in 0..len : \A k \in 1..W : p + k <= len =>
            GetBitsI(V, p, k) = [i \in 1..W |-> IF i <= k THEN bits[p + i] ELSE 0]
JunkBlind == \A o \in Others(len) :
  LET same == Read(o.d, len) = bits
  IN EqI(V, o) = same /\ (same => HashI(V) = HashI(o))
=============================================================================
