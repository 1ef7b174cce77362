---------------------------- MODULE BigVecTrace ----------------------------
(* Recorded histories of bit vectors of thousands to billions of bits against BigVec.tla
   (C01 - C04, C23, C26, C29): constructors, edits, masks, comparison, refused operations. *)
EXTENDS TraceBase, BigVec
VARIABLE V
vars == << l, V >>
Slots == 1..4
TInit == l = 1 /\ V = [s \in Slots |-> VEmpty]
TEpisode == IsEvent("Episode") /\ V' = [s \in Slots |-> VEmpty]
Q == UNCHANGED V
Put(s, x) == LET y == TLCEval(x) IN V' = [V EXCEPT ![s] = y]
Rng(q) == { q[i] : i \in 1..Len(q) }
All(P(_)) == (\A i \in 1..Len(E0.ps) : P(i)) = TRUE
A == V[E0.s]
B == V[E0.j]
Inside(v, p, len) == ULeq(p, v.n) /\ ULeq(U64Small(len), USub(v.n, p))
(* constructors: filled; from the bits of a run-length text; from packed elements *)
TFill == IsEvent("Fill") /\ E0.r = 0 /\ Put(E0.s, VFill(E0.b, E0.n))
TBuild == IsEvent("Build") /\ E0.r = 0 /\ LET v == [n |-> E0.n, E |-> Rng(E0.es)] IN (VOK(v)) = TRUE /\ Put(E0.s, v)
TPack == IsEvent("Pack") /\ E0.r = 0
  /\ Put(E0.s, FoldLeft(LAMBDA a, x : VCat(a, VRepeat(VElem(x[1], E0.width), x[2])), VEmpty, E0.els))
TCopy == IsEvent("Copy") /\ E0.r = 0 /\ Put(E0.d, A)           \* clone, conversions there and back, serialized and read again
(* edits; r = 0 done, -1 refused, -2 panic *)
TAppend == IsEvent("Append") /\ E0.r = 0 /\ Put(E0.s, VCat(A, VWord(E0.w, E0.len)))
TTooLong == IsEvent("TooLong") /\ E0.r = Panic /\ Q             \* more than 64 bits at once
TExtend == IsEvent("Extend") /\ E0.r = 0 /\ Put(E0.s, FoldLeft(LAMBDA a, j : VCat(a, V[j]), A, E0.js))
TDrop == IsEvent("Drop") /\ E0.r = 0 /\ Put(E0.s, IF ULess(E0.k, A.n) THEN VTake(A, USub(A.n, E0.k)) ELSE VEmpty)
TFlip == IsEvent("Flip") /\ IF ULess(E0.p, A.n) THEN E0.r = 0 /\ Put(E0.s, VFlip(A, E0.p)) ELSE E0.r = Panic /\ Q
TSet == IsEvent("Set") /\ IF ULess(E0.p, A.n) THEN E0.r = 0 /\ Put(E0.s, VSet(A, E0.p, E0.b)) ELSE E0.r = None /\ Q
TSplit == IsEvent("Split")
  /\ IF ULeq(E0.p, A.n) THEN E0.r = 0 /\ LET x == TLCEval(VTake(A, E0.p)) y == TLCEval(VSkip(A, E0.p)) IN V' = [V EXCEPT ![E0.s] = x, ![E0.d] = y]
     ELSE E0.r = None /\ Q
TMask == IsEvent("Mask") /\ IF A.n = B.n THEN E0.r = 0 /\ Put(E0.d, VMap2(E0.tt, A, B)) ELSE E0.r = None /\ Q
(* observations of a vector, or of the bitwise combination (view) of two *)
X == IF E0.tt < 0 THEN A ELSE VMap2(E0.tt, A, B)
TLen == IsEvent("Len") /\ Q /\ E0.r = A.n /\ E0.empty = B2I(A.n = U64Zero)
TCount == IsEvent("Count") /\ Q /\ LET x == TLCEval(X) IN E0.ones = VCount(x, 1) /\ E0.zeros = VCount(x, 0)
TScan == IsEvent("Scan") /\ Q /\ LET x == TLCEval(X) IN E0.n = x.n /\ (Rng(E0.es) = x.E) = TRUE
TGet == IsEvent("Get") /\ Q /\ LET x == TLCEval(X) IN All(LAMBDA i : E0.rs[i] = IF ULess(E0.ps[i], x.n) THEN VBit(x, E0.ps[i]) ELSE None)
TGetBits == IsEvent("GetBits") /\ Q
  /\ LET x == TLCEval(X) IN All(LAMBDA i : E0.rs[i] = IF E0.lens[i] <= 64 /\ Inside(x, E0.ps[i], E0.lens[i]) THEN VRead(x, E0.ps[i], E0.lens[i]) ELSE <<>>)
TUnpack == IsEvent("Unpack") /\ Q
  /\ All(LAMBDA i : LET p == UTimes(E0.ps[i], E0.lens[i])
                    IN E0.rs[i] = IF E0.lens[i] <= 64 /\ Inside(A, p, E0.lens[i]) THEN VRead(A, p, E0.lens[i]) ELSE <<>>)
TEq == IsEvent("Eq") /\ Q /\ LET e == B2I(A = B) IN E0.eq = e /\ E0.ne = 1 - e /\ (e = 1 => E0.hi = E0.hj)
TViewNew == IsEvent("ViewNew") /\ Q /\ E0.r = IF A.n = B.n THEN 0 ELSE None
TNext == TEpisode \/ TFill \/ TBuild \/ TPack \/ TCopy \/ TAppend \/ TTooLong \/ TExtend \/ TDrop \/ TFlip \/ TSet \/ TSplit \/ TMask
         \/ TLen \/ TCount \/ TScan \/ TGet \/ TGetBits \/ TUnpack \/ TEq \/ TViewNew
TSpec == TInit /\ [][TNext]_vars
=============================================================================
