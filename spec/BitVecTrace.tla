---------------------------- MODULE BitVecTrace ----------------------------
(* Recorded executions of BitVec and MaskedBitVec against BitVec.tla (C01-C04, C26). *)
EXTENDS BitVec, TraceBase
vars == << slot, l >>
TInit == slot = Init0 /\ l = 1

I == E0.s                                          \* the slot an event is about

TEpisode  == IsEvent("Episode") /\ slot' = Init0
TNew      == IsEvent("New") /\ New(I)
TZeros    == IsEvent("FromZeros") /\ FromZeros(I, E0.n)
TOnes     == IsEvent("FromOnes") /\ FromOnes(I, E0.n)
TLow      == IsEvent("FromLow") /\ FromLowBits(I, E0.ws)
TBools    == IsEvent("FromBools") /\ FromBools(I, E0.bs)
TLimbs    == IsEvent("FromLimbs") /\ FromLimbs(I, E0.ws)
TPack     == IsEvent("Pack") /\ Pack(I, E0.ws, E0.width)
TCopy     == IsEvent("Copy") /\ Copy(I, E0.d)
TConvert  == IsEvent("Convert") /\ E0.r = 0 /\ Convert(I, E0.d)

(* serialized and deserialized into another slot: the same content *)
TReload   == IsEvent("Reload") /\ E0.ok /\ Convert(I, E0.d)

TAppend   == IsEvent("Append") /\ E0.r = 0 /\ AppendBool(I, E0.b)
TAppLow   == IsEvent("AppendBit") /\ E0.r = 0 /\ AppendLow(I, E0.w)
TAppWord  == IsEvent("AppendWord") /\ E0.r = 0 /\ AppendWord(I, E0.w)
TAppBits  == IsEvent("AppendBits") /\ AppendBits(I, E0.w, E0.len, E0.r)
TAppBitsU == IsEvent("AppendBitsU") /\ E0.r = 0 /\ AppendBitsUnchecked(I, E0.w, E0.len)
TExtend   == IsEvent("Extend") /\ E0.r = 0 /\ Extend(I, E0.js)
TDrop     == IsEvent("DropLast") /\ E0.r = 0 /\ DropLast(I, E0.n)
TFlip     == IsEvent("Flip") /\ Flip(I, E0.p, E0.r)
TFlipU    == IsEvent("FlipU") /\ E0.p < N(I) /\ Flip(I, E0.p, E0.r)
TSet      == IsEvent("Set") /\ Set(I, E0.p, E0.w, E0.r)
TSetU     == IsEvent("SetU") /\ E0.p < N(I) /\ Set(I, E0.p, E0.w, E0.r)
TFlipOut  == IsEvent("FlipOut") /\ WriteOut(I, E0.p, E0.r)
TSetOut   == IsEvent("SetOut") /\ WriteOut(I, E0.p, E0.r)
TReadOut  == IsEvent("ReadOut") /\ E0.r \in { 0, Panic } /\ Query
(* calls that the documentation promises to reject by a panic, on any structure *)
TReject   == IsEvent("MustPanic") /\ E0.r = Panic /\ Query
TSplit    == IsEvent("SplitAt") /\ SplitAt(I, E0.at, E0.d, E0.r)
TSplitU   == IsEvent("SplitU") /\ E0.at <= N(I) /\ SplitAt(I, E0.at, E0.d, E0.r)
TMask     == IsEvent("ApplyMask") /\ ApplyMask(I, E0.j, E0.tt, E0.r)
TMaskVec  == IsEvent("MaskToVec") /\ MaskToVec(I, E0.j, E0.tt, E0.d, E0.r)

TLen      == IsEvent("Len") /\ E0.n = N(I) /\ E0.empty = B2I(N(I) = 0) /\ Query
TRead     == IsEvent("Read") /\ ReadOf(Bits(I), E0.v) /\ Query
TGet      == IsEvent("Get") /\ (\A k \in 1..Len(E0.ps) : GetOf(Bits(I), E0.ps[k], E0.rs[k])) = TRUE /\ Query
TRange    == IsEvent("Range") /\ (\A k \in 1..Len(E0.q) : RangeOf(Bits(I), E0.q[k])) = TRUE /\ Query
TUnpack   == IsEvent("Unpack") /\ (\A k \in 1..Len(E0.q) : UnpackOf(Bits(I), E0.q[k])) = TRUE /\ Query
TCounts   == IsEvent("Counts") /\ CountsOf(Bits(I), E0.ones, E0.zeros) /\ Query
TReadLimbs == IsEvent("Limbs") /\ (LimbsOf(Bits(I), E0.ws)) = TRUE /\ Query
TEqHash   == IsEvent("EqHash") /\ EqHash(I, E0.j, E0.eq, E0.ne, E0.hi, E0.hj) /\ Query

(* the lazy mask view: the same observations on the masked content *)
MB == Masked(I, E0.j, E0.tt)
TMNew     == IsEvent("MaskNew") /\ E0.r = (IF N(I) = N(E0.j) THEN 0 ELSE None) /\ Query
TMRead    == IsEvent("MaskRead") /\ ReadOf(MB, E0.v) /\ Query
TMGet     == IsEvent("MaskGet") /\ LET m == TLCEval(MB) IN (\A k \in 1..Len(E0.ps) : GetOf(m, E0.ps[k], E0.rs[k])) = TRUE /\ Query
TMRange   == IsEvent("MaskRange") /\ LET m == TLCEval(MB) IN (\A k \in 1..Len(E0.q) : RangeOf(m, E0.q[k])) = TRUE /\ Query
TMCounts  == IsEvent("MaskCounts") /\ CountsOf(MB, E0.ones, E0.zeros) /\ Query

TNext ==
  \/ TEpisode \/ TNew \/ TZeros \/ TOnes \/ TLow \/ TBools \/ TLimbs \/ TPack \/ TCopy \/ TConvert \/ TReload
  \/ TAppend \/ TAppLow \/ TAppWord \/ TAppBits \/ TAppBitsU \/ TExtend \/ TDrop \/ TFlip \/ TFlipU
  \/ TFlipOut \/ TSetOut \/ TReadOut \/ TReject \/ TSet \/ TSetU \/ TSplit \/ TSplitU \/ TMask \/ TMaskVec
  \/ TLen \/ TRead \/ TGet \/ TRange \/ TUnpack \/ TCounts \/ TReadLimbs \/ TEqHash
  \/ TMNew \/ TMRead \/ TMGet \/ TMRange \/ TMCounts
TSpec == TInit /\ [][TNext]_vars
=============================================================================
