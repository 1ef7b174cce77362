----------------------------- MODULE BuilderGen -----------------------------
(* All complete histories of the builder with at most MaxLen calls: checked and printed as JSON
   for replay into the code. *)
EXTENDS Builder, Json
CONSTANT MaxLen
Constr == Len(calls) <= MaxLen
Emit == outcome # <<>> => PrintT(ToJson(calls))
=============================================================================
