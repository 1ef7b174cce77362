------------------------------ MODULE BpBigMC ------------------------------
(* BpBig.tla against the plain definitions and Bp.tla, for all strings of up to MaxPieces pieces
   of length up to MaxLen. *)
EXTENDS BpBig
B == INSTANCE Bp
CONSTANTS MaxPieces, MaxLen
VARIABLE ps
Piece == { p \in {-1, 0, 1} \X (1..MaxLen) : p[1] = 0 => p[2] % 2 = 0 }
Init == ps = <<>>
Next == Len(ps) < MaxPieces /\ \E p \in Piece : ps' = Append(ps, p)
Spec == Init /\ [][Next]_ps
Listed == FoldLeft(LAMBDA a, p : a \o [x \in 1..p[2] |-> CASE p[1] = 1 -> 1 [] p[1] = -1 -> 0 [] OTHER -> x % 2], <<>>, ps)
MinOr(S) == IF S = {} THEN None ELSE Min(S)
MaxOr(S) == IF S = {} THEN None ELSE Max(S)
Excesses(b) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + (IF x = 1 THEN 1 ELSE -1)), << 0 >>, b)
Tops(b) == FoldLeft(LAMBDA a, i : Append(a, IF b[i] = 1 THEN i - 1 ELSE IF a[i] = None THEN None ELSE a[a[i] + 1]),
                    << None >>, [i \in 1..Len(b) |-> i])
Closes(b, tp) == [i \in 1..Len(b) |-> IF b[i] = 0 THEN None ELSE MinOr({ j \in i..(Len(b) - 1) : b[j + 1] = 0 /\ tp[j + 1] = i - 1 })]
Agree ==
  LET b == TLCEval(Listed)
      n == Len(b)
      T == TLCEval(PTable(ps))
      E == TLCEval(Excesses(b))
      tp == TLCEval(Tops(b))
      cl == TLCEval(Closes(b, tp))
      Op == { j \in 0..(n - 1) : b[j + 1] = 1 }
      OpenAt(d, S) == { j \in Op : E[j + 1] = d /\ j \in S }
  IN
  /\ PiecesOK(ps) /\ PN(T) = n /\ B!ExcessOK(b, E) /\ B!TopOK(b, tp) /\ B!CloseOK(b, tp, cl)
  /\ \A j \in 0..n : PE(ps, T, j) = E[j + 1] /\ POnes(ps, T, j) = Cardinality({ i \in Op : i < j })
  /\ \A i \in 0..(n - 1) :
       /\ PBit(ps, T, i) = b[i + 1]
       /\ PExcess(ps, T, i) = E[i + 2]
       /\ \A rel \in (-n - 1)..(n + 1) :
            /\ PFwd(ps, T, i, rel) = MinOr({ j \in (i + 1)..(n - 1) : E[j + 2] = E[i + 2] + rel })
            /\ PBwd(ps, T, i, rel) = MaxOr({ j \in 0..(i - 1) : E[j + 1] = E[i + 1] + rel })
       /\ PEnclose(ps, T, i) = B!Enclose(b, tp, i)
       /\ IF b[i + 1] = 1 THEN PClose(ps, T, i) = cl[i + 1] ELSE POpen(ps, T, i) = B!OpenOf(tp, i)
  /\ PFwd(ps, T, n, -1) = None /\ PBwd(ps, T, n + 1, 0) = None /\ PExcess(ps, T, n + 3) = E[n + 1]
  /\ PIsTree(ps, T) = (n > 1 /\ B!IsTree(b, E))
  /\ \A x \in Op : /\ PSize(ps, T, x) = IF cl[x + 1] = None THEN None ELSE Cardinality({ j \in Op : x <= j /\ j < cl[x + 1] })
                   /\ \A y \in Op : PIsAnc(ps, T, x, y) = IF cl[x + 1] = None THEN None ELSE B2I(x <= y /\ y < cl[x + 1])
  /\ PIsTree(ps, T) => \A x \in Op :
       LET kids == { j \in Op : tp[j + 1] = x }
           sibs == IF x = 0 THEN { 0 } ELSE { j \in Op : tp[j + 1] = tp[x + 1] }
       IN /\ PLeaf(ps, T, x) = (kids = {})
          /\ PFirstChild(ps, T, x) = MinOr(kids)
          /\ PLastChild(ps, T, x) = MaxOr(kids)
          /\ PKids(ps, T, x) = Cardinality(kids)
          /\ PNextSib(ps, T, x) = MinOr({ j \in sibs : j > x })
          /\ PPrevSib(ps, T, x) = MaxOr({ j \in sibs : j < x })
          /\ PAnc(ps, T, x, 0) = x /\ PAnc(ps, T, x, 1) = tp[x + 1]
          /\ \A u \in 1..(n + 1) : PAnc(ps, T, x, u) = (LET a == PAnc(ps, T, x, u - 1) IN IF a = None THEN None ELSE tp[a + 1])
          /\ PLevelNext(ps, T, x) = MinOr({ j \in OpenAt(E[x + 1], (x + 1)..n) : TRUE })
          /\ PLevelPrev(ps, T, x) = MaxOr({ j \in OpenAt(E[x + 1], 0..(x - 1)) : TRUE })
  /\ PIsTree(ps, T) => \A d \in 0..n : PLeftmost(ps, T, d) = MinOr(OpenAt(d, Op)) /\ PRightmost(ps, T, d) = MaxOr(OpenAt(d, Op))
=============================================================================
