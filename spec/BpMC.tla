------------------------------- MODULE BpMC -------------------------------
(* The definitions of Bp.tla agree with each other and with the textbook ones, for all strings up
   to MaxN.  The certificates are computed here by their definitions; that the *OK predicates
   accept nothing else is checked for all candidates up to MaxC. *)
EXTENDS Bp
CONSTANTS MaxN, MaxC
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxN /\ \E x \in {0, 1} : b' = Append(b, x)
Spec == Init /\ [][Next]_b
N == Len(b)
Ex(j) == 2 * Cardinality({ i \in 1..j : b[i] = 1 }) - j
EE == [j \in 1..(N + 1) |-> Ex(j - 1)]
Lo == Min({ EE[j] : j \in 1..(N + 1) })
Hi == Max({ EE[j] : j \in 1..(N + 1) })
LL == [x \in 1..(Hi - Lo + 1) |-> SelectSeq([j \in 1..(N + 1) |-> j - 1], LAMBDA j : Ex(j) = Lo + x - 1)]
MinOr(S) == IF S = {} THEN None ELSE Min(S)
MaxOr(S) == IF S = {} THEN None ELSE Max(S)
FwdDef(i, r) == MinOr({ j \in (i + 1)..(N - 1) : Ex(j + 1) = Ex(i + 1) + r })
BwdDef(i, r) == MaxOr({ j \in 0..(i - 1) : Ex(j) = Ex(i) + r })
Searches == LET ee == TLCEval(EE)
                ll == TLCEval(LL)
                lo == TLCEval(Lo) IN
  /\ ExcessOK(b, ee) /\ LevelsOK(ee, lo, ll)
  /\ \A i \in 0..(N - 1) : \A r \in (-N - 1)..(N + 1) :
       /\ Fwd(ee, lo, ll, i, r) = FwdDef(i, r)
       /\ Bwd(ee, lo, ll, i, r) = BwdDef(i, r)
  /\ Fwd(ee, lo, ll, N, -1) = None /\ Bwd(ee, lo, ll, N + 3, -1) = None
(* the stack *)
RECURSIVE TopAt(_)
TopAt(i) == IF i = 0 THEN None
            ELSE IF b[i] = 1 THEN i - 1
            ELSE LET t == TopAt(i - 1) IN IF t = None THEN None ELSE TopAt(t)
Tp == [i \in 1..(N + 1) |-> TopAt(i - 1)]
Cl == [i \in 1..N |-> IF b[i] = 0 THEN None ELSE MinOr({ j \in i..(N - 1) : b[j + 1] = 0 /\ TopAt(j) = i - 1 })]
(* bracket matching is excess search *)
Matching == LET tp == TLCEval(Tp)
                cl == TLCEval(Cl) IN
  /\ TopOK(b, tp) /\ CloseOK(b, tp, cl)
  /\ \A i \in 0..(N - 1) :
       /\ b[i + 1] = 1 => cl[i + 1] = FwdDef(i, -1)
       /\ b[i + 1] = 0 => OpenOf(tp, i) = BwdDef(i, -1)
       /\ Enclose(b, tp, i) = BwdDef(i, IF b[i + 1] = 1 THEN -1 ELSE -2)
(* candidates: nothing but the definition is accepted *)
Unique == LET tp == TLCEval(Tp)
              cl == TLCEval(Cl) IN N <= MaxC =>
  /\ \A t \in [1..(N + 1) -> -1..(N - 1)] : TopOK(b, t) => t = tp
  /\ \A c \in [1..N -> -1..(N - 1)] : CloseOK(b, tp, c) => c = cl
(* the tree queries *)
Nodes == SelectSeq([j \in 1..N |-> j - 1], LAMBDA j : b[j + 1] = 1)
Ix == [j \in 1..N |-> IF b[j] = 0 THEN 0 ELSE Cardinality({ i \in 1..j : b[i] = 1 })]
Kid(x) == SelectSeq(Nodes, LAMBDA j : Tp[j + 1] = x)
Kids == [k \in 1..Len(Nodes) |-> Kid(Nodes[k])]
RECURSIVE Pre(_), Post(_), Depth(_), PreAll(_), PostAll(_)
PreAll(s) == IF s = <<>> THEN <<>> ELSE Pre(Head(s)) \o PreAll(Tail(s))
PostAll(s) == IF s = <<>> THEN <<>> ELSE Post(Head(s)) \o PostAll(Tail(s))
Pre(x) == << x >> \o PreAll(Kid(x))
Post(x) == PostAll(Kid(x)) \o << x >>
Depth(x) == IF Tp[x + 1] = None THEN 0 ELSE 1 + Depth(Tp[x + 1])
Lvl(d) == SelectSeq(Nodes, LAMBDA x : Depth(x) = d)
D == [k \in 1..Len(Nodes) |-> Depth(Nodes[k])]
Lv == [d \in 1..(Max({ D[k] : k \in 1..Len(D) }) + 1) |-> Lvl(d - 1)]
RECURSIVE AncOf(_, _)
AncOf(x, u) == IF u = 0 THEN x ELSE AncOf(Tp[x + 1], u - 1)
Trees == IsTree(b, EE) =>
  /\ NodesOK(b, Nodes) /\ KidsOK(Tp, Nodes, Kids) /\ Depths(Tp, Nodes, Ix, D) /\ LvOK(Nodes, Ix, D, Lv)
  /\ Nodes = Pre(0)                                   \* handles in order are the pre-order
  /\ \A k \in 1..Len(Nodes) :
       LET x == Nodes[k]
           sz == Len(Pre(x))
       IN /\ PostOrder(b, Cl, x, sz, Post(x))
          /\ SubSeq(Nodes, k, k + sz - 1) = Pre(x)    \* a subtree is contiguous
          /\ Ex(x + 1) - 1 = Depth(x)
          /\ Tp[x + 1] = None <=> x = 0
  /\ Sizes(Kids, Ix, [k \in 1..Len(Nodes) |-> Len(Pre(Nodes[k]))])
  /\ \A a \in 1..Len(Nodes) :
       AncRow(Tp, Nodes, Ix, Nodes[a], [k \in 1..Len(Nodes) |-> B2I(Nodes[k] \in Range(Pre(Nodes[a])))])
  (* the level queries through the searches the code uses *)
  /\ \A d \in 1..Len(Lv) : \A t \in 1..Len(Lv[d]) :
       LET x == Lv[d][t]
       IN /\ (IF t = Len(Lv[d]) THEN None ELSE Lv[d][t + 1]) = FwdDef(Cl[x + 1], 1)
          /\ (t = 1) = (BwdDef(x, 1) = None)
          /\ \A u \in 1..Depth(x) : BwdDef(x, -u) = AncOf(x, u)
=============================================================================
